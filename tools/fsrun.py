"""Field-level symbolic execution tasks (see fs/fs.h)."""
import os, json, subprocess, re, fcntl, glob
import vf, resource
def limit(gb): return lambda: resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
FSF = ['-std=gnu++17', '-O1', '-maes', '-msse4.1', '-include', 'cstdint', '-w', '-D_GLIBCXX_ASSERTIONS', '-I' + vf.V + '/fs']
INST = ['-finstrument-functions-after-inlining']

def sources(native):
    r = []
    for s in vf.scl_sources() + vf.tp_sources():
        b = os.path.basename(s)
        if b == 'prg.cc' and '/src/scl/prg.cc' in s: continue
        if not native and b == 'mersenne61.cc': continue
        r.append(s)
    return r

def binary(t, work, native):
    flags = FSF + t.get('cflags', []) + ([] if native else INST) + (['-fsanitize=address', '-g1'] if native else [])
    libs = vf.build_set('fsn' if native else 'fs', sources(native), flags, '.o')
    d = vf.cachedir('fsrt-n' if native else 'fsrt-s', ' '.join(flags))
    os.makedirs(vf.B + '/cache', exist_ok=True)
    drv = vf.V + '/fs/' + ('fs_native.cc' if native else 'fs_sym.cc')
    with open(vf.B + '/cache/.lock-fsrt', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(d + '/ok'):
            os.makedirs(d, exist_ok=True)
            f = [x for x in flags if x not in INST]
            vf.cc(drv, d + '/drv.o', [x if x != '-O1' else '-O2' for x in f] + ['-I' + Z3 + '/include'])
            vf.cc(vf.V + '/fs/fs_prg.cc', d + '/prg.o', f)
            open(d + '/ok', 'w').close()
    key = re.sub(r'\W', '_', t['harness'] + '_' + '_'.join(t.get('defs', []))) + ('.n' if native else '.s')
    out = f'{work}/fs_{key}'
    with open(out + '.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(out):
            vf.cc(f'{vf.V}/harness/{t["harness"]}', out + '.o', flags + t.get('defs', []))
            cmd = ['clang++', '-rdynamic', out + '.o', d + '/drv.o', d + '/prg.o'] + libs + ['-o', out + '.tmp', '-lpthread', '-ldl']
            if native: cmd += ['-fsanitize=address']
            else: cmd += ['-L' + Z3 + '/lib', '-lz3', '-Wl,-rpath,' + Z3 + '/lib']
            r = vf.sh(cmd)
            if r.returncode: raise vf.BuildError('link: ' + r.stdout[:2500])
            os.rename(out + '.tmp', out)
    return out

def replay(t, viol, work):
    b = binary(t, work, True)
    env = dict(os.environ, ASAN_OPTIONS='exitcode=11:detect_leaks=0:detect_stack_use_after_return=0')
    try:
        r = vf.sh([b, t['entry'], viol['replay'], viol['what'], t.get('cfg', '')], env=env, timeout=120)
    except subprocess.TimeoutExpired:
        return False, 'timeout'
    rc, out = r.returncode, r.stdout
    k = viol['kind']
    if k in ('assert', 'privacy'): ok = (rc == 10 and ('REPLAY-ASSERT ' + viol['what']) in out) or rc == 11
    elif k == 'exception': ok = rc in (10, 11, 12)
    elif k == 'hang': ok = rc in (14, -14)
    elif k == 'crash': ok = rc in (11, 12) or rc < 0
    else: ok = False
    return ok, f'rc={rc} {out.strip()[:300]}'

def run(t, work, tier):
    res = dict(task=t['name'], engine='fieldsym', bound=t.get('bound', ''), violations=[], incomplete=[])
    b = binary(t, work, False)
    out = f'{work}/{t["name"]}.json'
    rdir = f'{work}/replay-{t["name"]}'
    os.makedirs(rdir, exist_ok=True)
    tm = t.get('time', 200) if tier == 'quick' else t.get('ttime', 800)
    args = [b, '--entry', t['entry'], '--out', out, '--replay-dir', rdir, '--time', str(tm)] + t.get('args', [])
    if t.get('cfg'): args += ['--cfg', t['cfg']]
    try:
        r = vf.sh(args, timeout=tm + 200, preexec_fn=limit(t.get('mem', 6)))
    except subprocess.TimeoutExpired:
        res['incomplete'].append('engine timeout'); return res
    if not os.path.exists(out):
        res['incomplete'].append(f'engine failed rc={r.returncode}: {r.stdout[-300:]}'); return res
    j = json.load(open(out))
    for k in ('paths', 'assume_cut', 'steps', 'queries', 'assert_sites_checked', 'assert_solver', 'assert_folded', 'unknown', 'solver_s', 'max_query_s', 'wall_s', 'functions', 'reach', 'asserts', 'forks'):
        res[k] = j[k]
    res['extra'] = dict(variables=j['variables'], polynomials=j['polynomials'], generic_randomness_branches=j['generic_randomness_branches'])
    res['incomplete'] += j['incomplete']
    for tag in t.get('reach', ['end']):
        if not j['reach'].get(tag) and not j['violations']:
            res['incomplete'].append(f'reachability witness "{tag}" not hit')
    for v in j['violations']:
        ok, note = replay(t, v, work)
        if ok: res['violations'].append(dict(v, replay_note=note))
        elif v['kind'] != 'hang': res['incomplete'].append(f'counterexample did not reproduce natively ({v["kind"]}: {v["what"]}; {note})')
    # the same harness against the real field on pseudo random values
    if t.get('witness', True) and not res['violations']:
        w = f'{rdir}/witness.txt'
        open(w, 'w').write('# default values\n')
        try:
            r = vf.sh([binary(t, work, True), t['entry'], w, '', t.get('cfg', '')], env=dict(os.environ, ASAN_OPTIONS='exitcode=11:detect_leaks=0'), timeout=120)
            m = re.search(r'REPLAY-ASSERT (.*)', r.stdout)
            if r.returncode == 0: res['validated'] = 1
            elif r.returncode == 10 and m: res['violations'].append(dict(kind='assert', what=m.group(1).strip(), replay=w, replay_note='the real code on the default values'))
            elif r.returncode in (-14, 14) and res['incomplete']: res['violations'].append(dict(kind='hang', what='execution ends', replay=w, replay_note='neither the symbolic nor the native execution ends'))
            elif (r.returncode in (11, 12) or r.returncode < 0) and res['incomplete']: res['violations'].append(dict(kind='crash', what='no crash', replay=w, replay_note=f'the real code on the default values: rc={r.returncode} {r.stdout.strip()[:200]}'))
            else: res['incomplete'].append(f'native witness run: rc={r.returncode} {r.stdout.strip()[:200]}')
        except subprocess.TimeoutExpired: res['incomplete'].append('native witness run: timeout')
    return res
