#!/usr/bin/env python3
"""Check runner: lowers /repo's current sources, runs the solver-based engines,
replays counterexamples against the native build and writes evidence."""
import sys, os, json, time, hashlib, subprocess, glob, shutil, fcntl, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
SCL = REPO + '/secure-computation-library'
LL = '/usr/lib/llvm-18/bin/'
INC = ['-I' + V + '/engine', '-I' + V + '/harness', '-I' + SCL + '/include', '-I' + REPO + '/src']
SYM = ['-std=gnu++17', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-maes', '-msse4.1',
       '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVERIF_SYM', '-include', 'cstdint', '-isystem', V + '/shim', '-w']
NAT = ['-std=gnu++17', '-O1', '-g1', '-maes', '-msse4.1', '-include', 'cstdint', '-w', '-fsanitize=address', '-fno-omit-frame-pointer']
FSF = ['-std=gnu++17', '-O1', '-maes', '-msse4.1', '-include', 'cstdint', '-w']
POOL = 8

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception): pass

def fhash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def repo_files():
    r = []
    for d in (REPO + '/src', SCL + '/include', SCL + '/src'):
        for root, _, fs in os.walk(d):
            if '/build' in root: continue
            r += [os.path.join(root, f) for f in fs if f.endswith(('.h', '.cc', '.hpp', '.cpp'))]
    return r
def infra():
    return glob.glob(V + '/engine/*.h') + glob.glob(V + '/harness/*.h') + glob.glob(V + '/shim/*') + glob.glob(V + '/rt/*') + glob.glob(V + '/fs/*')

def engine():
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-C', V + '/engine'])
        if r.returncode: raise BuildError('engine: ' + r.stdout[-2000:])

def cc(src, out, flags):
    r = sh(['clang++'] + flags + INC + ['-c', src, '-o', out])
    if r.returncode: raise BuildError(f'{src}: {r.stdout[:1500]}')

def scl_sources():
    return sorted(glob.glob(SCL + '/src/scl/**/*.cc', recursive=True))
def tp_sources():
    return sorted(glob.glob(REPO + '/src/tp/**/*.cc', recursive=True))

_REPOHASH = None
def cachedir(tag, extra=''):
    global _REPOHASH
    if _REPOHASH is None: _REPOHASH = fhash(repo_files() + infra())
    return B + '/cache/' + tag + '-' + hashlib.sha256((_REPOHASH + extra).encode()).hexdigest()[:20]

def build_set(tag, sources, flags, suffix):
    """compile every source with flags; cached on the content of /repo."""
    d = cachedir(tag, ' '.join(flags))
    os.makedirs(B + '/cache', exist_ok=True)
    with open(B + '/cache/.lock-' + tag, 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(d + '/ok'):
            os.makedirs(d, exist_ok=True)
            jobs = []
            with ThreadPoolExecutor(POOL) as ex:
                for s in sources:
                    jobs.append(ex.submit(cc, s, d + '/' + s.replace('/', '_') + suffix, flags))
            for j in jobs: j.result()
            open(d + '/ok', 'w').close()
    return sorted(glob.glob(d + '/*' + suffix))

def prune_cache():
    ds = sorted((d for d in glob.glob(B + '/cache/*') if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-60]: shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ IR tasks
def ir_module(t, work):
    libs = build_set('bctp' if t.get('tp') else 'bc', scl_sources() + (tp_sources() if t.get('tp') else []) + [V + '/rt/rt.cc', V + '/rt/rt_thread.cc', V + '/shim/stl_io.cc'],
                     SYM + t.get('cflags', []) + ['-emit-llvm'], '.bc')
    key = re.sub(r'\W', '_', t['harness'] + '_' + '_'.join(t.get('defs', []) + t.get('cflags', [])))
    out = f'{work}/{key}.bc'
    with open(out + '.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(out):
            cc(f'{V}/harness/{t["harness"]}', out + '.h.bc', SYM + t.get('cflags', []) + t.get('hflags', []) + t.get('defs', []) + ['-emit-llvm'])
            ov = []
            r = sh([LL + 'llvm-link'] + libs + ['--override=' + out + '.h.bc'] + ['-o', out + '.tmp'])
            if r.returncode: raise BuildError('link: ' + r.stdout[:1500])
            os.rename(out + '.tmp', out)
    return out

def native_bin(t, work):
    th = t.get('threads')
    nat = [x for x in NAT if not (th and 'sanitize' in x)]
    fl = nat + [x for x in t.get('cflags', []) if not x.startswith('-O')]
    libs = build_set('nat' + ('tp' if t.get('tp') else '') + ('th' if th else ''), scl_sources() + (tp_sources() if t.get('tp') else []), fl, '.o')
    key = re.sub(r'\W', '_', t['harness'] + '_' + '_'.join(t.get('defs', []) + t.get('cflags', [])))
    out = f'{work}/{key}.native'
    with open(out + '.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(out):
            cc(f'{V}/harness/{t["harness"]}', out + '.h.o', fl + t.get('hflags', []) + t.get('defs', []))
            extra = [V + '/engine/native.cc'] + ([V + '/engine/native_sched.cc', V + '/rt/rt_thread.cc'] if th else [])
            objs = []
            for i, x in enumerate(extra):
                objs.append(f'{out}.{i}.o')
                cc(x, objs[-1], nat + ['-Wno-everything'])
            r = sh(['clang++'] + fl + ['-rdynamic', out + '.h.o'] + objs + libs + ['-o', out + '.tmp', '-lpthread', '-ldl', '-Wl,--allow-multiple-definition'])
            if r.returncode: raise BuildError('native link: ' + r.stdout[:1500])
            os.rename(out + '.tmp', out)
    return out

def native_run(t, path, work):
    b = native_bin(t, work)
    env = dict(os.environ, ASAN_OPTIONS='exitcode=11:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2000:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='halt_on_error=1:exitcode=13', TSAN_OPTIONS='')
    try:
        r = sh([b, t['entry'], path], env=env, timeout=60)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return r.returncode, r.stdout

def replay_ir(t, viol, work):
    """True iff the counterexample reproduces on the native build."""
    if t.get('replay') == 'none': return True, 'not replayed'
    rc, out = native_run(t, viol['replay'], work)
    if rc == 124: return viol['kind'] in ('deadlock', 'hang'), 'timeout'
    k = viol['kind']
    ok = False
    if k == 'assert': ok = rc == 10 and ('REPLAY-ASSERT ' + viol['what']) in out
    elif k == 'memory': ok = rc == 11 or rc < 0
    elif k == 'exception': ok = rc == 12
    elif k in ('abort', 'terminate', 'unreachable', 'div', 'ub'): ok = rc in (11, 12, 13) or (rc < 0 and rc != -14)
    elif k in ('deadlock', 'hang'): ok = rc in (14, -14)
    # any sanitizer/crash evidence on the same input also counts for an assert
    if k == 'assert' and rc == 11: ok = True
    return ok, (f'rc={rc} ' + out.strip()[:300])

def run_ir(t, work, tier):
    res = dict(task=t['name'], engine='irsym', bound=t.get('bound', ''), violations=[], incomplete=[])
    m = ir_module(t, work)
    out = f'{work}/{t["name"]}.json'
    rdir = f'{work}/replay-{t["name"]}'
    os.makedirs(rdir, exist_ok=True)
    tm = t.get('time', 200) if tier == 'quick' else t.get('ttime', 800)
    args = [B + '/irsym', m, '--entry', t['entry'], '--out', out, '--replay-dir', rdir, '--time', str(tm), '--witnesses', '3'] + t.get('args', [])
    if tier == 'thorough': args += t.get('targs', [])
    try:
        r = sh(args, timeout=tm + 240)
    except subprocess.TimeoutExpired:
        res['incomplete'].append('engine timeout'); return res
    if not os.path.exists(out):
        res['incomplete'].append(f'engine failed rc={r.returncode}: {r.stdout[-300:]}'); return res
    j = json.load(open(out))
    for k in ('paths', 'assume_cut', 'steps', 'queries', 'assert_sites_checked', 'assert_solver', 'assert_folded', 'unknown', 'solver_s', 'max_query_s', 'wall_s', 'functions', 'reach', 'asserts', 'forks'):
        res[k] = j[k]
    res['incomplete'] += j['incomplete']
    for tag in t.get('reach', ['end']):
        if not j['reach'].get(tag) and not j['violations']:
            res['incomplete'].append(f'reachability witness "{tag}" not hit')
    for v in j['violations']:
        ok, note = replay_ir(t, v, work)
        if ok: res['violations'].append(dict(v, replay_note=note))
        elif v['kind'] != 'hang': res['incomplete'].append(f'counterexample did not reproduce natively ({v["kind"]}: {v["what"]}; {note})')
    # completed paths re-run against the native build: the solver's model of a path must behave as the encoding says
    if t.get('witness', True) and not j['violations']:
        res['validated'] = 0
        for w in sorted(glob.glob(rdir + '/*.w*.txt')):
            rc, o = native_run(t, w, work)
            if rc == 0: res['validated'] += 1
            elif rc != 20: res['incomplete'].append(f'native witness run {os.path.basename(w)}: rc={rc} {o.strip()[:200]}')
    return res

# ------------------------------------------------------------------ fieldsym tasks
def run_fs(t, work, tier):
    import fsrun
    return fsrun.run(t, work, tier)

def known():
    p = V + '/known-findings.jsonl'
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'): r.append(json.loads(l))
    return r

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[2:] 
    sys.path.insert(0, V + '/tools')
    import spec
    P = spec.PROPS[pid]
    t0 = time.time()
    work = f'{B}/run-{pid}-{os.getpid()}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rc = 0
    try:
        engine()
        tasks = [t for t in P['tasks'] if tier == 'thorough' or not t.get('thorough_only')]
        if only: tasks = [t for t in tasks if any(o in t['name'] for o in only)]
        # longest first
        tasks.sort(key=lambda t: -t.get('cost', 1))
        def one(t):
            try:
                return (run_ir if t['kind'] == 'ir' else run_fs)(t, work, tier)
            except BuildError as e:
                return dict(task=t['name'], error=str(e), violations=[], incomplete=['build failed'])
        # build shared parts once before fanning out
        with ThreadPoolExecutor(POOL) as ex: results = list(ex.map(one, tasks))
        errs = [r for r in results if r.get('error')]
        viol = [(r, v) for r in results for v in r['violations']]
        kn = [k for k in known() if k.get('property') == pid and k.get('status') == 'known']
        new, kf = [], []
        for r, v in viol:
            m = next((k for k in kn if k['task'] == r['task'] and k['what'] == v['what']), None)
            (kf if m else new).append((r, v, m))
        seen = set()
        for r, v, m in kf:
            if m['what'] in seen: continue
            seen.add(m['what'])
            print(f'KNOWN-FINDING: property={pid} {m["desc"]}')
        outdir = V + '/build/replay'
        os.makedirs(outdir, exist_ok=True)
        for r, v, _ in new:
            dst = f'{outdir}/{pid}-{r["task"]}-{os.path.basename(v["replay"])}'
            try: shutil.copy(v['replay'], dst)
            except OSError: dst = v['replay']
            print(f'VIOLATION property={pid} replay={dst}')
            print(f'  task {r["task"]}: {v["kind"]}: {v["what"]} ({v.get("replay_note", "")})'[:900])
            rc = 1
        for r in results:
            for i in r['incomplete']:
                print(f'INCONCLUSIVE {pid} {r["task"]}: {i}'[:600])
            if r.get('error'): print(f'BUILD-ERROR {pid} {r["task"]}: {r["error"]}'[:2500])
        if len(errs) == len(results) and not new: rc = 2
        fns = sorted({f for r in results for f in r.get('functions', [])})
        wall = time.time() - t0
        s = lambda k: sum(r.get(k, 0) for r in results)
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=P['level'],
                  coverage=dict(
                      explanation=P['explain'],
                      states=s('paths'), transitions=s('steps'),
                      traces_validated_against_impl=s('validated'),
                      queries=s('queries'), solver_seconds=round(s('solver_s'), 3),
                      assertions_decided=s('assert_sites_checked'), assertions_by_solver=s('assert_solver'),
                      assertions_folded_by_term_rewriting=s('assert_folded'), solver_unknown=s('unknown'),
                      tasks=[dict(task=r['task'], bound=r.get('bound', ''), paths=r.get('paths', 0), queries=r.get('queries', 0),
                                  solver_s=round(r.get('solver_s', 0), 3), wall_s=round(r.get('wall_s', 0), 2), reach=r.get('reach', {}),
                                  asserts=r.get('asserts', {}), incomplete=r['incomplete'], violations=len(r['violations']),
                                  extra=r.get('extra')) for r in results],
                      functions_encoded=fns[:400],
                      exhaustive=not any(r['incomplete'] for r in results),
                      samples=[dict(task=r['task'], bound=r.get('bound', ''), asserts=r.get('asserts', {})) for r in results[:3]]),
                  assumptions=P.get('assumptions', []), wall_s=round(wall, 2), violations=len(new))
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
        print(f'{pid} tier={tier} tasks={len(results)} paths={s("paths")} queries={s("queries")} solver={s("solver_s"):.1f}s wall={wall:.1f}s violations={len(new)} known={len(kf)} inconclusive={sum(len(r["incomplete"]) for r in results)}')
    finally:
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(work, ignore_errors=True)
        prune_cache()
    sys.exit(rc)
if __name__ == '__main__': main()
