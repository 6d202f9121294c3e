PROPS = {}
def fs(name, harness, entry, bound, **k):
    return dict(kind="fs", name=name, harness=harness, entry=entry, bound=bound, **k)
def ir(name, harness, entry, bound, **k):
    return dict(kind='ir', name=name, harness=harness, entry=entry, bound=bound, **k)
def prop(pid, tasks, explain, assumptions=(), level='model_checking'):
    names = [t['name'] for t in tasks]
    assert len(set(names)) == len(names), names
    PROPS[pid] = dict(tasks=tasks, explain=explain, assumptions=list(assumptions), level=level)

F61, F127 = ['-DBITS=61'], ['-DBITS=127']
def field(entries, **k):
    r = []
    for b, d in (('61', F61), ('127', F127)):
        for e, bound in entries:
            kk = dict(k)
            if 'mul' in e: kk.update(args=['--abs-mul', '128', '--assert-ms', '240000'], cost=100 if b == '127' else 5, time=400)
            r.append(ir(f'm{b}_{e}', 'field.cc', e, bound, defs=d, **kk))
    return r
ALL = 'all values of every operand at full width'
prop('C01', field([('h_add', ALL), ('h_sub', ALL), ('h_neg', ALL), ('h_alias', ALL), ('h_from_int', 'every 32-bit int'),
                   ('h_mul', ALL + '; 64x64->128 partial products abstract'), ('h_mul_alias', ALL + '; partial products abstract')])
     + [ir(f'm{b}_mulconst{k}', 'field.cc', 'h_mulconst', ALL + '; other operand one of 7 boundary constants, exact multiplication', defs=[f'-DBITS={b}', f'-DMULK={k}'], time=100, args=['--assert-ms', '40000'])
        for b in ('61', '127') for k in range(7)],
     'Symbolic execution of the compiled field operations of both Mersenne fields at full operand width; each result is compared by the SMT solver with the integer definition modulo p.')
NV = 'all values of all entries, lengths 0..6 and 17'
prop('C07', [fs('ops', 'fs_alg.cc', 'h_vec_ops', NV, cfg='0,1,2,3,6,17'),
             fs('equals', 'fs_alg.cc', 'h_vec_equals', 'all entries, length 4', cfg='4', reach=['equal', 'different']),
             fs('equals1', 'fs_alg.cc', 'h_vec_equals', 'all entries, length 1', cfg='1', reach=['equal', 'different']),
             fs('serial', 'fs_alg.cc', 'h_vec_serial', NV, cfg='0,1,2,3,6,17'),
             fs('random', 'fs_alg.cc', 'h_vec_random', 'lengths 1..5', cfg='1,2,5')],
     'Field-level symbolic execution of the vector code: all entries symbolic, results compared entrywise with the definition, equality and serialization on all values.')
SH = ['1,1', '1,3', '3,1', '2,2', '2,3', '3,2', '4,3']
prop('C08', [fs('ops' + s.replace(',', 'x'), 'fs_alg.cc', 'h_mat_ops', s, cfg=s) for s in SH]
     + [fs('mul' + s.replace(',', 'x'), 'fs_alg.cc', 'h_mat_mul', s, cfg=s) for s in ('1,1,1', '1,3,1', '3,1,2', '2,3,4', '3,3,3', '4,2,3')]
     + [fs('eq' + s.replace(',', 'x'), 'fs_alg.cc', 'h_mat_equals', s, cfg=s, reach=['equal', 'different']) for s in ('1,1', '2,3', '3,1')]
     + [fs('id' + s.replace(',', 'x'), 'fs_alg.cc', 'h_mat_isident', s, cfg=s, reach=['identity', 'other'] if s[0] == s[2] else ['other']) for s in ('1,1', '2,2', '3,3', '2,3')]
     + [fs('serial' + s.replace(',', 'x'), 'fs_alg.cc', 'h_mat_serial', s, cfg=s) for s in SH],
     'Field-level symbolic execution of the matrix code: every entry of every operand is a symbolic field element; results are compared entrywise with the textbook definition.')
prop('C10', [fs(f'create{n}', 'fs_alg.cc', 'h_poly_create', f'{n} coefficients', cfg=str(n), reach=['zero', 'nonzero'] if n else ['zero']) for n in (0, 1, 2, 4)]
     + [fs(f'addsub{n}_{m}', 'fs_alg.cc', 'h_poly_addsub', f'{n} and {m} coefficients', cfg=f'{n},{m}') for n, m in ((1, 1), (3, 3), (1, 4), (4, 2))]
     + [fs(f'mul{n}_{m}', 'fs_alg.cc', 'h_poly_mul', f'{n} and {m} coefficients', cfg=f'{n},{m}') for n, m in ((1, 1), (3, 3), (1, 4), (4, 2))]
     + [fs(f'div{n}_{m}', 'fs_alg.cc', 'h_poly_div', f'{n} and {m} coefficients, constant leading coefficient of the divisor', cfg=f'{n},{m},{k}') for n, m, k in ((1, 1, 2), (3, 2, 1), (4, 2, 3), (4, 3, 1), (2, 3, 5), (5, 1, 7), (6, 3, 2))]
     + [fs('seq_div', 'fs_alg.cc', 'h_poly_div_seq', 'divisions in one process by divisors of equal degrees', cfg='3,2,1/3,2,3'), fs('seq_addmul', 'fs_alg.cc', 'h_poly_mul_seq', 'products in one process', cfg='2,3/3,2/2,3')],
     'Field-level symbolic execution of polynomial construction, evaluation, arithmetic and division with symbolic coefficients and evaluation points; identities are decided as polynomial identities or by the solver on the branches taken.')
prop('C11', [fs('turns', 'fs_alg.cc', 'h_evpoly_turns', 'polynomials over 12 point sets evaluated in every order of two', cfg='')] + [fs(f'ev{n}_{k}', 'fs_alg.cc', 'h_evpoly', f'{n} points, pattern {k}', cfg=f'{n},{k}') for n in (1, 2, 3, 5, 8) for k in (0, 1, 2, 3)]
     + [fs(f'evzero{n}', 'fs_alg.cc', 'h_evpoly_zero', f'{n} points, all values', cfg=str(n), reach=['zero', 'nonzero']) for n in (1, 2, 4)]
     + [fs('seq' + x.replace(',', '_').replace('/', '-'), 'fs_alg.cc', 'h_evpoly_seq', 'points,pattern one after the other in one process: ' + x, cfg=x) for x in ('3,4/3,5/3,6', '4,4/4,7/4,4', '5,0/5,3/5,1/5,0', '3,0/4,0/3,2')],
     'Field-level symbolic execution of interpolation from symbolic values at concrete, distinct, unordered and non-contiguous points, including the point at which a value is held.')
PK = [(1, 1, 3), (1, 2, 5), (2, 2, 5), (2, 3, 5), (3, 3, 6), (3, 5, 7), (2, 6, 7), (1, 0, 2), (4, 3, 5)]
prop('C12', [fs(f'packed{k}_{d}_{n}', 'fs_ss.cc', 'h_packed', f'{k} secrets, degree {d}, {n} shares', cfg=f'{k},{d},{n}') for k, d, n in PK]
     + [fs(f'points{k}_{d}_{n}_{x}', 'fs_ss.cc', 'h_packed_points', f'{k} secrets, degree {d}, {n} shares, first point {x}', cfg=f'{k},{d},{n},{x}') for k, d, n, x in ((1, 2, 4, -1), (2, 3, 5, -4), (3, 3, 6, 0))]
     + [fs('seq' + x.replace(',', '_').replace('/', '-'), 'fs_ss.cc', 'h_packed_seq', 'secrets,degree,shares one after the other in one process: ' + x, cfg=x) for x in ('2,3,5/2,3,6/3,3,5/2,3,5', '1,2,5/2,2,5/1,2,5')]
     + [fs('seqpoints', 'fs_ss.cc', 'h_packed_points_seq', 'other points in one process', cfg='1,2,4,-1/1,2,4,-7/2,2,4,-1')]
     + [fs('refuse', 'fs_ss.cc', 'h_packed_refuse', '2..4 secrets, every smaller degree')],
     'Field-level symbolic execution of packed sharing with symbolic secrets and symbolic randomness; every subset of degree+1 shares reconstructs every secret.')
prop('C13', [fs(f'packed{k}_{d}_{n}', 'fs_ss.cc', 'h_packed_privacy', f'{k} secrets, degree {d}, {n} shares', cfg=f'{k},{d},{n}') for k, d, n in PK]
     + [fs(f'single{d}_{n}', 'fs_ss.cc', 'h_single_privacy', f'degree {d}, {n} shares', cfg=f'{d},{n}') for d, n in ((1, 3), (2, 5), (3, 6))]
     + [fs(f'shamir{n}_{t}', 'fs_ss.cc', 'h_shamir_privacy', f'threshold {t}, {n} shares', cfg=f'{n},{t}') for n, t in ((3, 1), (5, 2), (7, 3), (5, 4))]
     + [fs('shamir13_12', 'fs_ss.cc', 'h_shamir_privacy', 'threshold 12, 13 shares', cfg='13,12'), fs('packed3_14_16', 'fs_ss.cc', 'h_single_privacy', 'threshold 12, 13 shares', cfg='12,13'), fs('seq', 'fs_ss.cc', 'h_packed_privacy_seq', 'secrets,degree,shares one after the other in one process', cfg='2,3,5/2,3,6/3,4,5/2,3,5')],
     'The shares of each maximal unqualified set, as functions of symbolic secrets and symbolic uniform randomness, are reduced to a distribution that does not mention the secrets.')
prop('C14', [fs(f'shamir{n}_{t}', 'fs_ss.cc', 'h_shamir', f'threshold {t}, {n} shares', cfg=f'{n},{t}') for n, t in ((3, 1), (4, 1), (5, 2), (7, 3), (4, 3))]
     + [fs('seq', 'fs_ss.cc', 'h_shamir_seq', 'shares,threshold one after the other in one process', cfg='4,1/5,2/3,1')]
     + [fs(f'detectx{t}_{m}', 'fs_ss.cc', 'h_shamir_detect', f'threshold {t}, unordered points, wrong shares mask {m:b}', cfg=f'{t},{m},1', reach=['accepted', 'detected']) for t in (1, 2, 3, 4) for m in {1, 1 << t, 1 << (2 * t), (1 << t) | (1 if t > 1 else 0)}]
     + [fs(f'detect{t}_{m}', 'fs_ss.cc', 'h_shamir_detect', f'threshold {t}, wrong shares mask {m:b}', cfg=f'{t},{m}', reach=['accepted', 'detected'] if m else ['accepted']) for t in (1, 2, 3) for m in range(1 << (2*t+1)) if bin(m).count('1') <= t],
     'Field-level symbolic execution of threshold sharing with symbolic secrets, randomness and error values; passive reconstruction from every qualified set and detection for every placement of up to t wrong shares.')
prop('C16', [fs('additive', 'fs_ss.cc', 'h_additive', '1..40 shares', cfg='1,2,3,5,9,16,17,40'), fs('privacy', 'fs_ss.cc', 'h_additive_privacy', '2..18', cfg='1,2,3,6,9,12,18')],
     'Field-level symbolic execution of additive sharing with symbolic secret and randomness.')

EV = 'every value of every entry of'
def la(e, shapes, reach, **k):
    return [fs(f'{e[2:]}{x.replace(",", "x")}', 'fs_la.cc', e, f'{EV} {x.replace(",", "x")} systems over the 61-bit field', cfg=x, reach=reach, **kk) for x, kk in ((y, k) if isinstance(y, str) else (y[0], dict(k, **y[1])) for y in shapes)]
def c(n): return dict(cost=n)
def deep(n): return dict(cost=n, thorough_only=True, ttime=850)
prop('C09', la('h_reduce', ['1,1', '1,2', '1,3', '2,1', '2,2', ('2,3', c(4)), ('2,4', c(5)), ('3,2', c(6)), ('3,3', c(47)), ('4,2', c(21)), ('3,4', deep(156))], ['reduced'])
     + la('h_solve', ['1,1', '2,1', '2,2', ('3,2', c(13)), ('3,3', deep(90)), ('4,2', deep(140))], ['refused', 'solved']) + la('h_solve', ['1,2', '1,3', '2,3'], ['refused'])
     + la('h_has', ['1,1', '1,2', '2,1', '2,2', ('2,3', c(3)), ('3,2', c(20)), ('3,3', deep(106))], ['consistent', 'inconsistent'])
     + la('h_extract', ['1,1', '2,1', '2,2', ('3,2', c(7)), ('3,3', c(28))], ['extracted'])
     + la('h_extract_free', ['2,2', '2,3', '3,2', ('3,3', c(28))], ['extracted'])
     + [fs(f'inverse{n}', 'fs_la.cc', 'h_inverse', f'{EV} {n}x{n} matrices over the 61-bit field', cfg=str(n), reach=['inverted', 'singular'], cost=w) for n, w in ((1, 1), (2, 1), (3, 12))]
     + [fs('malformed', 'fs_la.cc', 'h_malformed', 'systems of mismatched sizes', reach=[])],
     'Field-level symbolic execution of row reduction, solving and inversion over matrices of symbolic field elements. Every pivot pattern is a path; results of divisions are rational functions, and the claims are decided as identities on the variety of the path or by the solver.')
prop('C15', [fs(f'any1_{k}', 'fs_ss.cc', 'h_robust_any', f'every value of 4 shares, threshold 1, at points pattern {k}', cfg=f'1,{k}', reach=['refused', 'returned', 'end'], cost=12) for k in (0, 1, 2)]
     + [fs(f'one{k}_{p}', 'fs_ss.cc', 'h_robust', f'threshold 1, all secrets, randomness and error values, points pattern {k}, placement {p}', cfg=f'1,{k},0,{p}', reach=['placement']) for k in (0, 1) for p in range(4)]
     + [fs(f'two{k}_{p}', 'fs_ss.cc', 'h_robust', f'threshold 2, all pairs of error values on the zero sharing, points pattern {k}, placement {p}', cfg=f'2,{k},0,{p},2', reach=['placement']) for k in (0, 1, 2) for p in range(21)]
     + [fs(f'twosecret{p}', 'fs_ss.cc', 'h_robust', f'threshold 2, all constant polynomials and all pairs of error values, placement {p}', cfg=f'2,0,0,{p},4', reach=['placement'], **(c(44) if p in (0, 9, 20) else deep(44))) for p in range(21)]
     + [fs('three', 'fs_ss.cc', 'h_robust', 'threshold 3, all triples of error values on the zero sharing, placement 0', cfg='3,0,0,0,2', reach=['placement'], **deep(45))]
     + [fs('sizes', 'fs_ss.cc', 'h_robust_sizes', 'too few or too many shares, thresholds 1 and 2', cfg='1,2')],
     'Field-level symbolic execution of Berlekamp-Welch decoding, its linear system included, over symbolic shares or symbolic secrets and errors; branches on values are paths, and results are compared with the shared polynomial and with all shares.')
BY = 'every byte pattern'
prop('C03', field([('h_layout', 'constants'), ('h_roundtrip', ALL), ('h_read_any', BY + ' of a serialized element')]),
     'Symbolic execution of element reading and writing over every byte pattern: the decoded element is the little endian integer modulo p and is written back canonically.')
def inv(b, e, bits, **k):
    return ir(f'm{b}_{e}{bits}', 'field.cc', e, f'the {2**bits - 1} {"smallest" if e.endswith("low") else "largest"} nonzero elements', defs=[f'-DBITS={b}', f'-DINVBITS={bits}'], **k)
prop('C02', [ir(f'm{b}_h_inv_zero', 'field.cc', 'h_inv_zero', 'zero', defs=[f'-DBITS={b}']) for b in ('61', '127')]
     + [ir(f'm{b}_h_div{d}', 'field.cc', 'h_div', 'every dividend, one of 8 divisors; partial products abstract', defs=[f'-DBITS={b}', f'-DDIV={d}'], args=['--abs-mul', '128'], cost=5) for b in ('61', '127') for d in range(8) if b == '61' or d in (0, 1, 6)]
     + [inv('61', e, 4, cost=20) for e in ('h_inv_low', 'h_inv_high')] + [inv('127', e, 2, cost=20) for e in ('h_inv_low', 'h_inv_high')]
     + [inv('61', e, 6, thorough_only=True, ttime=600) for e in ('h_inv_low', 'h_inv_high')] + [inv('127', e, 3, thorough_only=True, ttime=600) for e in ('h_inv_low', 'h_inv_high')]
     + [ir(f'small{m}', 'inv_small.cc', 'h_inv_all', f'every element modulo {m}', defs=[f'-DPRIME={m}', f'-DPB={b}'], cost=15, **k) for m, b, k in ((31, 5, {}), (61, 6, {}), (127, 7, dict(thorough_only=True, ttime=800)))],
     'Symbolic execution of the inversion loop; the product with the original element is asserted to be one.')
KS = (1, 5, 8, 13, 32, 62, 64, 100, 128)
def z2k(es, **k):
    return [ir(f'z{K}_{e}', 'z2k.cc', e, ALL, defs=[f'-DKBITS={K}'], **k) for K in KS for e in es]
prop('C05', z2k(['h_layout', 'h_ring', 'h_mul', 'h_inv_even'])
     + [ir(f'z{K}_{e}', 'z2k.cc', e, ALL, defs=[f'-DKBITS={K}'], cost=30) for K in (1, 5, 8, 13) for e in ('h_inv', 'h_div')]
     + [ir(f'z{K}_h_inv_p{q}', 'z2k.cc', 'h_inv', f'odd values with 6 arbitrary bits at position {q}', defs=[f'-DKBITS={K}', '-DINVBITS=6', f'-DINVPOS={q}'], cost=30)
        for K in (32, 62, 64, 128) for q in (0, 5, 20, 30, 56) if q + 6 <= K]
     + [ir(f'w{K}_h_inv', 'z2k.cc', 'h_inv', 'odd values with 5 arbitrary low bits', defs=[f'-DKBITS={K}', '-DINVBITS=5', '-DINVPOS=0'], cost=6)
        for K in (6, 7, 10, 11, 12, 20, 21, 22, 23, 24, 40, 41, 43, 46, 47, 48, 80, 81, 86, 93, 94, 95, 96, 127)]
     + [ir(f'z{K}_h_inv', 'z2k.cc', 'h_inv', ALL, defs=[f'-DKBITS={K}'], cost=6) for K in (2, 3, 4, 6, 7)],
     'Symbolic execution of the ring operations for several K at full width; every result is compared with the integer operation modulo 2^K, equality and inversion included.')
prop('C06', z2k(['h_serial', 'h_serial_nonnorm', 'h_serial_adjacent', 'h_random']),
     'Symbolic execution of reading, writing and random generation of ring elements: exactly ByteSize bytes are touched and the value modulo 2^K is preserved.')
TY = {0: 'FF61', 1: 'FF127', 2: 'Z32', 3: 'Z64', 4: 'Z100'}
AR = ['accepted', 'rejected']
prop('C04', [ir(f'{TY[t]}_{e}', 'str.cc', e, f'every string of up to {L} bytes', defs=[f'-DTYPE={t}', f'-DLEN={L}'], reach=['end'] if 'default' in e else AR, cost=10)
             for t in TY for e, L in (('h_bin', 4), ('h_dec', 3), ('h_hex', 4), ('h_b64', 4), ('h_default_base', 3))]
     + [ir(f'{TY[t]}_{e}_long', 'str.cc', e, 'every continuation by up to 2 (base64 4) bytes of a long valid prefix', defs=[f'-DTYPE={t}', f'-DLEN={L}', '-DPREFIX=1'], reach=AR, cost=20)
        for t in TY for e, L in (('h_bin', 2), ('h_hex', 2), ('h_b64', 4), ('h_dec', 2))],
     'Symbolic execution of number parsing over every byte string up to a length (and every continuation of a long number): accepted exactly when well formed in the base, with the value reduced.')
def shp(e, bd, reach=('end',), d=(), **k):
    return ir('shape_' + e[2:] + ''.join(x.replace('-D', '_').replace('=', '') for x in d), 'shape.cc', e, bd, reach=list(reach), defs=list(d), tp=True, **k)
RA = ('refused', 'accepted')
prop('C34', [shp('h_threshold', 'n <= 9, every threshold and batch size below 2^32', RA), shp('h_dn_threshold', 'n <= 9, every threshold below 2^32', RA),
             shp('h_config_lists', 'lists of up to 3 entries', RA),
             fs('refuse_dn', 'fs_dn07.cc', 'h_refuse', 'n < 12, t < 8', cfg=''), fs('config', 'fs_tp.cc', 'h_config_refuse', 'small configurations', cfg='')]
     + [shp('h_config', 'width, depth, counts up to 6', RA, d=(f'-DBATCH={b}',)) for b in (1, 2, 3)],
     'Symbolic execution of the parameter checks over symbolic sizes: accepted exactly when the documented relation holds.')
prop('C26', [shp('h_layers', 'up to 9 gates, batches of up to 4', ('gate', 'padding')), shp('h_batch_refuse', 'batches of up to 4', ('full', 'other', 'same')),
             shp('h_build', 'every sequence of 3 construction steps', d=('-DSTEPS=3',), cost=10), shp('h_set_inputs', 'up to 3 inputs per party, up to 4 given', RA), shp('h_clear_inputs', 'symbolic sizes', RA)]
     + [fs('batches', 'fs_tp.cc', 'h_batches', 'batches of 1..4', cfg='')]
     + [fs(f'shape_many{a}_{n}_{k}', 'fs_tp.cc', 'h_shape_many', f'assorted circuits {a}..{b - 1}, {n} parties, batch {k}', cfg=f'{a},{b},{n},{k}') for a, b, n, k in ((1000, 1030, 4, 2), (1000, 1030, 6, 3), (1000, 1030, 3, 1), (1000, 1030, 10, 5))]
     + [fs(f'shape{c}_{n}_{k}', 'fs_tp.cc', 'h_shape', f'circuit {c}, {n} parties, batch {k}', cfg=f'{c},{n},{k}') for c in range(1, 7) for n, k in ((4, 2), (6, 3), (3, 1))],
     'Symbolic execution of circuit construction over symbolic numbers of gates, owners and batch sizes: every gate keeps its place, every closed batch is full, padding contributes zero, and metrics describe the circuit.')
CI = range(1, 7)
RND = ((1000, 1012, 4, 2), (1012, 1024, 5, 2), (1024, 1034, 6, 3), (1034, 1042, 8, 3), (1042, 1048, 10, 4))
RND_T = tuple((a, a + 25, n, k) for i, (n, k) in enumerate(((4, 2), (5, 2), (6, 3), (7, 3), (8, 3), (9, 4), (10, 4), (9, 3), (11, 5))) for a in range(2000 + 100 * i, 2100 + 100 * i, 25))
PAIRS = ((200, 281, 4, 2), (200, 281, 5, 2))
def many(e, sets, extra, deep=RND_T, tt=700, **k):
    def one(x, **kk):
        a, b, n, kk_ = x
        what = 'all 81 pairs of products of three wires' if a == 200 else f'assorted circuits {a}..{b - 1}'
        return fs(f'{e[2:]}_many{a}_{n}_{kk_}' + ''.join(f'_{v}' for v in extra), 'fs_tp.cc', e + '_many', f'{what}, {n} parties, batch {kk_}, order {",".join(map(str, extra))}; all inputs and randomness', cfg=','.join(map(str, (a, b, n, kk_) + tuple(extra))), **kk)
    return [one(x, **k) for x in sets] + [one(x, thorough_only=True, ttime=tt, cost=50) for x in deep]
prop('C27', many('h_clear', RND + PAIRS, (0,))
     + [fs(f'clear{c}_{n}_{k}', 'fs_tp.cc', 'h_clear', f'circuit {c}, {n} parties, batch {k}, all inputs', cfg=f'{c},{n},{k},0') for c in CI for n, k in ((4, 2), (5, 2), (6, 3))]
     + [fs('config' + x.replace(',', '_'), 'fs_tp.cc', 'h_clear_config', f'configuration {x}, all inputs', cfg=x) for x in ('2,1,2,4,1,1,1,1', '4,3,2,5,2,2,2,1', '6,2,3,4,1,1,3,2', '8,2,3,5,4,0,0,3')]
     + [fs('gates', 'fs_tp.cc', 'h_gates', 'every gate kind, all values', cfg='')],
     'Field-level symbolic execution of cleartext evaluation: outputs are compared with an independent evaluator as polynomial identities in the inputs.')
NK = ((4, 2), (5, 2), (6, 3), (7, 3))
def tpc(e, cs, nks, revs=(0, 1), **k):
    return [fs(f'{e[2:]}{c}_{n}_{kk}_{r}', 'fs_tp.cc', e, f'circuit {c}, {n} parties, batch {kk}, delivery order {r}; all inputs and randomness', cfg=f'{c},{n},{kk},{r}', **k) for c in cs for n, kk in nks for r in revs]
prop('C28', many('h_online_fd', RND + PAIRS, (0,)) + many('h_online_lambdas', RND, (1,)) + tpc('h_online_const', CI, ((4, 2), (6, 3)), (0,)) + tpc('h_online_lambdas', CI, ((4, 2), (6, 3)), (0, 1)) + tpc('h_online_fd', CI, NK, (0,)),
     'All parties\' online code is executed over symbolic inputs and symbolic masks; the outputs are compared with the circuit as polynomial identities.')
prop('C29', many('h_fi_prep', RND[:3], (0,), cost=15) + tpc('h_fi_prep', CI, NK, (0, 1)), 'All parties\' preprocessing code is executed over symbolic randomness; degrees, slot values, products and freshness of the correlations are decided as polynomial identities.')
prop('C30', many('h_full', RND + PAIRS, (0,)) + many('h_full', RND[:3], (1,), deep=()) + tpc('h_full', CI, NK + ((10, 4),), (0, 1)) + tpc('h_concurrent', (1, 4, 6), ((4, 2), (6, 3)), (0, 1, 2)),
     'All phases of all parties are executed over symbolic inputs and randomness; the outputs equal the circuit on the inputs as polynomial identities.')
prop('C36', many('h_concurrent', RND + PAIRS[:1], (2,)) + many('h_concurrent_layers', RND[:3], (1,)) + tpc('h_concurrent', CI, ((4, 2), (5, 2), (6, 3)), (0, 1, 2)) + tpc('h_concurrent_layers', CI, ((4, 2), (7, 3)), (0, 1, 2)),
     'Every party runs its whole protocol as one sequential program with blocking receives under three adversarial schedules; no run deadlocks, and no message is left over.')
PRIV = ['1,4,2,0,0', '1,4,2,0,1', '1,4,2,0,2', '1,4,2,0,3', '2,4,2,0,0', '2,4,2,1,1', '4,4,2,0,0', '4,4,2,0,2', '5,4,2,0,0', '5,4,2,0,3', '6,4,2,0,1', '6,4,2,0,0', '3,4,2,0,1', '3,4,2,0,2',
        '1,5,2,0,0,1', '1,5,2,0,2,4', '5,5,2,0,1,2', '5,5,2,0,3,4', '6,5,2,0,0,4', '6,6,3,0,0', '2,6,3,0,5', '5,7,3,0,3,5']
prop('C31', many('h_private', ((1000, 1008, 4, 2),), (0, 0), deep=(), cost=15) + many('h_private', ((1000, 1008, 4, 2), (1012, 1018, 5, 2)), (0, 1), deep=(), cost=15)
     + many('h_private', ((200, 281, 4, 2),), (0, 0), deep=(), cost=30) + many('h_private', ((1024, 1030, 6, 3),), (0, 5), deep=tuple((a, a + 8, 4, 2) for a in range(3000, 3064, 8)), cost=15) + many('h_private', ((1012, 1014, 5, 2), (1022, 1024, 5, 2)), (0, 0), deep=(), cost=15) + [fs('priv_' + x.replace(',', '_'), 'fs_tp.cc', 'h_private', f'circuit,parties,batch,order,corrupted = {x}; all inputs', cfg=x, cost=10) for x in PRIV],
     'The joint view of the corrupted parties, as functions of symbolic inputs and honest randomness, is reduced to a distribution that mentions honest inputs only through the corrupted parties\' outputs.',
     ['the randomness of each party is uniform and independent (the tree seeds every generator with zero by default; that is a deployment matter)', 'honest-but-curious corruption', 'comparisons of random values take the outcome that holds except with probability below 2^-60'])
DN = ('1,3,1', '2,5,2', '3,3,1', '5,7,3', '1,4,1', '2,5,1', '5,7,2', '1,3,0', '4,5,2', '6,3,1', '4,3,1', '6,5,2')
prop('C32', [fs(f'{e[2:]}_' + x.replace(',', '_') + f'_{r}', 'fs_dn07.cc', e, f'circuit,parties,threshold = {x}, delivery order {r}; all inputs and randomness', cfg=f'{x},{r}') for x in DN for e in ('h_dummy', 'h_full') for r in (0, 1)],
     'All parties\' code of the baseline protocol is executed over symbolic inputs and randomness; the outputs equal the circuit on the inputs as polynomial identities.')
DNP = ['1,3,1,0,0', '1,3,1,0,1', '1,3,1,0,2', '2,5,2,0,0,2', '2,5,2,0,3,4', '5,5,2,0,0,4', '3,5,2,0,1,2', '6,5,2,0,0,1', '2,5,1,0,0', '2,5,1,0,3', '2,5,1,0,4', '1,4,1,0,3']
prop('C33', [fs('priv_' + x.replace(',', '_'), 'fs_dn07.cc', 'h_private', f'circuit,parties,threshold,order,corrupted = {x}; all inputs', cfg=x, cost=10) for x in DNP],
     'The joint view of the corrupted parties is reduced to a distribution that mentions honest inputs only through the corrupted parties\' outputs.',
     ['the randomness of each party is uniform and independent', 'honest-but-curious corruption'])

def hsh(b, e, bound, *d, **k):
    return ir(f'sha{b}_{e[2:]}' + ''.join(x.replace('-D', '_').replace('=', '') for x in d), 'hash.cc', e, bound, defs=[f'-DDBITS={b}'] + list(d), **k)
prop('C18', [hsh(256, 'h_permutation', 'every state of 25 lanes')]
     + [hsh(b, 'h_fixed', 'nine concrete messages of up to 299 bytes') for b in (256, 384, 512)]
     + [hsh(256, 'h_split', f'every message of {l} bytes in every split over three updates', f'-DLEN={l}', cost=5) for l in (0, 1, 2, 4, 7, 8, 9)]
     + [hsh(256, 'h_split', f'every message of {l} bytes in every split over three updates', f'-DLEN={l}', cost=30, thorough_only=True, ttime=800) for l in (12, 17)]
     + [hsh(b, 'h_split', f'every message of {l} bytes in every split over three updates', f'-DLEN={l}', cost=5) for b, l in ((384, 5), (512, 5))]
     + [hsh(b, 'h_bytes', f'every message of {l} bytes, one update per byte', f'-DLEN={l}', cost=4) for b in (256, 384, 512) for r in (200 - b // 4,) for l in (r - 8, r - 1, r, r + 1, 2 * r + 1)]
     + [hsh(b, 'h_split', f'every message of {l} bytes, three updates split near the block boundary', f'-DLEN={l}', '-DNEAR', cost=60, thorough_only=True, ttime=800) for b in (256, 384, 512) for l in (208 - b // 4,)]
     + [hsh(b, 'h_edge', f'every message of {l} bytes, two updates split within nine bytes of the block boundary', f'-DLEN={l}', cost=20) for b in (256, 384, 512) for l in (203 - b // 4,)],
     'Symbolic execution of the sponge on symbolic messages: the permutation equals that of the standard on every state, and the digest equals the standard padding and absorption of the concatenated bytes for every split.')

def each(h, es, bound, *d, **k):
    return [ir(e[2:] + ''.join(x.replace('-D', '_').replace('=', '') for x in d), h, e, bound, defs=list(d), **k) for e in es]
SB = 'every seed, every sequence of'
prop('C17', sum([each('prg.cc', ['h_stream'], f'{SB} 2 requests of up to 18 bytes, interface order {h}', '-DNREQ=2', '-DMAXN=18', f'-DHOW={h}', cost=10) for h in range(4)], [])
     + each('prg.cc', ['h_stream'], f'{SB} 3 requests of 15..17, 31..33 or 0, 1 bytes', '-DNREQ=3', '-DMAXN=7', '-DEDGES', cost=15)
     + each('prg.cc', ['h_stream'], f'{SB} 2 requests of up to 34 bytes', '-DNREQ=2', '-DMAXN=34', cost=50, thorough_only=True, ttime=800)
     + each('prg.cc', ['h_stream'], f'{SB} 4 requests of 15..17, 31..33 or 0, 1 bytes', '-DNREQ=4', '-DMAXN=7', '-DEDGES', cost=90, thorough_only=True, ttime=850)
     + each('prg.cc', ['h_long'], 'every seed, requests of 1000, 16, 4096 and 33 bytes') + each('prg.cc', ['h_known'], 'six concrete seeds, three blocks each')
     + each('prg.cc', ['h_refuse'], 'destinations of up to 4, requests of up to 6 bytes', reach=['refused', 'accepted'])
     + each('prg_step.cc', ['h_step'], 'every seed, every counter value below 2^62, one request of up to 70 bytes', cost=5),
     'Symbolic execution of the generator: the bytes of every request equal the counter mode stream of the seed at the right block, for symbolic seeds and request sizes; one request is checked from an arbitrary counter value.',
     ['single AES instructions are uninterpreted functions on symbolic data and exact on concrete data'])
EL = {0: 'FF61', 1: 'FF127', 2: 'Z32', 3: 'Z13', 4: 'Z100'}
prop('C19', sum([each('chan.cc', ['h_plain', 'h_vec', 'h_mat'], f'all values of type {n}; vectors of up to 3, matrices of up to 3x3', f'-DELT={e}') + each('chan.cc', ['h_vec_big', 'h_mat_big'], f'every pair of announced sizes beyond the limit; {n}', f'-DELT={e}')
                 + each('chan.cc', ['h_vec_room', 'h_mat_room'], f'every announced size (pair of sizes) within the limit with at least 16 elements; {n}', f'-DELT={e}', '-DWATCH')
                 + each('chan.cc', ['h_hostile'], f'announced sizes of up to 3 (3x3), every content, cut short anywhere; {n}', f'-DELT={e}', reach=['accepted', 'short']) for e, n in EL.items()], []),
     'Symbolic execution of the typed send and receive templates over a recording channel and over a hostile channel with symbolic sizes and contents.')
TH = 'every interleaving at lock, wait, notify and system call boundaries'
prop('C20', each('memch.cc', ['h_history'], 'every sequence of 3 sends or receives of up to 2 (3) bytes at either end, all contents', '-DSTEPS=3', '-DMAXN=2', cost=10)
     + each('memch.cc', ['h_history'], 'every sequence of 4 sends or receives of up to 2 (3) bytes at either end, all contents', '-DSTEPS=4', '-DMAXN=2', cost=50, thorough_only=True, ttime=800)
     + each('memch.cc', ['h_splits'], 'every split of 4 bytes into sends and into receives', '-DMAXN=4', cost=10)
     + each('memch.cc', ['h_splits'], 'every split of 6 bytes into sends and into receives', '-DMAXN=6', cost=50, thorough_only=True, ttime=800)
     + each('memch.cc', ['h_self'], 'every sequence of 4 operations', cost=5) + each('memch.cc', ['h_flush', 'h_flush_self'], 'two rounds of up to 3 sends, a receive and possibly a flush; all contents') + each('memch.cc', ['h_close'], 'all contents')
     + each('memch.cc', ['h_threads'], TH + ', two threads, every split', threads=True, cost=5),
     'Symbolic execution of in-memory channel pairs over symbolic contents, sizes and histories; with two threads, every schedule is a branch of the exploration.',
     ['unsynchronised accesses are not interleaved (threads switch at synchronisation operations)'])
prop('C21', each('tcp.cc', ['h_send'], '5 bytes, every sequence of partial writes and failures', reach=['sent', 'failed']) + each('tcp.cc', ['h_recv'], '5 bytes, every sequence of partial reads, end of file and failures', reach=['received', 'failed'])
     + each('tcp.cc', ['h_huge'], 'every transfer size below 2^63 in up to 3 steps', reach=['sent', 'received', 'failed']) + each('tcp.cc', ['h_close'], 'open and closed connections')
     + each('tcp.cc', ['h_send'], '8 bytes, every sequence of partial writes and failures', '-DLEN=8', reach=['sent', 'failed'], thorough_only=True, ttime=800) + each('tcp.cc', ['h_recv'], '8 bytes, every sequence of partial reads, end of file and failures', '-DLEN=8', reach=['received', 'failed'], thorough_only=True, ttime=800),
     'Symbolic execution of the channel and the system call wrappers over a socket model whose every call may transfer any part or fail.')
prop('C22', each('queue.cc', ['h_seq'], 'all operations', threads=True) + sum([each('queue.cc', ['h_threads'], f'{p} producers of {n}, {c} consumers; {TH}', f'-DNP={p}', f'-DNC={c}', f'-DPER={n}', threads=True, cost=w, **k)
                 for p, c, n, w, k in ((1, 1, 2, 1, {}), (1, 2, 2, 1, {}), (2, 1, 1, 1, {}), (2, 2, 1, 20, {}), (1, 1, 4, 2, {}), (2, 1, 2, 60, dict(thorough_only=True, ttime=800)))], [])
     + each('sender.cc', ['h_close', 'h_read', 'h_nowait', 'h_destroy', 'h_broken'], '2 messages of symbolic content; ' + TH, threads=True)
     + each('sender.cc', ['h_close', 'h_read', 'h_nowait', 'h_destroy', 'h_broken'], '4 messages of symbolic content; ' + TH, '-DNM=4', threads=True, thorough_only=True, ttime=800),
     'Symbolic execution with threads: the scheduler choice at every synchronisation operation is a branch, so every interleaving within the bound is explored, with deadlock detection.',
     ['unsynchronised accesses are not interleaved (threads switch at synchronisation operations)', 'sequentially consistent memory'])
RA2 = ['accepted', 'rejected']
DL = 'every schedule within {} delays (threads take turns by default)'
prop('C23', each('net.cc', ['h_full', 'h_mock', 'h_close'], 'networks of 1..4 parties, every pair, all contents', '-DN=4')
     + each('net.cc', ['h_tcp'], '2 parties over sockets, every schedule with at most 1 preemption, all contents', '-DSOCKETS', '-DN=2', threads=True, args=['--max-preempt', '1'])
     + each('net.cc', ['h_tcp'], '3 parties over sockets, every order of the configuration, ' + DL.format(2) + ', all contents', '-DSOCKETS', '-DN=3', threads=True, args=['--max-delay', '2'], cost=5)
     + each('net.cc', ['h_tcp'], '2 parties over sockets with sender threads, every schedule without preemption, all contents', '-DSOCKETS', '-DTHREADED', '-DN=2', threads=True, args=['--max-preempt', '0'])
     + each('net.cc', ['h_tcp'], '3 parties over sockets with sender threads, ' + DL.format(1) + ', all contents', '-DSOCKETS', '-DTHREADED', '-DN=3', threads=True, args=['--max-delay', '1'])
     + each('net.cc', ['h_tcp'], '4 parties over sockets, ' + DL.format(1) + ', all contents', '-DSOCKETS', '-DN=4', threads=True, args=['--max-delay', '1'])
     + each('net.cc', ['h_hostile'], 'two connections that announce every pair of 32 bit identifiers, ' + DL.format(2), '-DSOCKETS', '-DN=3', threads=True, args=['--max-delay', '2'], reach=['accepted', 'rejected'])
     + each('net.cc', ['h_hostile'], 'two connections that announce every pair of 32 bit identifiers, sender threads, ' + DL.format(2), '-DSOCKETS', '-DTHREADED', '-DN=3', threads=True, args=['--max-delay', '2'], reach=['accepted', 'rejected'])
     + [ir('deep_tcp3', 'net.cc', 'h_tcp', '3 parties over sockets, ' + DL.format(3), defs=['-DSOCKETS', '-DN=3'], threads=True, args=['--max-delay', '3'], thorough_only=True, ttime=800, cost=60),
        ir('deep_tcp2', 'net.cc', 'h_tcp', '2 parties over sockets, every schedule with at most 3 preemptions', defs=['-DSOCKETS', '-DN=2'], threads=True, args=['--max-preempt', '3'], thorough_only=True, ttime=800, cost=30),
        ir('deep_tcp3t', 'net.cc', 'h_tcp', '3 parties over sockets with sender threads, ' + DL.format(2), defs=['-DSOCKETS', '-DTHREADED', '-DN=3'], threads=True, args=['--max-delay', '2'], thorough_only=True, ttime=800, cost=60)],
     'Symbolic execution of network construction and of parties exchanging symbolic bytes; over sockets the parties are threads over a model of the socket interface and the schedule is part of what is explored.',
     ['sockets are reliable byte streams (harness/netmodel.h)', 'threads switch at synchronisation operations and socket calls'])
prop('C24', each('conf.cc', ['h_validate', 'h_localhost'], 'up to 4 parties, every 32 bit identifier and own identifier', '-DN=4', reach=RA2, cost=5)
     + each('conf.cc', ['h_default'], 'default configurations') + each('conf.cc', ['h_missing'], 'a missing file')
     + each('conf.cc', ['h_tostring'], '1..3 parties, ports below 2^7', '-DPORTBITS=7', cost=20) + each('conf.cc', ['h_tostring'], '1..2 parties, ports below 2^14', '-DPORTBITS=14', '-DN=2', cost=10)
     + each('conf.cc', ['h_load_lines'], 'files of up to 3 well formed lines, every digit', reach=RA2, cost=10)
     + each('conf.cc', ['h_load'], 'every file content of up to 4 bytes', '-DLEN=4', cost=20, reach=['accepted', 'inconsistent', 'malformed']) + each('conf.cc', ['h_load'], 'a well formed line followed by up to 4 arbitrary bytes', '-DLEN=4', '-DPREFIX', cost=20, reach=['accepted', 'inconsistent', 'malformed'])
     + each('conf.cc', ['h_load'], 'every file content of up to 5 bytes', '-DLEN=5', cost=60, thorough_only=True, ttime=850, reach=['accepted', 'inconsistent', 'malformed'])
     + each('conf.cc', ['h_load'], 'a well formed line followed by up to 5 arbitrary bytes', '-DLEN=5', '-DPREFIX', cost=60, thorough_only=True, ttime=850, reach=['accepted', 'inconsistent', 'malformed']),
     'Symbolic execution of configuration validation, lookup, printing and loading over symbolic identifiers, ports and file contents.',
     ['reading a file and converting numbers follow the C and C++ standards (shim/, rt/)', 'lines in which a number is followed by other characters are not specified'])
prop('C25', each('disc.cc', ['h_collect'], 'up to 4 parties, every announced identifier and port', '-DN=4', reach=RA2, cost=5)
     + each('disc.cc', ['h_client'], 'up to 3 parties, every identifier and port, short host names', '-DN=3', reach=RA2) + each('disc.cc', ['h_client'], 'up to 4 parties, every identifier and port, short host names', '-DN=4', reach=RA2, thorough_only=True, ttime=800, cost=40)
     + each('disc.cc', ['h_bad_server', 'h_client_sizes', 'h_client_sends'], 'all values')
     + each('disc.cc', ['h_run'], '2 parties over sockets, every schedule with at most 1 preemption, all ports', '-DSOCKETS', '-DN=2', threads=True, args=['--max-preempt', '1'], reach=['ordered'])
     + each('disc.cc', ['h_run'], '3 parties over sockets, ' + DL.format(2) + ', all ports', '-DSOCKETS', '-DN=3', threads=True, args=['--max-delay', '2'], reach=['ordered'], cost=15)
     + each('disc.cc', ['h_run'], '4 parties over sockets, ' + DL.format(1) + ', all ports', '-DSOCKETS', '-DN=4', threads=True, args=['--max-delay', '1'], reach=['ordered'], cost=15)
     + [ir('deep_run', 'disc.cc', 'h_run', '3 parties over sockets, ' + DL.format(3) + ', all ports', defs=['-DSOCKETS', '-DN=3'], threads=True, args=['--max-delay', '3'], reach=['ordered'], thorough_only=True, ttime=850, cost=60)],
     'Symbolic execution of the discovery steps with peers that announce symbolic identifiers, and of whole discovery runs with the server and clients as threads over a model of the socket interface.',
     ['sockets are reliable byte streams (harness/netmodel.h)', 'threads switch at synchronisation operations and socket calls'])
prop('C35', many('h_traffic', RND, (0,)) + many('h_traffic', PAIRS[:1], (0,), deep=()) + tpc('h_traffic', CI, NK + ((9, 3), (10, 4)), (0, 1))
     + [fs('dn_traffic_' + x.replace(',', '_') + f'_{r}', 'fs_dn07.cc', 'h_traffic', f'circuit,parties,threshold = {x}, delivery order {r}; all inputs and randomness', cfg=f'{x},{r}') for x in DN for r in (0, 1)],
     'All parties\' code is executed twice in one exploration, over independent symbolic inputs and randomness; every branch on values is a path, and on every pair of paths the recorded traffic (sender, receiver, size, order) is the same, with the online part as stated.')
