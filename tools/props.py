#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (source of both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
S = 'secure-computation-library/'
I, SR, T = S + 'include/scl/', S + 'src/scl/', 'src/tp/'
R = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    assert len(title) <= 80, title
    R.append(d)
p('C01', 'Prime field arithmetic is exact',
  'For every pair of elements of the 61-bit and 127-bit Mersenne prime fields, addition, subtraction, multiplication and negation (in their plain and in-place forms, also when both operands are the same object) yield the canonical representative of the integer result modulo the prime. Construction from a machine integer, negative ones included, yields that integer modulo the prime, and two elements compare equal exactly when their values are equal.',
  ['inputs'], 'all operand values of both fields', 'tests sample a handful of values; carries and reductions misbehave only near the modulus or near word boundaries',
  [I + 'math/ff.h', SR + 'math/fields/mersenne61.cc', SR + 'math/fields/mersenne127.cc', I + 'math/fields/details.h'], [('modular reduction', SR + 'math/fields/mersenne61.cc Multiply'), ('double width product', SR + 'math/fields/mersenne127.cc MultiplyFull')])
p('C02', 'Field inverse and division are exact',
  'The inverse of every nonzero prime field element multiplied by the element is one, and dividing is multiplying by the inverse, in both fields and in both the plain and the in-place form. Inverting zero or dividing by zero raises an error instead of producing a value.',
  ['inputs'], 'all nonzero elements', 'tests invert a few random elements; sign and quotient slips show for particular quotient sequences only',
  [I + 'math/fields/details.h', I + 'math/ff.h'], [('extended Euclid', I + 'math/fields/details.h InverseModPrimeSimpleType')])
p('C03', 'Field elements have one canonical serialized form',
  'Writing an element produces the little endian bytes of its canonical value, and reading any byte string of the element size yields the integer it encodes modulo the prime. Reading what was written gives the same element back, and reading a non-canonical encoding (of the prime or above) never yields an element outside the canonical range.',
  ['inputs'], 'every byte pattern of the element size', 'tests round-trip a few values; non-canonical encodings come only from other machines',
  [I + 'math/ff.h', SR + 'math/fields/mersenne61.cc', SR + 'math/fields/mersenne127.cc'], [('read/write', SR + 'math/fields/mersenne127.cc FromBytes'), ('read/write', SR + 'math/fields/mersenne61.cc FromBytes')])
p('C04', 'Numbers parse exactly when well formed, to the right value',
  'Parsing a string as a field or ring element in base 2, 10, 16 or 64 succeeds exactly when the string is a well formed number in that base (even length for base 16, padded groups of four for base 64) and yields that number modulo the modulus; the default base is decimal. Any other string raises an invalid-argument error, and no string makes parsing touch memory outside it.',
  ['inputs'], 'every byte string up to the stated length and every short continuation of long numbers', 'tests parse a dozen literals; malformed characters, empty strings and values above the modulus are not sampled',
  [I + 'math/str.h', I + 'math/ff.h', I + 'math/z2k.h'], [('per base conversion', I + 'math/str.h FromStringSimpleType')])
p('C05', 'Arithmetic modulo 2^K is exact for every K',
  'For every width K up to 128, sums, differences, products, negations and equality of ring elements are those of integers modulo 2^K, whatever the unused upper bits hold. Every odd element has an inverse whose product with it is one, division multiplies by it, and inverting or dividing by an even element raises an error.',
  ['inputs', 'configurations'], 'all operand values, K in {1,5,8,13,32,62,64,100,128}', 'tests use two values of K and random elements',
  [I + 'math/z2k.h', I + 'math/z2k/details.h'], [('masking at the boundary', I + 'math/z2k/details.h EqualZ2k'), ('Newton inversion', I + 'math/z2k/details.h InvertZ2k')])
p('C06', 'Ring elements serialize to exactly their byte size',
  'Writing a ring element touches exactly the bytes needed for K bits and holds the value modulo 2^K; reading touches exactly as many bytes, ignores bits above K and gives back an equal element. Adjacent memory is never read or written, and random elements are read from the generator in the same form.',
  ['inputs', 'configurations'], 'every byte pattern, K in {1,5,8,13,32,62,64,100,128}', 'out of bounds reads of a few bytes are silent in tests',
  [I + 'math/z2k.h', I + 'math/z2k/details.h'], [('sized copies', I + 'math/z2k/details.h ReadZ2k, WriteZ2k')])
p('C07', 'Vector operations are entrywise and serialization is lossless',
  'Vector addition, subtraction, negation, entrywise multiplication, scaling, dot product and sum yield the entrywise definition for every length, in plain and in-place forms, and operands of unequal length raise an error. Equality holds exactly when lengths and all entries agree, sub-vectors are the stated ranges, and reading a written vector gives the same vector.',
  ['inputs'], 'all entries, stated lengths including zero', 'tests use one vector of length three',
  [I + 'math/vec.h'], [('entrywise loops', I + 'math/vec.h')])
p('C08', 'Matrix operations follow the definitions for every shape',
  'Matrix sums, differences, scalings, products, transposes, matrix-vector products, identity and Vandermonde construction agree with the textbook definition entry by entry for every shape, square or not. Incompatible shapes raise an error, equality and identity tests are exact, and reading a written matrix gives the same matrix.',
  ['inputs'], 'all entries, stated shapes', 'tests use one or two square examples; row/column mix-ups need unequal dimensions',
  [I + 'math/mat.h'], [('index arithmetic', I + 'math/mat.h')])
p('C09', 'Linear system solving finds a solution exactly when there is one',
  'Solving a linear system of any shape over a field returns true together with the solution exactly when the system has exactly one, and row reduction yields an equivalent reduced row echelon form. A system is reported consistent exactly when it is, a solution extracted from a consistent reduced system satisfies it, and inverting a square matrix by reduction yields its inverse exactly when it is invertible. Operands of mismatched sizes raise an error.',
  ['inputs'], 'all entries of all matrices and right hand sides of the stated shapes', 'tests solve three square examples; pivoting corner cases need particular zero patterns or shapes that are not square',
  [I + 'math/la.h', I + 'math/mat.h'], [('row reduction', I + 'math/la.h RowReduceInPlace'), ('back substitution', I + 'math/la.h ExtractSolution')])
p('C10', 'Polynomial arithmetic is exact and keeps degrees normalised',
  'Creating, evaluating, adding, subtracting and multiplying polynomials agrees with the ring of polynomials for all coefficients, and the degree is that of the highest nonzero coefficient. Division returns quotient and remainder with dividend = divisor*quotient + remainder and remainder of lower degree than the divisor (or zero).',
  ['inputs'], 'all coefficients, stated numbers of coefficients', 'tests divide one pair of polynomials; cancellation of leading coefficients is not exercised',
  [I + 'ss/poly.h'], [('normalisation', I + 'ss/poly.h Create'), ('division', I + 'ss/poly.h Divide')])
p('C11', 'Interpolation through given points is exact everywhere',
  'A polynomial held as values at distinct points evaluates to those values at the points and to the unique interpolating polynomial of smaller degree than the number of points everywhere else, whatever the order or spacing of the points. It is reported as zero exactly when all its values are zero, and it reports the degree bound, mismatched or repeated arguments are not silently accepted where documented.',
  ['inputs'], 'all values, evaluation at held and other points', 'tests use consecutive points and one evaluation',
  [I + 'ss/evpoly.h'], [('Lagrange basis', I + 'ss/evpoly.h Evaluate')])
p('C12', 'Packed sharing reconstructs every secret from degree+1 shares',
  'Sharing a vector of secrets with a given degree and reconstructing from any degree+1 of the shares returns every secret in its slot, for every admissible number of secrets, degree and number of shares, and all shares lie on one polynomial of that degree. A degree too small for the number of secrets is refused with an error.',
  ['inputs'], 'all secrets and all randomness, every subset of shares, stated parameters', 'tests reconstruct from one subset with random data',
  [I + 'ss/packed.h', I + 'ss/evpoly.h'], [('share polynomial', I + 'ss/packed.h')])
p('C13', 'Too few shares reveal nothing about the secrets',
  'For every set of shares of size at most degree+1 minus the number of secrets (at most the threshold, for threshold sharing of one secret), the joint distribution of these shares over the dealer\'s randomness is the same whatever the secrets are.',
  ['inputs'], 'all secrets, every maximal unqualified set, stated parameters', 'a distribution cannot be settled by examples; sharing without enough randomness reconstructs perfectly',
  [I + 'ss/packed.h', I + 'ss/shamir.h'], [('random values of the share polynomial', I + 'ss/packed.h'), ('random coefficients', I + 'ss/shamir.h')])
p('C14', 'Threshold sharing reconstructs or detects tampering',
  'Any threshold+1 shares reconstruct the secret for every secret and randomness, including when shares belong to arbitrary distinct points. Reconstruction with detection from 2*threshold+1 shares returns the secret when shares are consistent and raises an error whenever between one and threshold of them are wrong.',
  ['inputs', 'fault_sequences'], 'all secrets, all randomness, all error values at every position', 'tests corrupt one share of one example',
  [I + 'ss/shamir.h'], [('consistency check', I + 'ss/shamir.h ReconstructShamirDetect')])
p('C15', 'Robust reconstruction corrects up to t wrong shares',
  'From 3t+1 shares of which at most t are wrong, robust reconstruction returns the shared secret and the positions of the wrong shares, for every placement and value of the errors. Whatever the shares, it either returns a polynomial of degree at most t agreeing with all but at most t of them or raises an error, and too few shares or evaluation points raise an error.',
  ['inputs', 'fault_sequences'], 'threshold 1: all shares; threshold 2: all secrets and error values at every placement for constant polynomials; thorough: one placement of threshold 3', 'tests corrupt one example',
  [I + 'ss/shamir.h', I + 'math/la.h', I + 'ss/poly.h'], [('Berlekamp-Welch', I + 'ss/shamir.h ReconstructShamirRobust')])
p('C16', 'Additive sharing sums to the secret and hides it',
  'Additive shares sum to the secret for every number of shares, and any proper subset of them is distributed independently of the secret.',
  ['inputs'], 'all secrets and randomness, stated numbers of shares', 'tests check one sum',
  [I + 'ss/additive.h'], [('last share correction', I + 'ss/additive.h')])
p('C17', 'The generator is a deterministic, never repeating keyed stream',
  'A generator\'s output is the counter-mode stream of the block cipher keyed by its seed: equal seeds give equal streams, each request continues where the previous one stopped by whole blocks, resetting starts the stream over, and no block of the stream is handed out twice. The default generator has the zero seed; a request writes exactly the bytes asked for, and one for more bytes than the destination holds is refused with an error.',
  ['inputs', 'histories'], 'every seed of the stated lengths, every sequence of request sizes up to the stated bound', 'tests compare two streams; reuse of a block shows only for particular request sizes',
  [SR + 'prg.cc', I + 'prg.h'], [('counter', SR + 'prg.cc PRG::Next'), ('key schedule', SR + 'prg.cc')])
p('C18', 'Hashing is SHA3, however the data is split into updates',
  'The digest of any byte string is the SHA3 digest of the chosen size, and it depends only on the concatenated bytes, never on how they are split over update calls.',
  ['inputs', 'histories'], 'every message up to the stated length and every split of it', 'existing tests hash constant bytes, for which byte order inside a word cannot be seen',
  [I + 'hash.h', SR + 'hash.cc'], [('absorbing', I + 'hash.h Update'), ('padding', I + 'hash.h Finalize'), ('permutation', SR + 'hash.cc Keccakf')])
p('C19', 'Typed messages arrive as sent; hostile sizes cannot corrupt memory',
  'Trivial values, lists of them, vectors and matrices sent on a channel are received equal to what was sent, in order, for every size including empty. Whatever bytes the other end sends as sizes or contents, receiving never reads or writes outside the received object: it yields an object of the announced size or fails with an error.',
  ['inputs', 'fault_sequences'], 'all values, all announced sizes', 'tests send well formed small objects',
  [I + 'net/channel.h'], [('size header', I + 'net/channel.h Recv')])
p('C20', 'The in-memory channel is an exact byte stream',
  'Bytes received at one end of an in-memory channel pair are the bytes sent at the other end, in order, without loss, duplication or modification, however sends and receives are split. A receive blocks until enough bytes have arrived, the two directions never mix, and flushing discards only the bytes not yet received at that end.',
  ['inputs', 'histories', 'schedules'], 'all contents, every split into sends and receives up to the bound, every interleaving of two threads', 'tests use equal send and receive sizes on one thread',
  [SR + 'net/mem_channel.cc', I + 'net/mem_channel.h', I + 'net/shared_deque.h'], [('leftover buffer', SR + 'net/mem_channel.cc')])
p('C21', 'The TCP channel transfers exactly the requested bytes',
  'Sending hands every byte to the socket in order and receiving returns exactly the requested number of bytes in order, however the operating system splits the transfers. A connection that is closed or fails in the middle raises an error rather than returning short or stale data or looping forever.',
  ['fault_sequences', 'inputs'], 'every sequence of partial transfers and failures up to the bound', 'loopback transfers of small messages are never split',
  [SR + 'net/tcp_channel.cc', SR + 'net/tcp_utils.cc'], [('transfer loops', SR + 'net/tcp_channel.cc'), ('system call wrappers', SR + 'net/tcp_utils.cc')])
p('C22', 'Queues are FIFO and the background sender loses nothing',
  'Under every interleaving of producers and consumers, the shared queue hands out each pushed element exactly once and in push order, and a pop on an empty queue waits for a push. Everything handed to the background sender before it is closed reaches the underlying channel, in order and exactly once, and sending never waits for the peer.',
  ['schedules', 'histories'], 'every interleaving of the stated threads and operations', 'tests run one schedule',
  [I + 'net/shared_deque.h', I + 'net/threaded_sender.h', SR + 'net/threaded_sender.cc'], [('mutex and condition variable', I + 'net/shared_deque.h'), ('sender thread', SR + 'net/threaded_sender.cc')])
p('C23', 'Every pair of parties is connected by one private channel pair',
  'In a network of any number of parties, what party i sends to party j is received by j from i and by nobody else, and a party can send to itself; this holds for networks in memory and for networks set up over sockets from one configuration, in whatever order the parties start and connect. A connecting peer that announces an identifier that is out of range, not expected or already taken raises an error. Closing closes every channel.',
  ['configurations', 'schedules'], 'all pairs of parties, stated network sizes; every announced identifier; schedules within the stated bounds', 'tests use three parties and one message',
  [SR + 'net/network.cc', I + 'net/network.h', SR + 'net/mem_channel.cc'], [('fake network wiring', SR + 'net/network.cc')])
p('C24', 'Network configurations are accepted exactly when consistent',
  'A network configuration is accepted exactly when it names at least one party, party identifiers are the distinct numbers below the number of parties and the own identifier is among them; anything else raises an invalid-argument error. Looking up a party by identifier returns that party\'s address, the printed form lists the own identifier and every party once and in order. A file of lines "identifier,address,port" is loaded as exactly those parties, and a file with a line that lacks two commas or a number, or that cannot be opened, raises an error.',
  ['inputs', 'configurations'], 'every identifier assignment and file content up to the bound', 'tests load a few well formed files',
  [SR + 'net/config.cc', I + 'net/config.h'], [('validation', SR + 'net/config.cc'), ('parsing', SR + 'net/config.cc Load')])
p('C25', 'Discovery gives all parties the same addresses',
  'After discovery every party holds the same configuration: each party is listed under its own identifier with the port it announced and the address it connected from, in whatever order the parties connect. Identifiers that are out of range or announced twice, by a client to the server or by the server to a client, raise an error instead of corrupting memory.',
  ['schedules', 'inputs', 'fault_sequences'], 'every arrival order and every announced identifier and port within the bound', 'tests use one arrival order',
  [SR + 'net/discovery/server.cc', SR + 'net/discovery/client.cc'], [('collecting identifiers', SR + 'net/discovery/server.cc'), ('distribution', SR + 'net/discovery/client.cc')])
p('C26', 'Circuit construction places every gate and fills every batch',
  'However inputs, additions, multiplications, layers and outputs are added, each gate keeps its owner, order and layer, gates are grouped in order into batches of the chosen size, and incomplete batches are padded with gates that contribute zero. Reported counts (inputs, outputs, depth, width, size, batches) describe the circuit built, and construction steps out of order, or inputs of the wrong number, are refused.',
  ['inputs', 'histories', 'configurations'], 'every sequence of construction steps, number of gates and batch size within the bound', 'tests build two circuits with batch size two',
  [T + 'circuits.h', T + 'circuits/building.cc', T + 'mult_gate.h', T + 'input_gate.h', T + 'output_gate.h'], [('batching', T + 'mult_gate.h Append, Close'), ('construction order', T + 'circuits/building.cc')])
p('C27', 'Cleartext evaluation computes the circuit',
  'For every circuit and every assignment of inputs, cleartext evaluation gives each output owner the value of its wires, with inputs assigned to owners in the order they were created; evaluating again gives the same values. Circuits generated from a configuration have the configured width, depth, inputs and outputs and compute the documented layers.',
  ['inputs', 'configurations'], 'all input values; stated circuits and configurations', 'tests evaluate fixed inputs',
  [T + 'circuits/cleartext.cc', T + 'circuits/generic.cc', T + 'gate.h'], [('recursive evaluation', T + 'circuits/cleartext.cc'), ('generation', T + 'circuits/generic.cc')])
p('C28', 'The online phase computes the circuit from correct preprocessing',
  'Given preprocessing consistent with arbitrary wire masks, the online phase lets every output owner learn exactly the value of its wires for every input, every mask and every order in which messages are delivered to the parties.',
  ['inputs', 'schedules', 'configurations'], 'all inputs, masks and randomness; stated circuits, party counts and batch sizes', 'tests run fixed inputs with a few parameters',
  [T + 'circuits/online.cc', T + 'mult_gate.cc', T + 'mult_gate.h', T + 'input_gate.h', T + 'output_gate.h', T + 'circuits/offline.cc'], [('masked products', T + 'mult_gate.h'), ('opening to owners', T + 'output_gate.h')])
p('C29', 'Preprocessing yields correct and fresh correlations',
  'After function-independent preprocessing, for all randomness of all parties, each wire mask is a sharing of one value in every slot, each triple shares a, b and a*b slot by slot, each zero sharing shares zeros, and all have the prescribed degrees. No two wires, batches or openings use the same mask, triple or zero sharing.',
  ['inputs', 'configurations'], 'all randomness; stated circuits, party counts and batch sizes', 'reuse of a correlation still gives correct outputs',
  [T + 'fi_prep.cc', T + 'correlator.cc', T + 'correlator.h'], [('generation', T + 'fi_prep.cc'), ('assignment to gates', T + 'correlator.cc')])
p('C30', 'The full protocol computes the circuit end to end',
  'Running all preprocessing and online phases of all parties gives every output owner exactly the outputs of the circuit, for all inputs, all randomness, every supported number of parties and batch size, and every order in which the parties run.',
  ['inputs', 'configurations', 'schedules'], 'all inputs and randomness; stated circuits, party counts, batch sizes and orders', 'tests run single random executions with fixed inputs',
  [T + 'circuits/offline.cc', T + 'circuits/online.cc', T + 'fi_prep.cc', T + 'correlator.cc', T + 'mult_gate.h'], [('phases', T + 'circuits.h')])
p('C31', 'A corrupted set within the threshold learns only its own outputs',
  'For every set of at most threshold corrupted (honest-but-curious) parties, the joint distribution of everything they hold and receive during preprocessing and online phases, over the honest parties\' uniform randomness, depends on the honest parties\' inputs only through the outputs the corrupted parties own.',
  ['inputs', 'configurations'], 'all inputs; stated circuits, party counts, batch sizes and corrupted sets', 'leaks do not change any output; no test looks at the distribution of messages',
  [T + 'fi_prep.cc', T + 'circuits/offline.cc', T + 'circuits/online.cc', T + 'mult_gate.h', T + 'input_gate.h', T + 'output_gate.h'], [('masking by fresh zero sharings', T + 'circuits/offline.cc'), ('wire masks', T + 'fi_prep.cc')])
p('C32', 'The baseline protocol computes the circuit',
  'Running preprocessing and online phases of the baseline protocol gives every output owner exactly the outputs of the circuit, for all inputs and randomness and every accepted number of parties and threshold.',
  ['inputs', 'configurations'], 'all inputs and randomness; stated circuits, party counts and thresholds', 'tests run one parameter set',
  [T + 'dn07.cc', T + 'dn07.h'], [('double sharings', T + 'dn07.cc'), ('opening through the first party', T + 'dn07.cc')])
p('C33', 'The baseline protocol keeps honest inputs private',
  'For every set of at most threshold corrupted (honest-but-curious) parties of the baseline protocol, the joint distribution of everything they hold and receive, over the honest parties\' uniform randomness, depends on the honest inputs only through the outputs the corrupted parties own.',
  ['inputs', 'configurations'], 'all inputs; stated circuits, party counts, thresholds and corrupted sets', 'leaks do not change any output',
  [T + 'dn07.cc', T + 'dn07.h'], [('double sharings mask products', T + 'dn07.cc')])
p('C34', 'Inadmissible parameters are refused',
  'A protocol set up is accepted exactly when number of parties, threshold and batch size satisfy the documented relation (n = t + 2(k-1) + 1 with an honest majority; n > 2t for the baseline), and a circuit configuration exactly when it is consistent. Everything else raises an invalid-argument error before any message is sent.',
  ['inputs', 'configurations'], 'all sizes within the stated bounds', 'tests try two wrong values',
  [T + 'correlator.h', T + 'dn07.h', T + 'circuits/generic.cc'], [('checks', T + 'correlator.h SetThreshold'), ('checks', T + 'circuits/generic.cc FromConfig')])
p('C35', 'Traffic depends only on the circuit; online traffic is constant per gate',
  'The sender, receiver, size and order of all messages of all phases depend only on the circuit and the parameters, never on inputs or randomness. In the online phase an input costs one field element from its owner to the first party, a batch of products two from the first party to each party and one back, an output one from the first party to its owner, and additions cost nothing. In the baseline\'s online phase the first t+1 parties exchange with the first party one element each way per product, and with the owner one each way per input and one per output.',
  ['inputs', 'configurations'], 'all pairs of executions over all inputs and randomness; stated circuits, party counts, batch sizes and thresholds', 'outputs stay correct whatever is sent; tests never count messages, nor compare executions',
  [T + 'mult_gate.cc', T + 'input_gate.h', T + 'output_gate.h', T + 'circuits/online.cc', T + 'circuits/offline.cc', T + 'fi_prep.cc', T + 'dn07.cc'], [('two elements out, one back per batch', T + 'mult_gate.cc P1Sends, PartiesSend'), ('t+1 parties online', T + 'dn07.cc MultPartiesSendP1')])
p('C36', 'No party waits for a message that is never sent',
  'When every party runs its phases in the documented order with blocking receives, all parties terminate under every relative speed, and every message sent in a phase is received: nothing is left in any channel afterwards.',
  ['schedules', 'configurations'], 'three adversarial schedules of all parties; stated circuits, party counts and batch sizes', 'tests run the parties in lock step',
  [T + 'circuits/offline.cc', T + 'circuits/online.cc', T + 'fi_prep.cc', T + 'dn07.cc'], [('send/receive pairs', T + 'circuits/offline.cc')])
NA = {}
LEVEL = {}
def main():
    import spec
    with open(V + '/properties.jsonl', 'w') as f:
        for r in R: f.write(json.dumps(r) + '\n')
    checks = []
    na = []
    for r in R:
        i = r['id']
        if i in spec.PROPS:
            P = spec.PROPS[i]
            fsn = sum(t['kind'] == 'fs' for t in P['tasks']); irn = len(P['tasks']) - fsn
            tech = []
            if irn: tech.append('symbolic execution of the compiled LLVM IR with z3 (bit-vectors)')
            if fsn: tech.append('symbolic execution of the compiled code over polynomials with z3 (field level)')
            checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}', evidence_file=f'evidence/{i}.json',
                               technique='; '.join(tech), level=P['level'], level_note=P['explain'] + ' Bounds: ' + r['quantifier']['text'] + '; per task in the evidence file. Outside the bounds nothing is claimed.'))
        else: na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
    m = dict(version=1, setup_cmd='make -s -C engine', checks=checks, not_applicable=na)
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'claimed', [x['property'] for x in na])
main()
