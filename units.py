"""The properties and the solver units that decide them."""
LIBCXX = True
PROPS = {}
_U = {}
def prop(pid, note='', level='other', assumptions=()):
    PROPS[pid] = dict(note=note, level=level, assumptions=list(assumptions)); _U[pid] = []
def unit(pid, name, src, target='avx2', tier='q', tt=None, time=600, ext=200, budget=200000, portfolio=2, opts=(), reach=(), bounds='', O='2', ub=True, cost=1, noassert=False, **defs):
    _U[pid].append(dict(name=name, src=src, target=target, tier=tier, tt=tt, time=time, ext=ext, budget=budget, portfolio=portfolio, opts=list(opts), reach=list(reach), bounds=bounds, O=O, ub=ub, cost=cost, noassert=noassert, defs=defs))
def units(pid, tier): return [u for u in _U[pid] if u['tier'] in ('q', 'b') or tier == 'thorough']

prop('C01', 'Finite-field arithmetic: every operator overload against polynomial arithmetic modulo POLY.')
for m, p, t in ((2, '0b111', 'uint8_t'), (3, '0b1011', 'uint8_t'), (4, '0b10011', 'uint8_t'), (5, '0b100101', 'uint8_t'), (6, '0b1000011', 'uint8_t'), (7, '0b10001001', 'uint8_t'), (8, '0b100011101', 'uint8_t')):
    unit('C01', 'field-m%d' % m, 'gf.cc', tt=16, reach=['arith', 'nonzero b', 'indices'], bounds='GF(2^%d), all operand values' % m, M_=m, POLY_=p, TYPE_=t, SMALL=1)
for p in ('0b10001000000001011', '0b10000000000101101'):
    unit('C01', 'field-m16-%s' % p[2:], 'gf.cc', tt=16, reach=['tables', 'indices', 'mixed'], bounds='GF(2^16) mod %s, all operand values as exponents plus zero' % p, M_=16, POLY_=p, TYPE_='uint16_t')

prop('C03', 'Reed-Solomon encoding, data symbolic.')
prop('C04', 'Reed-Solomon decoding of correctable patterns, data and magnitudes symbolic, positions by path.')
prop('C05', 'Reed-Solomon decoding of arbitrary received words.')
F4 = dict(M_=4, POLY_='0b10011', TYPE_='uint8_t'); F8 = dict(M_=8, POLY_='0b100011101', TYPE_='uint8_t'); F5 = dict(M_=5, POLY_='0b100101', TYPE_='uint8_t'); F3 = dict(M_=3, POLY_='0b1011', TYPE_='uint8_t')
unit('C03', 'rs15-11', 'rs.cc', tt=6, time=60, MODE=0, NR_=4, FCR_=0, LEN_LO=1, LEN_HI='K', **F4)
unit('C03', 'rs255-223', 'rs.cc', tt=10, time=100, MODE=0, NR_=32, FCR_=1, SYMD=56, **F8)
unit('C03', 'rs255-247', 'rs.cc', tt=10, time=100, MODE=0, NR_=8, FCR_=1, SYMD=8, **F8)
unit('C03', 'rs255-247-short', 'rs.cc', tt=10, time=100, MODE=0, NR_=8, FCR_=1, LEN_LO=1, LEN_HI=24, **F8)
unit('C03', 'rs255-223-short', 'rs.cc', tt=10, time=100, MODE=0, NR_=32, FCR_=1, LEN_LO=16,LEN_HI=17, **F8)

F = {3: F3, 4: F4, 5: F5, 8: F8}
def c04(m, nr, fcr, err, era, lo=None, hi=None, tier='q', merge=6, n=None, tt=None, **kw):
    d = dict(F[m]); d.update(MODE=1, DMERGE=merge, NR_=nr, FCR_=fcr, ERR_=err, ERA_=era)
    if lo is not None: d.update(P0_LO=lo, P0_HI=hi)
    if n is not None: d.update(LEN_LO=n, LEN_HI=n)
    nm = 'rs%d-%d-fcr%d-err%d-era%d%s%s' % (2**m-1, 2**m-1-nr, fcr, err, era, '' if n is None else '-len%d' % n, '' if lo is None else '-at%d-%d' % (lo, hi))
    unit('C04', nm, 'rs.cc', tier=tier, tt=tt or (err + era) * m + 1, time=kw.pop('time', 300), reach=['corrected'], cost=kw.pop('cost', 3), bounds='GF(2^%d), %d parity symbols, first root %d, every data word, %d errors and %d erasures of every magnitude at every choice of positions%s' % (m, nr, fcr, err, era, '' if lo is None else ' with the first in %d..%d' % (lo, hi)), **d)
c04(3, 4, 0, 2, 0); c04(3, 4, 1, 1, 2); c04(3, 4, 1, 0, 4, cost=5); c04(3, 4, 0, 1, 1); c04(3, 4, 2, 0, 3); c04(3, 6, 1, 3, 0, merge=1, cost=9); c04(3, 3, 1, 1, 1)
c04(4, 4, 0, 1, 0); c04(4, 4, 0, 1, 2, 0, 0, merge=1)
for lo, hi in ((0, 0), (1, 1), (2, 2), (3, 3), (4, 5), (6, 7), (8, 13)): c04(4, 4, 0, 2, 0, lo, hi)
c04(5, 4, 0, 2, 0, 0, 0); c04(8, 4, 1, 1, 0, n=8); c04(8, 4, 1, 0, 2, n=3)

def c05(m, nr, fcr, era=0, lo=None, hi=None, split=0, tier='q', merge=6, n=None, tt=None, **kw):
    d = dict(F[m]); d.update(MODE=2, DMERGE=merge, NR_=nr, FCR_=fcr, ERA_=era)
    if split: d.update(P0_LO=lo, P0_HI=hi, CSPLIT=split)
    if n is not None: d.update(LEN_LO=n, LEN_HI=n)
    nm = 'rs%d-%d-fcr%d-era%d%s%s' % (2**m-1, 2**m-1-nr, fcr, era, '' if n is None else '-len%d' % n, '' if lo is None else '-at%d-%d' % (lo, hi))
    unit('C05', nm, 'rs.cc', tier=tier, tt=tt or (nr - split) * m + 1, time=kw.pop('time', 100), reach=['success'], cost=kw.pop('cost', 3), bounds='GF(2^%d), %d parity symbols, first root %d, every received word%s' % (m, nr, fcr, '' if lo is None else ' with the change of the first parity symbol in %d..%d' % (lo, hi)), **d)

c05(3, 2, 1, n=1); c05(3, 3, 1, n=2); c05(3, 4, 0); c05(4, 2, 1, n=9); c05(4, 3, 1, n=10); c05(3, 4, 1, n=2); c05(3, 3, 1, 1, n=4); c05(3, 2, 1, 1); c05(3, 3, 1, 2, n=1)

prop('C12', 'CRC against the bit-serial shift register.')
CRCP = {'uint8_t': '0x8C,0xD5,0x2F,0x01,0x80', 'uint16_t': '0xA8F4,0x8408,0xD175,0x0001,0x8000,0xFFFF', 'uint32_t': '0xEDB88320u,0x8F6E37A0u,0x82F63B78u,0xD419CC15u,1u,0x80000000u', 'uint64_t': '0xD800000000000000ull,0xC96C5795D7870F42ull,1ull,0x8000000000000001ull'}
for t, p in CRCP.items():
    unit('C12', 'crc-%s' % t[:-2], 'crc.cc', tt=10, reach=['fed'], STEPS=2, OPS_=4, TYPE_=t, POLYS_="'%s'" % p, bounds='%s register, any initial value, every sequence of two operands of type bool/uint8/16/32/64 with any contents, polynomials %s' % (t, p))
unit('C12', 'crc-uint8-allpoly', 'crc.cc', tt=10, reach=['fed'], STEPS=1, OPS_=2, TYPE_='uint8_t', POLYS_="'%s'" % ','.join(map(str, range(256))), bounds='8-bit register, every polynomial, any initial value, one operand')
prop('C13', 'Bitstream and bit manipulation against an array of bits.')
unit('C13', 'bitstream', 'bits.cc', PART=0, SIZE_=77, STEPS=1, reach=['bits', 'bytes'], bounds='77-bit stream, any content, every operation, position and length')
unit('C13', 'bitstream-2ops', 'bits.cc', PART=0, SIZE_=19, STEPS=2, reach=['bits', 'bytes'], bounds='19-bit stream, any content, every pair of operations')
unit('C13', 'bitman', 'bits.cc', PART=1, SIZE_=40, reach=['bit'], bounds='5 bytes, any content, every position')
prop('C14', 'MLS register, period check and xorshift generators.')
unit('C14', 'mls-step', 'prng.cc', PART=0, reach=['step'], bounds='degree 1..30, any polynomial and state')
for d in range(1, 7): unit('C14', 'mls-bad-%d' % d, 'prng.cc', PART=1, DEG=d, reach=['good'] if d == 1 else ['bad', 'good'], bounds='degree %d, every polynomial with constant term 1, every state' % d)
unit('C14', 'xorshift', 'prng.cc', PART=2, reach=['32', '64', '128', 'wow'], bounds='every state, several steps')
prop('C15', 'Interleavers and permutations, contents symbolic.')
unit('C15', 'permute', 'perm.cc', reach=['interleaved', 'shuffled', 'reversed'], bounds='20 sizes and types, every content')
prop('C16', 'exclusive_reduce with commutative associative operators.')
for op, n in ((0, 24), (1, 40), (2, 7), (3, 8), (4, 7)): unit('C16', 'reduce-%d' % op, 'reduce.cc', OP=op, HI=n, reach=['reduced'], bounds='length 2..%d, every content' % n)

prop('C17', 'Sorting: ascending, permutation, stable.')
def c17(nm, part, lo, hi, sym, bits=8, key='uint8_t', mm=0, tier='q', pat=3, **kw): unit('C17', nm, 'sort.cc', tier=tier, reach=['sorted'], PART=part, LO_=lo, HI_=hi, SYM_=sym, BITS_=bits, KEY_=key, MM=mm, PAT=pat, bounds='%d..%d elements, %s' % (lo, hi, 'all' if sym >= hi else '%d of them' % sym) + ' symbolic with %d bits' % bits, **kw)
c17('insertion', 0, 0, 5, 9); c17('insertion-0-1', 0, 6, 9, 9, 1); c17('insertion-order', 1, 0, 5, 9, key='int8_t'); c17('insertion-index', 2, 1, 5, 9, key='int8_t'); c17('insertion-index-0-1', 2, 6, 9, 9, 1)
c17('merge-m1', 3, 0, 5, 9, mm=1); c17('merge-m2', 3, 0, 5, 9, mm=2, key='int8_t'); c17('merge-m3-0-1', 3, 6, 10, 10, 1, mm=3); c17('merge-m1-0-1', 4, 6, 10, 10, 1, mm=1); c17('merge-m2-0-1', 4, 6, 10, 10, 1, mm=2); c17('merge-m2-ternary', 4, 6, 6, 10, 2, mm=2)
c17('merge-m32', 4, 63, 66, 2, mm=32); c17('merge-m32-short', 4, 31, 34, 2, mm=32); c17('merge-m4', 3, 6, 26, 2, mm=4, pat=11)
c17('simd-5', 5, 5, 5, 5, key='int8_t'); c17('simd-16', 5, 16, 16, 2, key='int8_t'); c17('simd-32', 5, 32, 32, 2, key='int8_t'); c17('simd-16u', 5, 16, 16, 2); c17('simd-8x16', 5, 8, 8, 3, 16, key='int16_t')

prop('C20', 'Hadamard codes: encoder against parities, decoder against maximum correlation.')
prop('C21', 'Simplex codes: encoder against parities, decoder against maximum correlation.')
for h, pid in ((1, 'C20'), (0, 'C21')):
    for k in range(2, 9): unit(pid, 'encode-k%d' % k, 'wht.cc', tt=k + 1, HAD=h, PART=0, K_=k, reach=['encoded'], bounds='%d-bit messages, all' % k)
    for k, tier in ((2, 'q'), (3, 'q'), (4, 'q'), (5, 't')): unit(pid, 'soft-k%d' % k, 'wht.cc', tier=tier, HAD=h, PART=1, K_=k, EVERY=1, SYM_=99, BITS_=8, MERGE_=1, opts=['--abs'], reach=['decoded'], time=400, bounds='%d-bit messages, every soft input' % k)
    for k, n in ((5, 8), (6, 5), (7, 4), (8, 2)):
        unit(pid, 'tie-k%d' % k, 'wht.cc', HAD=h, PART=3, K_=k, MSGS_=min(n, 8), AMP=100, MERGE_=1, reach=['decoded'], time=200, bounds='%d-bit messages, half way between two code words, one symbol of any value' % k)

for h, pid in ((1, 'C20'), (0, 'C21')):
    for k in (2, 3, 4, 5, 8, 9, 10, 11): unit(pid, 'amp-k%d' % k, 'wht.cc', HAD=h, PART=4, K_=k, MSGS_=4 if k > 8 else 8 if k > 4 else 1 << k, tt=8, reach=['decoded'], time=200, bounds='%d-bit messages, code words of any amplitude' % k)
prop('C22', 'Short BCH codes: encoder and bounded distance decoder.')
SB = {'15-5': (15, 5, '0b10100110111', 3), '23-12': (23, 12, '0b101011100011', 3), '23-12b': (23, 12, '0b110001110101', 3), '7-4': (7, 4, '0b1011', 1), '15-7': (15, 7, '0b111010001', 2), '31-16': (31, 16, '0b1000111110101111', 3), '15-11': (15, 11, '0b10011', 1), '7-3': (7, 3, '0b11101', 1), '8-4': (8, 4, '0b10111', 1), '12-4': (12, 4, '0b111010001', 1), '15-3': (15, 3, '0b1111011001001', 1)}
def sb(c): n, k, g, t = SB[c]; return dict(N_=n, K_=k, G_=g, T_=t)
for c in ('7-4', '7-3', '15-5', '15-7', '15-11', '23-12', '23-12b', '31-16'):
    n, k, g, t = SB[c]
    unit('C22', 'any-%s' % c, 'sbch.cc', tt=17, time=300, cost=5 if n > 30 else 1, reach=['encoded', 'decoded'], PART=0, bounds='(%d,%d) code, every message, every received word' % (n, k), **sb(c))
    for lo, hi, tier in ((0, min(t, 2) if n > 30 else t, 'q'), (3, 3, 't')):
        if not lo or n > 30: unit('C22', 'errors-%s%s' % (c, '' if not lo else '-3'), 'sbch.cc', tier=tier, tt=17, time=300, cost=5 if n > 30 else 1, reach=['corrected'], PART=1, TMIN=lo, TMAX=hi, bounds='(%d,%d) code, every message, every pattern of %d..%d errors' % (n, k, lo, hi), **sb(c))
prop('C23', 'Short BCH codes: soft decoder.')
for c in ('7-4', '7-3', '8-4', '12-4'):
    n, k, g, t = SB[c]
    for sym, bits, mg in ((2, 7, 1),):
        for o in ([],): unit('C23', 'ml-%s-%d-%d%s' % (c, sym, mg, 'a' if o else ''), 'sbch.cc', tt=14, opts=o, time=100, reach=['decoded'], PART=2, SYM_=sym, BITS_=bits, MERGE_=mg, bounds='(%d,%d) code, every soft word' % (n, k), **sb(c))
for c in ('15-5', '15-7', '15-11', '23-12'):
    n, k, g, t = SB[c]
    for err, weak, sym, bits in ((t, t, 1, 5), (1, t, 1, 5), (t, t - 1, 2, 3)):
        if not (n > 15 and (err, weak) == (1, t)): unit('C23', 'chase-%s-%d-%d-%d' % (c, err, weak, sym), 'sbch.cc', tt=14, time=300, cost=5 if n > 30 else 1, tier='q' if n < 30 else 't', reach=['decoded'], PART=3, MSGS_=2 if n > 15 else 3, SHIFTS_=n, STEP_=1, ERR_=err, WEAK_=weak, SYM_=sym, BITS_=bits, MERGE_=1, bounds='(%d,%d) code, %d strong and %d weak errors, %d symbols of any small value, every cyclic position' % (n, k, err, weak, sym), **sb(c))
prop('C06', 'BCH encoder: divisibility by the minimal polynomials.')
prop('C07', 'BCH decoder: errors and erasures within capability.')
prop('C08', 'BCH decoder: every received word.')
BCH = {'7-4': (3, 4, 2, 1, '0b1011'), '7-3': (3, 3, 3, 0, '0b11,0b1011'), '15-11': (4, 11, 2, 1, '0b10011'), '15-7': (4, 7, 4, 1, '0b10011,0b11111'), '15-5': (4, 5, 6, 1, '0b10011,0b11111,0b111'), '15-6': (4, 6, 5, 0, '0b11,0b10011,0b11111'), '15-10': (4, 10, 3, 0, '0b11,0b10011'),
 '31-21': (5, 21, 4, 1, '0b100101,0b111101'), '31-16': (5, 16, 6, 1, '0b100101,0b111101,0b110111'), '31-11': (5, 11, 10, 1, '0b100101,0b111101,0b110111,0b101111'), '63-51': (6, 51, 4, 1, '0b1000011,0b1010111'),
 '127-64': (7, 64, 20, 1, '0b10001001,0b10001111,0b10011101,0b11110111,0b10111111,0b11010101,0b10000011,0b11101111,0b11001011'),
 '255-131': (8, 131, 36, 1, '0b100011101,0b101110111,0b111110011,0b101101001,0b110111101,0b111100111,0b100101011,0b111010111,0b000010011,0b101100101,0b110001011,0b101100011,0b100011011,0b100111111,0b110001101,0b100101101')}
GP = {3: '0b1011', 4: '0b10011', 5: '0b100101', 6: '0b1000011', 7: '0b10001001', 8: '0b100011101'}
def bch(c): m, k, nr, fcr, ps = BCH[c]; return dict(M_=m, POLY_=GP[m], TYPE_='uint8_t', K_=k, NR_=nr, FCR_=fcr, POLYS_=ps)
def c06(c, tt=10, lo=None, hi=None, symd=1, **kw): 
    m, k = BCH[c][:2]
    unit('C06', 'bch%s%s' % (c, '' if lo is None else '-short'), 'bch.cc', tt=tt, time=200, MODE=0, SYMD=symd, reach=['encoded'] + ([] if 'NOREF' in kw else ['reference']), bounds='BCH(%d,%d), %s data word, data length %s' % (2**m-1, k, 'every' if symd == 1 else 'every content of every %dth byte of the' % symd, 'full' if lo is None else '%d..%d' % (lo, hi)), **dict(bch(c), **({} if lo is None else dict(LEN_LO=lo, LEN_HI=hi)), **kw))
for c in ('7-4', '7-3', '15-11', '15-7', '15-5', '15-6', '15-10', '31-21', '31-16', '31-11', '63-51', '127-64', '255-131'):
    c06(c, symd=1 if BCH[c][1] < 60 else 3)
    k = BCH[c][1]; c06(c, lo=1, hi=k - 1 if k < 32 else 20)
def c07(c, err, era, n=None, stride=None, tier='q', **kw):
    m, k, nr = BCH[c][:3]; d = dict(bch(c), MODE=1, ERR_=err, ERA_=era, **kw)
    if n: d.update(LEN_LO=n, LEN_HI=n)
    if stride: d.update(STRIDE=stride)
    unit('C07', 'bch%s-err%d-era%d%s%s' % (c, err, era, '-len%d' % n if n else '', '-stride%d' % stride if stride else ''), 'bch.cc', tier=tier, tt=10, time=300, reach=['corrected'], cost=2, bounds='BCH(%d,%d)%s, %s, %d errors and %d erasures of any content at %s' % (2**m-1, k, ' shortened to %d data bits' % n if n else '', 'one data word' if d.get('SYMD') == 0 else 'every data word', err, era, 'every choice of positions' if not stride else 'positions p, p + %d, ..., %s' % (stride, 'p up to %d' % d['P0MAX'] if 'P0MAX' in d else 'every p')), **d)
for c, err, era in (('7-4', 1, 0), ('7-4', 0, 2), ('7-3', 1, 1), ('7-3', 0, 3), ('15-11', 1, 0), ('15-11', 0, 2), ('15-7', 2, 0), ('15-10', 1, 1), ('15-5', 3, 0)): c07(c, err, era)
for c, err, era in (('15-6', 2, 1), ('31-21', 2, 0), ('15-7', 1, 2), ('15-10', 0, 3)): c07(c, err, era, tier='t')
for c, err, era, st in (('15-7', 1, 2, 2), ('15-7', 0, 4, 4), ('15-6', 2, 1, 4), ('15-6', 0, 5, 1), ('15-5', 2, 2, 2), ('15-5', 1, 4, 4), ('15-5', 0, 6, 1), ('31-21', 2, 0, 5), ('31-21', 1, 2, 3), ('31-21', 0, 4, 1), ('31-16', 3, 0, 7), ('31-11', 5, 0, 3), ('63-51', 2, 0, 11), ('63-51', 1, 2, 1)): c07(c, err, era, stride=st)
for c, err, era, n in (('15-7', 2, 0, 3), ('15-7', 1, 1, 2), ('15-10', 1, 1, 3), ('15-5', 3, 0, 1), ('31-21', 2, 0, 4), ('15-6', 1, 2, 1)): c07(c, err, era, n=n)
c07('127-64', 10, 0, stride=13, SYMD=0, NOREF=1); c07('127-64', 1, 1, n=9, stride=5, SYMD=0); c07('127-64', 8, 3, stride=9, SYMD=0, NOREF=1, P0MAX=30); c07('255-131', 2, 2, n=5, stride=3, SYMD=0, NOREF=1, P0MAX=60); c07('255-131', 17, 2, stride=11, SYMD=0, NOREF=1, P0MAX=15)
def c08(c, era=0, n=None, tier='q', **kw):
    m, k = BCH[c][:2]; d = dict(bch(c), MODE=2, ERA_=era, **kw)
    if n: d.update(LEN_LO=n, LEN_HI=n)
    unit('C08', 'bch%s-era%d%s' % (c, era, '-len%d' % n if n else ''), 'bch.cc', tier=tier, tt=2**m-1 - k + 1, time=300, reach=['decoded'], cost=2, bounds='BCH(%d,%d)%s, every received word, %d announced erasures' % (2**m-1, k, ' shortened to %d data bits' % n if n else '', era), **d)
for c, era, n in (('7-4', 0, None), ('7-4', 1, 2), ('7-4', 2, 1), ('7-3', 0, None), ('7-3', 1, 1), ('7-3', 2, None), ('15-11', 0, None), ('15-11', 0, 5), ('15-11', 1, 3), ('15-10', 0, None), ('15-10', 1, 4), ('15-7', 0, None), ('15-7', 0, 3), ('15-6', 0, None), ('15-5', 0, None), ('15-5', 0, 2), ('31-21', 0, 6)): c08(c, era, n)
prop('C29', 'Ordered statistics decoders against a greedy most reliable basis.')
prop('C30', 'Linear encoder and BCH generator matrices.')
LIN = {'3-1': "0x7", '7-4': '0x20,0x5e,0x2d,0x65', '8-2': '0xb0,0xf1', '9-3': '0x1ae,0x17a,0x14d', '12-3': '0xec1,0x87b,0x76', '13-5': '0x1ae4,0xee6,0x18d4,0x1e2f,0x7f8', '15-5': '0x5311,0x6a3,0x7350,0x1413,0xe7d', '15-7': '0x2f96,0x3c0a,0x6f29,0x1f8f,0x30bc,0x4599,0xd0d', '14-9': '0x24bb,0xff5,0xd6,0x2ecb,0xdde,0x1a1f,0x11e3,0xba7,0x3aa5', '10-6': '0x378,0x310,0x18e,0xa3,0x30c,0x330', '24-4': '0x126a1e,0x238642,0x9e3069,0x9e115e', '31-11': '0x38f0603f,0x1037ae33,0x10ed44bc,0x3a2898,0x7c758c5c,0x6f8a30d5,0xae19d9,0x1acf777d,0x63051e55,0x1b94e30c,0x7ae571df'}
def osd(c, o, ties=0, prof=4, lst=0, nsym=None, tier='q', p0=0, **kw):
    n, k = map(int, c.split('-')); ns = nsym or n
    what = {0: 'distinct magnitudes', 1: 'magnitudes with ties and zeros', 2: 'magnitudes 0 to 2', 3: 'equal magnitudes'}[ties]
    unit('C29', '%s%s-o%d-t%d%s' % ('list%d-' % lst if lst else 'osd', c, o, ties, '' if not p0 else '-p%d' % p0), 'osd.cc', tier=tier, tt=min(ns, 16), time=300, reach=['decoded'], cost=3 if ns > 12 else 1, MODE=1 if lst else 0, N_=n, K_=k, O_=o, L_=lst or 1, ROWS=LIN[c], TIES=ties, PROFILES=prof, P0=p0, NSYM=ns, MERGE_=1,
         bounds='(%d,%d) code, order %d, %s, %d profiles, every choice of %s' % (n, k, o, what, prof, 'signs' if ns == n else 'the %d least reliable signs' % ns), **kw)
for c, o, ties in (('3-1', 0, 0), ('3-1', 1, 1), ('7-4', 0, 0), ('7-4', 1, 0), ('7-4', 2, 0), ('7-4', 4, 1), ('7-4', 4, 2), ('7-4', 4, 3), ('8-2', 0, 0), ('8-2', 1, 0), ('8-2', 2, 1), ('8-2', 2, 2), ('9-3', 1, 0), ('9-3', 3, 1), ('9-3', 3, 3), ('12-3', 0, 0), ('12-3', 1, 0), ('12-3', 3, 1), ('13-5', 2, 0), ('15-5', 1, 0), ('10-6', 3, 0), ('10-6', 5, 0), ('10-6', 6, 2)): osd(c, o, ties)
for c, o, ties, l in (('7-4', 1, 0, 4), ('7-4', 2, 0, 4), ('7-4', 4, 0, 8), ('8-2', 1, 0, 3), ('8-2', 1, 0, 1), ('9-3', 2, 0, 4), ('9-3', 3, 0, 8), ('12-3', 1, 0, 4), ('12-3', 1, 0, 2), ('13-5', 1, 0, 4), ('10-6', 2, 0, 4), ('15-5', 1, 0, 2)): osd(c, o, ties, lst=l)
for c, o, ties, lst, ns, pr in (('15-7', 4, 0, 0, 15, 4), ('15-7', 2, 0, 3, 15, 2), ('31-11', 2, 0, 0, 12, 2), ('31-11', 1, 0, 4, 12, 2), ('24-4', 1, 0, 0, 14, 3), ('24-4', 4, 1, 0, 14, 3), ('14-9', 6, 0, 0, 14, 2), ('9-3', 3, 2, 4, 9, 4)): osd(c, o, ties, lst=lst, nsym=ns, prof=pr)
for c in ('7-4', '15-7', '15-5', '31-21', '31-11', '63-51', '127-64'):
    m, k, nr, fcr, ps = BCH[c]; unit('C30', 'matrix-%s' % c, 'osd.cc', tt=8, time=200, reach=['encoded'], MODE=2, N_=2**m - 1, K_=k, POLYS_=ps, bounds='BCH(%d,%d), both matrices, every message' % (2**m - 1, k))
for n, k, ps in ((9, 1, '0b100011101'), (8, 4, '0b11,0b1011'), (12, 8, '0b10011'), (23, 12, '0b101011100011'), (16, 15, '0b11'), (10, 7, '0b1011')): unit('C30', 'matrix-%d-%d' % (n, k), 'osd.cc', tt=8, time=200, reach=['encoded'], MODE=2, N_=n, K_=k, POLYS_=ps, bounds='cyclic or shortened (%d,%d) code, both matrices, every message' % (n, k))
for n, k in ((1, 1), (7, 4), (8, 8), (9, 3), (16, 9), (21, 17)): unit('C30', 'linear-%d-%d' % (n, k), 'osd.cc', tt=8, time=200, reach=['encoded'], MODE=3, N_=n, K_=k, bounds='every %d by %d matrix, every message' % (k, n))
for o, ns, pr in ((1, 10, 1), (2, 8, 1)): unit('C29', 'osd127-64-o%d' % o, 'osd.cc', tt=ns, time=300, reach=['decoded'], cost=5, MODE=0, N_=127, K_=64, O_=o, L_=1, BCH_=BCH['127-64'][4], TIES=0, PROFILES=pr, P0=0, NSYM=ns, MERGE_=1, bounds='BCH(127,64), order %d, one profile, every choice of the %d least reliable signs' % (o, ns))
prop('C02', 'Prime field arithmetic against modular arithmetic.')
for P, bits, ty in ((3, 2, 'uint32_t'), (5, 3, 'uint64_t'), (13, 4, 'uint32_t'), (127, 7, 'uint32_t'), (251, 8, 'uint64_t'), (257, 9, 'uint32_t')):
    unit('C02', 'p%d' % P, 'pf.cc', tt=18, time=300, cost=3, reach=['ring', 'division'], P_=P, TYPE_=ty, BITS_=bits, BSYM=1, BSYM_N=1, MSYM=0, bounds='modulo %d, every pair of operands' % P)
for P, bits, ty in ((13, 4, 'uint32_t'), (257, 9, 'uint32_t')): unit('C02', 'pow%d' % P, 'pf.cc', tt=18, time=300, reach=['ring', 'division'], P_=P, TYPE_=ty, BITS_=bits, BSYM=0, BSYM_N=4, MSYM=1, bounds='modulo %d, every operand, exponents below 64' % P)
for P, bits, ty in ((65537, 17, 'uint64_t'), (65521, 16, 'uint32_t')): unit('C02', 'p%d' % P, 'pf.cc', tt=18, time=300, cost=3, reach=['ring', 'division'], P_=P, TYPE_=ty, BITS_=bits, BSYM=0, BSYM_N=20, MSYM=0, bounds='modulo %d, every first operand, 20 second operands' % P)
prop('C09', 'Cauchy Reed-Solomon erasure coding: round trip.')
prop('C10', 'Cauchy prime field erasure coding: round trip.')
prop('C11', 'Bulk multiply and accumulate: every path against the field product.')
F2 = dict(M_=2, POLY_='0b111', TYPE_='uint8_t'); F16 = dict(M_=16, POLY_='0b10001000000001011', TYPE_='uint16_t')
for t in ('avx2', 'sse', 'gen', 'neon'):
    S = 32 if t == 'avx2' else 16
    for f, fn in ((F8, '256'), (F16, '65536')):
        w = fn == '65536'
        for ln, offs, step, tier, bn in ((S, 1 if w else 2, 1, 'q', 2 if w else 12), (2 * S, 1 if w else 2, S // 2 if w else S, 'q', 1 if w else 6), (3 * S if t != 'avx2' else 64, 1, 1, 't' if w else 'q', 4), (S + 1, 1, 1, 't' if w else 'q', 4), (S - 1, 2, S, 't', 4), (3, 1, 1, 'q', 3), (0, 1, 1, 'q', 1), (S, 2, 1, 't', 12)):
            if t == 'gen' and w and ln >= S: tier = 't'
            unit('C11', '%s-%s-len%d%s' % (fn, t, ln, '-step%d' % step if offs > 1 else ''), 'crs.cc', target=t, tier=tier, tt=16, time=300, cost=5 if w else 1, reach=['done'], MODE=0, LENS=ln, OFFS=offs, STEP_=step, BSYM=0, BN=bn, bounds='GF(%s), %s code, %d elements, %d multipliers, every content%s' % (fn, t, ln, bn, ', aligned and not' if offs > 1 else ''), **f)
    unit('C11', '256-%s-anyb' % t, 'crs.cc', target=t, tt=16, time=200, reach=['done'], MODE=0, LENS=S, OFFS=1, STEP_=0, BSYM=1, BN=1, bounds='GF(256), %s code, every multiplier, every content' % t, **F8)
for f, fn in ((F4, '16'), (F2, '4')): unit('C11', '%s-gen' % fn, 'crs.cc', tt=16, time=200, reach=['done'], MODE=0, LENS=5, OFFS=1, STEP_=0, BSYM=1, BN=1, bounds='GF(%s), every multiplier, every content' % fn, **f)
def crs(f, fn, n, ln, ids=6, mode=1, symb=0, api=0, order=0, target='avx2', tier='q', tt=16, **kw):
    unit('C09', '%s-n%d-len%d%s%s%s%s' % (fn, n, ln, '-anyid' if mode == 2 else '', '-api%d' % api if api else '', '' if not order else '-rev', '' if target == 'avx2' else '-' + target), 'crs.cc', target=target, tier=tier, tt=tt, time=300, cost=3 if n > 4 else 1, reach=['recovered'], MODE=mode, CNT=n, LEN=ln, IDS=ids, SYMB=symb, API=api, ORDER=order,
        bounds='GF(%s), %d blocks of %d, %s' % (fn, n, ln, 'every set of distinct identifiers in every order, blocks of ones' if mode == 2 else '%d sets of identifiers, %s' % (ids, 'every content' if not symb else 'every content of every %dth block' % symb)), **dict(f, **kw))
crs(F2, '4', 1, 3, mode=2); crs(F2, '4', 2, 2, mode=2); crs(F3, '8', 2, 2, mode=2); crs(F3, '8', 3, 1, mode=2); crs(F3, '8', 4, 1, mode=2, order=1); crs(F4, '16', 2, 2, mode=2); crs(F4, '16', 3, 2, mode=2); crs(F4, '16', 4, 1, mode=2); crs(F8, '256', 1, 2, mode=2); crs(F8, '256', 2, 1, mode=2); crs(F8, '256', 2, 1, mode=2, order=1)
crs(F4, '16', 3, 5, ids=12); crs(F4, '16', 8, 2, ids=8); crs(F4, '16', 5, 3, ids=8, api=1); crs(F8, '256', 1, 3, ids=8, api=2); crs(F8, '256', 3, 5, ids=8, order=1); crs(F8, '256', 5, 2, ids=8, api=1); crs(F8, '256', 4, 32, ids=4, api=2); crs(F8, '256', 16, 1, ids=4); crs(F8, '256', 4, 32, ids=4, target='sse'); crs(F8, '256', 4, 16, ids=4, target='neon'); crs(F8, '256', 3, 3, ids=6, target='gen'); crs(F8, '256', 40, 1, ids=2, symb=20); crs(F8, '256', 128, 1, ids=1, symb=64, tier='t')
crs(F16, '65536', 1, 1, ids=3, api=1); crs(F16, '65536', 3, 2, ids=4, api=2, tt=17); crs(F16, '65536', 4, 1, ids=4, tt=17); crs(F16, '65536', 2, 32, ids=3, api=0)
def cpf(n, ln, nsym, ids=6, p0=0, fill=2, P=257, maxl=None, tier='q', tt=None):
    io, ty, b = ('uint8_t', 'uint32_t', 8) if P == 257 else ('uint16_t', 'uint64_t', 16)
    unit('C10', '%d-n%d-len%d-sym%d-fill%d' % (P, n, ln, nsym, fill), 'cpf.cc', tier=tier, tt=tt or max(16, nsym * b + 1), time=300, cost=3 if n > 4 else 1, reach=['recovered'], P_=P, TYPE_=ty, IO_=io, IOBITS=b, SYMBITS=8 if P == 257 else 5, MAXL=maxl or max(ln, 4), CNT=n, LEN=ln, IDS=ids, P0=p0, NSYM=nsym, FILL=fill, bounds='modulo %d, %d blocks of %d, %d sets of identifiers, %d consecutive values of any content%s' % (P, n, ln, ids, nsym, '' if P == 257 else ' of five of their bits'))
cpf(1, 1, 1, 8); cpf(1, 2, 2, 4); cpf(2, 1, 2, 8); cpf(3, 2, 1, 4); cpf(8, 3, 1, 3, fill=1); cpf(4, 40, 1, 1, fill=0); cpf(2, 3, 2, 3, fill=0); cpf(1, 20, 1, 5, fill=3); cpf(20, 1, 1, 2); cpf(60, 1, 1, 2, tier='t')
for n, ln, fill, ids in ((1, 1, 1, 3), (1, 2, 1, 3), (3, 1, 1, 3), (5, 3, 2, 1), (8, 1, 1, 1)): cpf(n, ln, 1, ids=ids, fill=fill, P=65537)
prop('C18', 'SIMD operations of every back end against scalar definitions.')
prop('C19', 'Rotation of vector elements.')
for t in ('avx2', 'sse', 'neon', 'gen'):
    for T in ('int8_t', 'int16_t', 'int32_t', 'int64_t', 'float', 'double'):
        fp = T[0] in 'fd'; d = dict(FP=1) if fp else {}
        for lo, hi, wn in ((1, 2, 'w12'), (3, 4, 'w34'), (5, 5, 'w5')): unit('C18', '%s-%s-%s' % (T.replace('_t', ''), t, wn), 'simd.cc', target=t, tier='q' if lo < 5 or t == 'gen' else 't', tt=None if fp else 16, ub=T != 'int64_t', time=300, cost=4 - lo // 2, reach=['compared'] + (['ordered'] if fp else []), T_=T, PART_=0, WLO=lo, WHI=hi, bounds='%s vectors of %s, %s back end, every content%s' % (T, {1: '16 and 32 bytes', 3: '48 and 64 bytes', 5: '3 elements'}[lo], t, '; arithmetic operators as uninterpreted functions' if fp else '; factors of 8 bits' if T[3] in '36' else ''), **d)
        unit('C18', '%s-%s-move' % (T.replace('_t', ''), t), 'simd.cc', target=t, tt=8, time=300, cost=1, reach=['shuffled'], T_=T, PART_=1, WLO=1, WHI=5, bounds='bit operations and shuffles of %s vectors of 16 to 64 bytes and 3 elements, %s back end' % (T, t), **d)
    for T, w in (('int8_t', 16), ('int8_t', 32), ('int8_t', 20), ('int8_t', 64), ('int16_t', 16), ('float', 8)): unit('C19', 'rot-%s-%d-%s' % (T.replace('_t', ''), w, t), 'simd.cc', target=t, tier='q' if w < 64 else 't', time=300, cost=w, reach=['rotated'], ROT=1, T_=T, W_=w, bounds='SIMD<%s, %d>, rotation of the first 1 to %d elements, every shift, every content, %s back end' % (T, w, w, t), **(dict(FP=1) if T == 'float' else {}))
