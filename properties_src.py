prop('C01', 'Finite-field arithmetic is arithmetic in GF(2^M)',
 'For every supported field and all operands, each operator on values and indices (addition, multiplication, division, reciprocal, conversion between value and index, fused multiply-add, mixed forms) returns the element that polynomial arithmetic modulo the field polynomial defines. Zero and the index representation round-trip exactly.',
 ['inputs', 'configurations'], 'all operand values, fields GF(2^2) to GF(2^8) and GF(2^16)', 'gf_test walks samples and prints; wide fields have 2^32 operand pairs and the table construction is used by every codec',
 ['galois_field.hh'], [('log/exp tables', 'galois_field.hh Tables'), ('operator overloads', 'galois_field.hh')], ['return values of the operators'],
 'all operand values of the listed fields; 2^16 fields through the exponent representation')
prop('C03', 'Reed-Solomon encoder produces code words',
 'For every data word of any supported length the systematic encoder appends parity such that the code polynomial vanishes at every consecutive root of the generator. The data are left untouched and nothing is written outside the parity array.',
 ['inputs', 'configurations'], 'all data words; full and shortened lengths', 'tests encode a handful of fixed or random words',
 ['reed_solomon_encoder.hh', 'galois_field.hh'], [('generator construction', 'reed_solomon_encoder.hh constructor'), ('division by the generator', 'reed_solomon_encoder.hh operator()')], ['parity array'],
 'GF(16) all lengths, GF(256) with 8 and 32 parity symbols; the longest lengths with every eighth / 56th symbol symbolic')
prop('C04', 'Reed-Solomon decoder corrects everything within its capability',
 'Whatever code word was sent and whichever symbols were changed, if twice the number of errors plus the number of announced erasures does not exceed the number of parity symbols, the decoder restores data and parity exactly. It returns the number of symbols it changed.',
 ['inputs', 'configurations'], 'all data words, all error/erasure positions and magnitudes within capability, full and shortened codes', 'the number of error patterns is astronomical; tests sample a few hundred',
 ['reed_solomon_decoder.hh', 'reed_solomon_error_correction.hh', 'galois_field.hh'], [('Berlekamp-Massey', 'reed_solomon_error_correction.hh BerlekampMassey'), ('root search', 'LocationFinder, Chien, ArtinSchreier'), ('Forney', 'Forney')], ['data, parity, return value'],
 'GF(8) with 3, 4, 6 parity symbols (errors, erasures and mixes), GF(16) and GF(32) with 4 parity symbols, GF(256) shortened with one error or two erasures; positions by path, data and magnitudes symbolic')
prop('C05', 'Reed-Solomon decoder never passes off a non-code-word as corrected',
 'For every received word and erasure list the decoder either reports failure and leaves the word as received, or it leaves a code word in the buffers and returns the number of symbols that differ from the received word. It never reads or writes outside its arguments.',
 ['inputs'], 'every received word, including those beyond the correction capability', 'random tests practically never produce the degenerate syndromes at which a decoder is dishonest',
 ['reed_solomon_decoder.hh', 'reed_solomon_error_correction.hh'], [('degree checks on locator', 'ReedSolomonErrorCorrection::operator()'), ('count and location checks', 'reed_solomon_decoder.hh')], ['data, parity, return value'],
 'GF(8) with 2 to 4 parity symbols and up to two erasures, GF(16) with 2 and 3 parity symbols, full and shortened; received words = any code word plus any change of the parity symbols, which is every word')
prop('C06', 'BCH encoder produces code words',
 'For every data word of any supported bit length the BCH encoder appends parity bits such that the code polynomial is divisible by every given minimal polynomial. The data bits and every bit beyond the parity length are left untouched.',
 ['inputs', 'configurations'], 'all data words; full and shortened lengths; 13 codes', 'tests encode random words for two or three codes',
 ['bose_chaudhuri_hocquenghem_encoder.hh', 'bitman.hh', 'galois_field.hh'], [('generator polynomial', 'bose_chaudhuri_hocquenghem_encoder.hh constructor'), ('bitwise division', 'bose_chaudhuri_hocquenghem_encoder.hh operator()')], ['parity bits'],
 'codes of length 7 to 255; for (127,64) and (255,131) every third data byte symbolic')
prop('C07', 'BCH decoder corrects everything within its capability',
 'Whatever code word was sent and whichever bits were changed, if twice the number of errors plus the number of announced erasures does not exceed the number of roots, the BCH decoder restores data and parity exactly. It returns the number of bits it changed.',
 ['inputs', 'configurations'], 'all data words, all error/erasure positions within capability for the short codes, arithmetic progressions of positions for the longer ones', 'tests sample a few hundred error patterns; erasures with mixed errors hardly occur',
 ['bose_chaudhuri_hocquenghem_decoder.hh', 'reed_solomon_error_correction.hh'], [('syndromes', 'bose_chaudhuri_hocquenghem_decoder.hh compute_syndromes'), ('error correction', 'reed_solomon_error_correction.hh'), ('bit flips', 'bose_chaudhuri_hocquenghem_decoder.hh operator()')], ['data, parity, return value'],
 'codes of length 7 to 63 with symbolic data; (127,64) and (255,131) with one data word and strided positions')
prop('C08', 'BCH decoder never passes off a non-code-word as corrected',
 'For every received word and erasure list the BCH decoder either reports failure and leaves the word as received, or it leaves a code word in the buffers and returns the number of bits that differ from the received word.',
 ['inputs'], 'every received word of the listed codes', 'random tests do not reach the degenerate syndromes at which a decoder is dishonest',
 ['bose_chaudhuri_hocquenghem_decoder.hh', 'reed_solomon_error_correction.hh'], [('magnitude and location checks', 'bose_chaudhuri_hocquenghem_decoder.hh operator()')], ['data, parity, return value'],
 'codes of length 7 and 15, full and shortened, up to two erasures; (31,21) shortened to 6 data bits')
prop('C02', 'Prime field arithmetic is arithmetic modulo the prime',
 'For every supported prime and all operands, addition, subtraction, multiplication, division, reciprocal and power agree with arithmetic modulo the prime and return reduced values. The deferred forms (add, mul, sub without reduction) agree with them after reduction.',
 ['inputs', 'configurations'], 'all operand pairs for primes up to 257; every first operand with sampled second operands for 65521 and 65537', 'tests only use the field through the erasure code, where a wrong corner value surfaces rarely',
 ['prime_field.hh'], [('reduction', 'prime_field.hh reduce, operators'), ('reciprocal and power', 'prime_field.hh rcp, pow')], ['values of the operators'],
 'primes 3, 5, 13, 127, 251, 257, 65521, 65537')
prop('C09', 'Cauchy Reed-Solomon erasure coding recovers the data from any sufficient set of blocks',
 'Whatever the data, its block length and the distinct identifiers chosen, decoding any block_cnt encoded blocks returns each original block exactly, through every interface (block by block, all at once, memory or element arrays), for every vector back end. Nothing outside the output is written.',
 ['inputs', 'configurations'], 'every content; for small counts every set of distinct identifiers in every order; sampled identifier sets up to 40 blocks (128 in thorough)', 'tests use random identifiers and data of one geometry; remainders of the vector loop and block order are not covered',
 ['cauchy_reed_solomon_erasure_coding.hh', 'galois_field.hh'], [('inverse of the Cauchy matrix', 'cauchy_reed_solomon_erasure_coding.hh inverse_cauchy_matrix'), ('bulk multiplication', 'cauchy_reed_solomon_erasure_coding.hh multiply_accumulate')], ['decoded blocks'],
 'GF(4) to GF(256), GF(65536); 1 to 40 blocks of 1 to 32 elements; AVX2, SSE4.1, NEON and portable code')
prop('C10', 'Cauchy prime field erasure coding recovers the data from any sufficient set of blocks',
 'Whatever the data and the distinct identifiers chosen, decoding any block_cnt encoded blocks together with their substitute values returns each original block exactly. The substitute value never occurs as an ordinary value of its block, so the largest field element survives.',
 ['inputs', 'configurations'], 'every content of selected data values around contents that make the largest field element occur', 'the substituted element occurs once in 257 or 65537 values; tests hardly meet it together with full blocks',
 ['cauchy_prime_field_erasure_coding.hh', 'prime_field.hh'], [('substitution', 'cauchy_prime_field_erasure_coding.hh find_unused, encode, mac_sub'), ('deferred reduction', 'cauchy_prime_field_erasure_coding.hh mac, inverse_cauchy_matrix')], ['decoded blocks, substitute value'],
 'modulo 257 (1 to 20 blocks, 60 in thorough) and 65537 (1 to 8 blocks); one or two values symbolic, the others concrete patterns')
prop('C11', 'Bulk multiply and accumulate equals the field product on every path',
 'For every multiplier, every content, length and alignment, the bulk multiplication of the Cauchy Reed-Solomon coder sets or accumulates the field product at every element, on every vector back end and for the remainder handled by portable code, and touches nothing else.',
 ['inputs', 'configurations'], 'every content; every multiplier (one length) or up to 12 multipliers; lengths and offsets around the vector size', 'only the back end of the build machine is ever tested, with aligned data and lengths that are multiples of the vector',
 ['cauchy_reed_solomon_erasure_coding.hh', 'simd.hh', 'avx2.hh', 'sse4_1.hh', 'neon.hh', 'galois_field.hh'], [('nibble tables', 'cauchy_reed_solomon_erasure_coding.hh multiply_accumulate'), ('vshuf', 'simd.hh and back ends')], ['output array'],
 'GF(4), GF(16), GF(256), GF(65536); AVX2, SSE4.1, NEON and portable code; lengths 0 to 96')
prop('C12', 'CRC equals the bit-serial shift register',
 'For every polynomial, start value and sequence of operands of any supported width, the checksum equals that of the reflected shift register fed with the same bits, least significant bit first, little-endian bytes. A message followed by its checksum leaves a zero remainder.',
 ['inputs', 'histories'], 'all start values and operand contents, sequences of two operands in every mix of widths, listed polynomials (all 256 of the 8-bit register)', 'tests check a few strings; the mixes of operand widths are not exercised',
 ['crc.hh'], [('table', 'CRC constructor'), ('table step', 'CRC::operator()')], ['operator()() value'],
 '8/16/32/64-bit registers, listed polynomials, two operands')
prop('C13', 'Bitstream and bit manipulation address exactly the requested bits',
 'Every read returns the bits written last at those positions, in order, whatever the alignment and width; every write changes exactly the addressed bits and advances the position by exactly the number of bits. Nothing outside the buffer is touched.',
 ['inputs', 'histories'], 'any buffer content, every position, width, operation, pairs of operations', 'no test exercises the bit stream; bit manipulation only indirectly',
 ['bitstream.hh', 'bitman.hh'], [('masks and shifts', 'bitstream.hh'), ('bit order', 'bitman.hh')], ['buffer, position, read values'],
 'streams of 77 bits (one operation) and 19 bits (two operations), buffers of 5 bytes for single-bit helpers')
prop('C14', 'Pseudo random generators follow their recurrences',
 'The maximum length sequence register steps through multiplication by x modulo its polynomial for every polynomial and state, and its quality check reports bad exactly when the cycle does not visit every nonzero state once. The xorshift generators follow their published recurrences, start from the published seeds, and repeat after reset.',
 ['inputs', 'configurations'], 'every state; polynomials of degree 1..30 (step) and 1..6 (cycle check)', 'tests only run the check on known primitive polynomials',
 ['mls.hh', 'xorshift.hh'], [('register step', 'MLS::operator()'), ('cycle check', 'MLS::bad'), ('recurrences', 'xorshift.hh')], ['returned bits and words'],
 'degree up to 30 for steps, up to 6 for the cycle check; several steps of the generators from any state')
prop('C15', 'Interleavers and permutations are exact inverses',
 'Interleaving exchanges rows and columns and deinterleaving undoes it, for any contents; the shuffle is the same permutation for any contents and the reverse shuffle undoes it in either order; bit reversal moves each element to its bit-reversed index. Nothing outside the arrays is touched.',
 ['inputs', 'configurations'], 'any contents; 20 combinations of size, order and element type', 'no test exercises them',
 ['interleave.hh', 'permute.hh'], [('index maps', 'interleave.hh, permute.hh')], ['output arrays'], 'sizes up to 1000')
prop('C16', 'exclusive_reduce leaves out exactly one element',
 'For every commutative, associative operator and any input of length two or more, each output is the combination of all inputs except the one at its own position. The input is untouched and nothing outside the output is written.',
 ['inputs', 'configurations'], 'any contents, lengths 2..40, five operators', 'no test exercises it',
 ['exclusive_reduce.hh'], [('prefix and suffix passes', 'exclusive_reduce.hh')], ['output array'], 'lengths 2..24 (sum), 2..40 (xor), 2..8 (minimum, and, sign/minimum)')
prop('C17', 'Sorting sorts, keeps equal keys in order and loses nothing',
 'After each of the sorting routines the array holds a permutation of its former contents in ascending order of the comparison given or of the keys. The stable routines keep elements with equal keys in their former order, the index sort also returns the permutation applied. Nothing outside the array is touched.',
 ['inputs', 'configurations'], 'all contents and lengths within the listed bounds, every small-run threshold used', 'tests sort random data and check only order; stability, thresholds and every relative order of keys are not covered',
 ['sort.hh'], [('insertion sort', 'sort.hh InsertionSort'), ('merge sort', 'sort.hh MergeSort'), ('rank sort of vectors', 'sort.hh SIMD')], ['array and index array'],
 'up to 5 elements with any keys, up to 10 elements of 0/1 or ternary keys, longer arrays (to 66) with two keys of any value')
prop('C18', 'SIMD operations mean the same on every back end',
 'For all contents, every operation on every vector type and width (16 to 64 bytes, and widths without native support) computes lane by lane what its scalar definition says: bit operations, comparisons, minimum, maximum, clamping, saturating and wrapping arithmetic, absolute value, sign, selection, shuffles, conversions. AVX2, SSE4.1, NEON and the portable code agree.',
 ['inputs', 'configurations'], 'all lane contents; all element types; widths of 1 to 4 native registers', 'tests run on the back end of one machine and touch a few operations through the decoders',
 ['simd.hh', 'avx2.hh', 'avx2_double.hh', 'sse4_1.hh', 'sse4_1_double.hh', 'sse4_1_triple.hh', 'sse4_1_quadruple.hh', 'neon.hh', 'neon_double.hh', 'neon_triple.hh', 'neon_quadruple.hh'], [('portable definitions', 'simd.hh'), ('intrinsics', 'back end headers')], ['lanes of the result'],
 'int8 to int64, float, double; preconditions: shuffle indices in range, no NaN and no zeros of unlike sign for minimum, maximum and clamping, no overflow where the portable code forms a signed overflow; 32 and 64 bit products of factors of 8 significant bits; floating point arithmetic as uninterpreted functions')
prop('C19', 'Rotation moves every element cyclically',
 'For every width up to the vector size, every shift between minus the width and the width and any contents, the rotated vector holds each of the first elements moved cyclically by the shift within that width, and rotating back restores them. All back ends agree.',
 ['inputs', 'configurations'], 'all contents, all widths, all shifts', 'only exercised inside the LDPC decoder with the widths of its tables on one back end',
 ['rotate.hh', 'simd.hh'], [('generic rotation', 'rotate.hh Rotate'), ('index tables', 'rotate.hh specialisations')], ['first elements of the result'],
 'int8 vectors of 16, 20, 32 (64 in thorough), int16 of 16, float of 8 elements')
prop('C20', 'Hadamard codes: encoder and maximum correlation decoder',
 'The Hadamard encoder maps each K-bit message to the parities of the message with all columns having the top bit set. For every soft input word the decoder returns the message whose code word has the greatest correlation, and reports failure exactly when the greatest correlation is shared by several messages.',
 ['inputs', 'configurations'], 'all messages for K = 2..8; every soft input for K up to 4 (5 in the thorough tier), lines between two code words beyond', 'tests decode a few noisy words; ties and extreme values (-128) do not occur',
 ['hadamard_encoder.hh', 'hadamard_decoder.hh'], [('parity columns', 'hadamard_encoder.hh'), ('fast transform and search', 'hadamard_decoder.hh')], ['code word, returned message'],
 'every 8-bit soft value at every position for K = 2, 3, 4 (5 thorough), one free symbol for K = 5..8')
prop('C21', 'Simplex codes: encoder and maximum correlation decoder',
 'The simplex encoder maps each K-bit message to the parities of the message with all nonzero columns. For every soft input word the decoder returns the message whose code word has the greatest correlation, and reports failure exactly when the greatest correlation is shared by several messages.',
 ['inputs', 'configurations'], 'all messages for K = 2..8; every soft input for K up to 4 (5 in the thorough tier), lines between two code words beyond', 'tests decode a few noisy words; ties and extreme values (-128) do not occur',
 ['simplex_encoder.hh', 'simplex_decoder.hh'], [('parity columns', 'simplex_encoder.hh'), ('fast transform and search', 'simplex_decoder.hh')], ['code word, returned message'],
 'every 8-bit soft value at every position for K = 2, 3, 4 (5 thorough), one free symbol for K = 5..8')

prop('C22', 'Short BCH codes: encoder and bounded distance decoder',
 'The short BCH encoder appends to each message the parity bits that make the word a multiple of the generator polynomial, as integer and as vector of signs. For every received word the hard decoder either reports failure or returns a code word at distance of at most T; every pattern of at most T errors is corrected.',
 ['inputs', 'configurations'], 'all messages, every received word, every pattern of up to T errors', 'tests sample error patterns of a few codes',
 ['short_bch_code_encoder.hh', 'short_bch_code_decoder.hh'], [('division by the generator', 'ShortBCHCodeEncoder'), ('syndrome table', 'ShortBCHCodeDecoder constructor, operator()(int)')], ['returned word, vector of signs'],
 'eight codes from (7,3) to (31,16); for (31,16) up to two errors in the quick tier')
prop('C23', 'Short BCH codes: soft decoder',
 'For codes of at most four message bits the soft decoder returns the one code word of greatest correlation with the soft input and reports failure when several share it. For the larger codes it returns that code word whenever at most T errors of the hard decision lie outside the T least reliable positions; it never returns anything but a code word or failure.',
 ['inputs', 'configurations'], 'soft inputs: every choice of signs with two symbols of any magnitude (small codes); error patterns around code words at every cyclic position with one or two free symbols (larger codes)', 'tests decode noisy words and compare error rates only',
 ['short_bch_code_decoder.hh'], [('correlation and tie', 'ShortBCHCodeDecoder metric, update'), ('least reliable positions', 'ShortBCHCodeDecoder Chase part')], ['returned word'],
 'K <= 4: (7,3), (7,4), (8,4), (12,4); larger: (15,5), (15,7), (15,11), (23,12)')
prop('C29', 'Ordered statistics decoders find the best code word within their order',
 'For every generator matrix of full rank and every soft input, the ordered statistics decoder re-encodes the hard decision on the most reliable independent positions with up to O of them flipped, returns a code word of greatest correlation among these candidates, and reports true exactly when it is the only one. The list decoder returns the L best distinct candidates in order of correlation, ranked by distinct values.',
 ['inputs', 'configurations'], 'every choice of signs for profiles of magnitudes (distinct, tied, zero, extreme); order 0 to 6; codes from (3,1) to (127,64)', 'tests measure error rates of one code; ties, negative best metrics and codes needing column swaps do not occur or go unnoticed',
 ['osd.hh', 'sort.hh', 'bitman.hh'], [('most reliable basis', 'osd.hh row_echelon, systematic'), ('candidates and uniqueness', 'osd.hh operator() of OrderedStatisticsDecoder'), ('list and ranks', 'osd.hh OrderedStatisticsListDecoder update')], ['hard decision words, ranks, return value'],
 'up to 16 free signs, up to four profiles per code and order; magnitudes concrete')
prop('C30', 'Linear encoder and BCH generator matrices describe the code',
 'The generator polynomial is the product of the minimal polynomials. Every message encoded with the plain matrix is the message times that polynomial; with the systematic matrix it is the message followed by parity, divisible by that polynomial. The linear encoder multiplies any message by any matrix, touching only the N bits of the code word.',
 ['inputs', 'configurations'], 'every message (and every matrix for small sizes)', 'tests use one code and only the systematic form',
 ['osd.hh', 'bitman.hh'], [('generator matrix', 'osd.hh BoseChaudhuriHocquenghemGenerator'), ('encoding', 'osd.hh LinearEncoder')], ['polynomial, matrix, code word'],
 '13 codes from (7,4) to (127,64), lengths that are and are not multiples of eight; matrices up to 17 by 21')
HOW = {
'C18': 'lanes symbolic; the intrinsics are executed from the LLVM IR clang produces for each target (NEON cross compiled for AArch64); each lane against the scalar definition by normal form or SAT; floating point comparisons are decided on the bit patterns',
'C19': 'contents symbolic, width and shift by path; each element of the result must be the very symbol expected',
'C02': 'operands symbolic; each result compared with wide integer arithmetic modulo the prime; functions of up to 18 bits normalise to tables',
'C09': 'contents symbolic (identifiers by path or sampled); the recovered block must normalise to the original XOR form; for small fields identifiers run through all ordered sets',
'C10': 'selected values symbolic, everything else concrete; the decoded value as a table over the symbolic bits must be the identity',
'C11': 'contents symbolic, multipliers by path (one unit: symbolic); each output against carry-less multiplication in the harness; intrinsics are executed from the LLVM IR of each target, NEON by cross compilation',
'C29': 'signs symbolic, magnitudes from concrete profiles; the oracle computes the basis greedily and the correlation of every candidate as functions of the signs; comparisons merge into tables',
'C30': 'messages (and matrices) symbolic; polynomial product restated in the harness; both sides are XOR forms',
'C01': 'operands symbolic; every operator is compared with carry-less multiplication modulo the polynomial computed in the harness (small fields); wide fields: exponents symbolic, tables by construction loop',
'C03': 'all data symbols symbolic; parity is a vector of XOR forms; the syndromes computed by the harness (Horner over reference arithmetic) must be the constant zero',
'C04': 'code word of symbolic data, error/erasure positions by path, error values symbolic; final buffers compared with the code word; normal forms cancel the data, SAT decides the rest',
'C05': 'received word = any code word with any change of the parity symbols (this is every word); the result is compared with the syndromes and the received word',
'C06': 'all data bits symbolic; the reference divides by the product of the minimal polynomials; both sides are XOR forms',
'C07': 'code word of symbolic data, error/erasure positions by path, erasure contents symbolic; final buffers compared with the code word',
'C08': 'received word = any code word with any change of the parity bits (every word); result compared with syndromes and received word',
'C12': 'start value and operands symbolic, reference shift register bit by bit; both sides are XOR forms',
'C13': 'buffer contents and values symbolic, position and width by path; every bit of the buffer is compared with a model array',
'C14': 'state symbolic; the recurrences restated in the harness; bad() against the length of the cycle for every polynomial of small degree',
'C15': 'contents symbolic; output compared element by element with the index map',
'C16': 'contents symbolic; output compared with the fold over the other elements',
'C17': 'keys symbolic; sortedness, permutation (each output is exactly one input) and stability asserted; comparisons merge into ITE terms, SAT decides',
'C20': 'soft inputs symbolic; correlations computed directly in the harness; order abstraction decides the search for the maximum',
'C21': 'as C20',
'C22': 'message and change of the parity bits symbolic (every received word); remainder computed in the harness; error patterns by path with symbolic message',
'C23': 'signs by path, magnitudes symbolic, correlations of all code words computed in the harness; larger codes: words around a code word with symbolic symbols, least reliable positions computed independently',
}
