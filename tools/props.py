"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CB = 'function contracts on the real code, discharged by CBMC (SAT) from IR re-extracted on every run'
LP = 'function contracts and loop invariants on the real code, discharged by CBMC (SAT) from IR re-extracted on every run'
RE = 'function contracts on the real code, discharged over the reals (polynomial identities, z3 NRA) and bit-precisely by CBMC'
REAL = 'the property is an identity of real arithmetic that machine floats satisfy only up to rounding; the verifiers at hand decide floats bit-precisely, which does not scale past one or two multiplications, and no tool here reads the extracted code over the reals'
WHY = dict({c: REAL for c in 'C30 C31 C32 C33 C34 C35 C36'.split()},
    C14='not claimed: the compression function (80 rounds of 32-bit additions against a reference) was not brought within the reach of the SAT back end; C17 uses sha1 through its assumed contract',
    C37='not claimed: for_each hands its batches to worker threads through std::thread and std::condition_variable; no contract of the sequential part was built')
def prop(id, title, statement, qtext, why, files, mech, observe=(), over=('inputs',), na=None, note=None, level='proof', tech=CB):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why,
        files=[f if f.startswith('src/') else 'include/muu/' + f for f in files],
        mech=[dict(name=n, where=(w if w.startswith('src/') else 'include/muu/' + w)) for n, w in mech], observe=list(observe), na=na, note=note, level=level, tech=tech))

prop('C01', 'Bit-counting functions return the mathematical bit counts',
  'For every value of every unsigned integer type from 8 to 128 bits (and enums over them), countl_zero/countl_one/countr_zero/countr_one return the length of the leading/trailing run of zeros/ones (the full bit width when the value consists of that bit only) and popcount the number of set bits. bit_width, has_single_bit, bit_ceil (least power of two not below, where representable) and bit_floor (greatest power of two not above, 0 for 0) agree with those counts. The compile-time and run-time code paths give the same answers.',
  'every value of every supported width, on the compile-time and the run-time path',
  'tests sample a few hundred patterns per width; the naive and intrinsic paths branch on bit positions and the 128-bit forms stitch two halves together',
  ['countl.h', 'countr.h', 'popcount.h', 'bit_ceil.h', 'bit_floor.h', 'bit.h'],
  [('countl_zero / countl_one', 'countl.h'), ('countr_zero / countr_one', 'countr.h'), ('popcount', 'popcount.h'), ('bit_ceil', 'bit_ceil.h'), ('bit_floor', 'bit_floor.h')],
  ['return values'])
prop('C02', 'bit_fill, byte_select and swizzle follow their bit-level definition',
  'bit_fill_right<T>(n) has exactly the n least significant bits set and bit_fill_left<T>(n) exactly the n most significant ones, saturating at all bits for larger n. byte_select(v, i) is byte i of v counted from the least significant end, and zero for every i not less than the size of v. swizzle<I...>(v) is the integer whose bytes, most significant first, are the selected bytes of v.',
  'every value, width, count and index', 'tests use a handful of counts and in-range indices; the limits are where shifts become undefined',
  ['bit_fill.h', 'bit.h'], [('bit_fill_left / bit_fill_right', 'bit_fill.h'), ('byte_select / swizzle', 'bit.h')], ['return values'])
prop('C03', 'bit_pack and byte_reverse are exact and lossless',
  'bit_pack concatenates its arguments with the first one most significant, so every argument can be read back unchanged from its position whatever the signedness of the types. byte_reverse reverses the order of the bytes and nothing else, on the compile-time and run-time path alike, so that applying it twice is the identity.',
  'every value and combination of operand widths and signedness', 'tests use fixed constants', ['bit_pack.h', 'byte_reverse.h'],
  [('bit_pack', 'bit_pack.h'), ('byte_reverse', 'byte_reverse.h')], ['return values'])
prop('C05', 'half converts, compares and classifies as IEEE binary16',
  'Converting a half to float or double is exact for every one of the 65536 bit patterns, and converting a float to half rounds to nearest, ties to even, overflowing to infinity and keeping NaN a NaN. Comparisons, negation and infinity/NaN classification agree with the float values; +, -, *, / and the math functions taking halfs equal the float operation of the arguments in the same order, rounded to half.',
  'every bit pattern of half and float', 'tests sample some values; rounding ties, denormals, overflow and NaN payloads are rarely hit', ['half.h'],
  [('conversions', 'half.h'), ('operators', 'half.h')], ['bit patterns of results'])
prop('C06', 'The UTF-8 decoder accepts exactly the well-formed sequences',
  'Feeding the decoder the UTF-8 form of any Unicode scalar value, one byte at a time, reports that code point (has_value(), value()) exactly after the last byte, needs_more_input() before it, and no error, from any state in which a new sequence may begin. A byte that cannot continue any well-formed sequence (stray or missing continuation, invalid lead byte) is reported as an error at that byte, and error states are sticky.',
  'every byte sequence', 'tests decode a few strings; four-byte inputs alone have 2^32 values', ['utf8_decoder.h'], [('utf8_decoder::operator()', 'utf8_decoder.h')], ['error(), has_code_point(), codepoint()'], over=('inputs', 'histories'))
prop('C07', 'The UTF-16 decoder combines surrogate pairs and rejects lone surrogates',
  'A code unit outside the surrogate range is reported as that code point (has_value(), value()); a high surrogate needs_more_input() and, followed by a low surrogate, is reported, after the second unit and not before, as the supplementary code point the pair denotes. A low surrogate with no preceding high one, or a high surrogate not followed by a low one, is an error.',
  'every sequence of code units', 'tests use few supplementary characters', ['utf16_decoder.h'], [('utf16_decoder::operator()', 'utf16_decoder.h')], ['error(), has_code_point(), codepoint()'], over=('inputs', 'histories'))
prop('C08', 'Encoding a code point and decoding it back is the identity in every encoding',
  'Every Unicode scalar value encoded as UTF-8, UTF-16 or UTF-32 by transcoding is the unique shortest form the Unicode standard assigns, and decoding it returns that value and nothing else. Transcoding a well-formed platform-endian string without byte-order mark, embedded NULs included, therefore preserves its sequence of code points.',
  'every code point, every encoding pair', 'tests use some BMP strings', ['strings.h', 'utf_decode.h', 'utf8_decoder.h', 'utf16_decoder.h'], [('utf_encode / transcode', 'strings.h'), ('utf_decode', 'utf_decode.h')], ['code units produced, code points visited'], level='other', tech='contracts on the real code for every string of each bounded length, discharged by CBMC (SAT) from IR re-extracted on every run')
prop('C09', 'Decoding visits every code point of a string once, in order, both directions',
  'Walking a string with utf_decode calls the visitor once per code point in order, with the position and length of its code units, so that the visited ranges partition the string; units that belong to no well-formed sequence are visited one by one. The reverse walk visits the same code points of a well-formed string in the opposite order. A leading byte-order mark decides the byte order and is not visited; UTF-16/32 text without one is read in platform order unless units with a zero low byte outnumber units with a zero high byte. Memory outside the string is never read, and the walk stops when the visitor returns false.',
  'every string (proved for every string up to the stated length)', 'tests walk a few fixed strings', ['utf_decode.h'], [('utf_decode', 'utf_decode.h')], ['sequence of visitor calls'], level='other', tech='contracts on the real code for every string of each bounded length, discharged by CBMC (SAT) from IR re-extracted on every run')
prop('C10', 'trim removes exactly the leading and trailing whitespace',
  'trim_left, trim_right and trim return the sub-view that starts at the first and/or ends at the last non-whitespace code point, an all-whitespace or empty string becoming empty. The result is always a sub-range of the argument and no non-whitespace code point of a well-formed platform-endian string is lost.',
  'every well-formed string up to the stated length', 'tests use a few fixed strings', ['strings.h', 'utf_decode.h'], [('trim / trim_left / trim_right', 'strings.h')], ['returned views'], level='other', tech='contracts on the real code for every string of each bounded length, discharged by CBMC (SAT) from IR re-extracted on every run')
prop('C11', 'Code-point classification agrees across all character types',
  'For every code point that is not a surrogate, the predicates is_code_point, is_whitespace, is_letter, is_lowercase, is_uppercase, is_number, is_decimal_digit, is_hexadecimal_digit, is_octal_digit, is_hyphen, is_combining_mark, is_code_point_boundary, their is_ascii_*/is_non_ascii_*/is_not_* forms give the same answer for every character type able to represent it; the ascii and non-ascii forms split the general one and the not-forms negate it. On ASCII they equal the standard ASCII classes. No code point leads to undefined behaviour.',
  'every code unit value of every character type', 'tests check hand-written ranges per type', ['chars.h', 'impl/unicode_char32_t.h', 'impl/unicode_char16_t.h', 'impl/unicode_char.h'], [('classification functions', 'chars.h'), ('generated tables', 'impl/unicode_char32_t.h')], ['boolean results'])
prop('C12', 'Hexadecimal digits convert exactly',
  'For every hexadecimal digit character of every character type, hex_to_dec returns its value, upper and lower case alike; dec_to_hex and byte_to_hex produce the digits of a value, so that a byte written as two hexadecimal digits and read back is unchanged.',
  'every digit, every character type', 'tests cover some characters', ['chars.h', 'strings.h'], [('hex_to_dec', 'chars.h')], ['return values'])
prop('C13', 'FNV-1a hashing is byte-wise, length-independent and standard',
  'The 32-, 64- and 128-bit FNV-1a hash of any byte sequence of any length is the standard recurrence (xor byte, multiply by prime, from the standard offset basis), so hashing in pieces equals hashing at once. Byte strings hash exactly their bytes, and wide, UTF-16 and UTF-32 strings hash as the UTF-8 form of their text.',
  'every input of every length', 'tests hash a few strings', ['hashing.h'], [('fnv1a', 'hashing.h')], ['hash values'], tech=LP)
prop('C14', 'sha1 computes the SHA-1 of its input however it is fed',
  'For every message, however it is split across update calls, the digest equals the FIPS 180-4 SHA-1 of the message: each 64-byte block is absorbed exactly once by the standard compression function and the final padding carries the exact bit length. finish() is idempotent and a finished hasher is not changed by further reads.',
  'every message and every split into calls', 'tests hash a few short messages; block-boundary splits and the length counter need specific sizes', ['hashing.h', 'src/hashing.cpp'], [('sha1::process / add / finish', 'src/hashing.cpp')], ['digest value'], over=('inputs', 'histories'))
prop('C15', 'uuid bytes, fields and ordering follow RFC 4122',
  'A uuid built from bytes, from high/low words, or from its time/clock/node fields has exactly the RFC 4122 big-endian byte layout, and each accessor (fields, version, variant, is_null, operator bool) reads the bits the layout assigns to it. Equality holds exactly when all 16 bytes are equal and ordering is the lexicographic order of the bytes (a strict total order).',
  'every 128-bit value', 'tests use a few constants', ['uuid.h'], [('uuid constructors and accessors', 'uuid.h')], ['bytes, field values, comparison results'])
prop('C16', 'uuid text parses and prints losslessly, rejecting malformed text',
  'Every text made of 32 hexadecimal digits of either case, with optional white space or hyphens between bytes and an optional pair of enclosing braces (white space outside and just inside them), parses to exactly those 16 bytes, and printing any uuid gives the canonical 8-4-4-4-12 upper-case form which parses back to the same value. Text with a missing, extra or non-hexadecimal character, a split byte or an unbalanced brace is rejected, and nothing is read out of bounds.',
  'every string; every uuid', 'tests use fixed strings', ['uuid.h', 'src/uuid.cpp'], [('uuid::parse', 'uuid.h'), ('operator<<', 'src/uuid.cpp')], ['parse results, printed text'])
prop('C17', 'Generated uuids carry the right version and variant bits',
  'uuid::generate() returns a non-null uuid with version 4 and the DCE variant for whatever entropy the system supplies. A named (version 5) uuid is the SHA-1 of the namespace bytes followed by the name bytes, truncated to 16 bytes, with version 5 and the DCE variant set.',
  'every value the entropy source can return; every namespace and name', 'a test sees a few random draws', ['uuid.h', 'src/uuid.cpp'], [('uuid::generate', 'src/uuid.cpp'), ('named uuid constructor', 'src/uuid.cpp')], ['bytes of the uuid'])
prop('C18', 'tagged_ptr keeps pointer and tag apart',
  'For every correctly aligned pointer and every tag value, the pointer read back equals the pointer stored and the tag read back equals the tag stored; changing the pointer never changes the tag and changing the tag, or one of its bits, never changes the pointer or another bit. Equality, conversion to bool and dereferencing depend on the pointer as documented.',
  'every pointer value, tag value, tag type and alignment', 'tests use a few addresses and tags', ['tagged_ptr.h'], [('tagged_ptr', 'tagged_ptr.h')], ['ptr(), tag(), tag_bit()'], over=('inputs', 'histories'))
prop('C19', 'Alignment helpers and aligned allocation honour the requested alignment',
  'apply_alignment(x) is the least multiple of the alignment not below x, for integers and sizes, and is_aligned-style checks agree. For a non-zero size and a power-of-two alignment, aligned_alloc returns null or memory at an address that is a multiple of the requested alignment, of which all requested bytes can be used and which aligned_free releases exactly once.',
  'every value, size and power-of-two alignment', 'tests try a few sizes', ['apply_alignment.h', 'aligned_alloc.h'], [('apply_alignment', 'apply_alignment.h'), ('aligned_alloc / aligned_free', 'aligned_alloc.h')], ['returned values and addresses'])
prop('C20', 'blob owns its bytes: copies are equal and independent, moves lose nothing',
  'A blob constructed or assigned from bytes holds exactly those bytes at its requested alignment; copying gives an equal, independent blob and moving transfers the content and leaves the source empty. assign and resize keep the common prefix where documented, size/alignment queries stay consistent, comparison is by content, and no operation leaks, double-frees or reads outside the allocation.',
  'every content and sequence of operations up to the stated size', 'tests use small fixed blobs', ['blob.h'], [('blob', 'blob.h')], ['size(), data(), alignment(), contents'], over=('inputs', 'histories'))
prop('C21', 'emplacement_array constructs and destroys every element exactly once',
  'Every element emplaced is constructed once, is found at its index unchanged afterwards, and is destroyed exactly once, by clear, move-assignment or destruction; size and capacity are exact and elements never move. Moving an array transfers all elements and leaves the source empty.',
  'every sequence of operations up to the stated capacity', 'tests run one scenario', ['emplacement_array.h'], [('emplacement_array', 'emplacement_array.h')], ['element values, construction and destruction counts'], over=('inputs', 'histories'), level='other', tech='contracts on the real code for every history up to the stated bound, discharged by CBMC (SAT) from IR re-extracted on every run')
prop('C22', 'span views refer to exactly the requested sub-range',
  'first, last, subspan, iteration, indexing, front/back and reverse iteration of a span of any length refer to exactly the elements their arguments denote and never outside the viewed range; size and size_bytes are exact. The byte views cover exactly the bytes of the elements, and building or converting a span from an array, std::array, iterators or another span denotes the same elements.',
  'every length, offset and count', 'tests use small fixed arrays', ['span.h'], [('span', 'span.h')], ['data(), size(), elements'])
prop('C23', 'fixed_string operations are exact and always null-terminated',
  'Construction, copying, concatenation, substr, slice and conversion to a view of a fixed_string keep the characters exactly (truncating or padding with nulls where the length differs), never touch anything outside the string and always leave a terminating null after the last character. Comparison operators equal the lexicographic comparison of the corresponding string_views.',
  'every content up to the stated capacity', 'tests use constants', ['fixed_string.h'], [('fixed_string', 'fixed_string.h')], ['length(), characters, comparison results'])
prop('C24', 'string_param yields the characters it was built from and owns what it must',
  'A string_param built from any supported string type visits or converts to exactly those characters, in any requested encoding for well-formed text. Copy and move keep the content, owned buffers are released exactly once, and a moved-from or empty parameter behaves as an empty string.',
  'every content and sequence of operations up to the stated length', 'tests use constants', ['string_param.h', 'src/string_param.cpp'], [('string_param', 'src/string_param.cpp')], ['visited characters'], over=('inputs', 'histories'), level='other', tech='contracts on the real code for every history up to the stated bound, discharged by CBMC (SAT) from IR re-extracted on every run')
prop('C25', 'integral_range enumerates exactly the integers of its interval',
  'For a <= b the range [a, b) contains exactly the integers (or addresses) from a up to b exclusive: iterating visits each once in order, size() is their number, empty(), first(), last() and contains() agree with the enumeration, and adjacency, intersection, union, equality and iterator arithmetic, difference and comparison are consistent with it. This holds at the limits of the value type too.',
  'every pair of bounds of every integer type', 'tests use small ranges', ['integral_range.h'], [('integral_range / integral_range_iterator', 'integral_range.h')], ['visited values, size(), contains()'])
prop('C26', 'accumulator reports the true count, sum, minimum and maximum of its samples',
  'After adding any sequence of samples, one by one, as ranges, or by merging accumulators, sample_count, sum, min and max are those of all the samples in the sequence (the sum as long as the sum type can represent it); an empty accumulator contributes nothing.',
  'every sequence of samples', 'tests use a short list', ['accumulator.h'], [('accumulator::add', 'accumulator.h')], ['sample_count(), sum(), min(), max()'], over=('inputs', 'histories'))
prop('C27', 'scope guards run their action exactly once, when they should',
  'A scope guard runs its action exactly once at scope exit on every path unless dismissed, and not at all if dismissed. on_success/on_failure guards run exactly in their respective kind of exit.',
  'every path and sequence of dismissals', 'tests run one path each', ['scope_guard.h'], [('scope_guard and variants', 'scope_guard.h')], ['number of action calls'], over=('inputs', 'histories'))
prop('C28', 'function_view, compressed_pair and strong typedefs are transparent',
  'Calling a function_view calls the referenced function or callable with the same arguments and returns its result, for plain functions, function pointers and stateful callables; a default one is empty. compressed_pair stores and returns both members independently, empty types included, and strong typedef operators give the wrapped value the result of the underlying operator.',
  'every argument value', 'tests use a few calls', ['function_view.h', 'compressed_pair.h', 'strong_typedef.h'], [('function_view', 'function_view.h'), ('compressed_pair', 'compressed_pair.h')], ['return values'])
prop('C29', 'min, max, clamp and between are exact for every arithmetic type',
  'min and max of any number of arguments return a value equal to an argument and not greater/less than any of them; clamp(v, lo, hi) is v limited to [lo, hi] for lo <= hi; between reports lo <= v <= hi. For integers, halfs and floats that are not NaN this holds for every value; between with a value of one integer type and bounds of another compares them as mathematical integers whatever their signedness.',
  'every argument value', 'tests use some constants', ['math.h'], [('min / max / clamp / between', 'math.h')], ['return values'])
prop('C30', 'Scalar math helpers satisfy their defining identities',
  'abs, sign, floor, ceil, lerp, approx_equal/approx_zero, infinity_or_nan, normalize_angle and the degree/radian conversions satisfy their definitions: the emulated and the run-time form agree, floor(x) <= x <= ceil(x) with the nearest integers, lerp is s + (f - s) * a, infinity_or_nan is true exactly for infinities and NaNs.',
  'every argument value (bit-precisely; real arithmetic for lerp)', 'tests use some constants', ['math.h'], [('scalar functions', 'math.h')], ['return values'], tech=RE)
prop('C31', 'Vector operations are componentwise and satisfy vector algebra',
  'For every dimension and component type, vector arithmetic, comparison, indexing, min/max/clamp and lerp act componentwise, dot, cross, length, distance, normalize, direction and angle satisfy their algebraic definitions, and compound forms equal the binary ones. Equality is componentwise and zero, infinity_or_nan and approx tests look at every component.',
  'every component value (machine arithmetic read as real arithmetic for the algebraic identities; bit-precise otherwise)', 'tests use random and constant samples with tolerances', ['vector.h', 'impl/vector_base.h'], [('vector', 'vector.h')], ['component values'], tech=RE)
prop('C32', 'Matrix product, transpose, determinant and inverse satisfy matrix algebra',
  'For every supported shape and storage order, the product is the row-by-column sum of products and is associative with matrix-vector products, transpose swaps indices, the determinant is the alternating sum over permutations, and for an invertible matrix M, inverse(M) times M is the identity. Translation, scale, rotation constructors act on points as documented.',
  'every component value, machine arithmetic read as real arithmetic', 'tests use a few constant matrices', ['matrix.h', 'impl/matrix_base.h'], [('matrix', 'matrix.h')], ['component values'], tech=RE)
prop('C33', 'Quaternion, axis-angle and Euler rotations denote the same rotation',
  'Quaternion multiplication composes rotations: rotating a vector by a*b equals rotating by b then a, preserving length for unit quaternions; conjugate and inverse undo a rotation. Conversion between quaternion, rotation matrix, axis-angle and Euler angles denotes the same rotation.',
  'every component value, machine arithmetic read as real arithmetic', 'tests use a few constants', ['quaternion.h', 'euler_angles.h', 'axis_angle.h', 'impl/quaternion_x_matrix.h'], [('quaternion', 'quaternion.h')], ['component values'], tech=RE)
prop('C34', 'packed_unit_vector unpacks to the direction that was packed',
  'Packing a unit vector and unpacking it gives a unit vector within the quantisation error of the original, for every direction and every octant, and packing stays within the bit fields of the packed integer.',
  'every direction', 'tests sample directions', ['packed_unit_vector.h'], [('packed_unit_vector', 'packed_unit_vector.h')], ['unpacked vectors'], tech=RE)
prop('C35', 'Boxes and spheres answer containment, intersection and merging consistently',
  'A bounding box or sphere contains a point exactly when the point lies in the closed region it denotes, corners and extents agree with centre and extents, merging gives the least box (a sphere) containing both arguments, and pairwise intersection tests return true exactly when the closed regions share a point. Containment of one shape in another holds exactly when every point of it is contained.',
  'every position and size, machine arithmetic read as real arithmetic', 'tests use a few placements', ['bounding_box.h', 'bounding_sphere.h', 'oriented_bounding_box.h'], [('contains / intersects / merge', 'bounding_box.h')], ['boolean results, merged shapes'], tech=RE)
prop('C36', 'Planes, segments, triangles and rays report true distances and hits',
  'Signed distance, projection, closest point, area, normal and centroid of planes, line segments and triangles satisfy their geometric definitions. A reported ray hit lies on the ray and on the surface hit, and a ray that meets the surface is reported as hitting it.',
  'every position, machine arithmetic read as real arithmetic', 'tests use a few placements', ['plane.h', 'line_segment.h', 'triangle.h', 'ray.h'], [('plane / line_segment / triangle / ray', 'ray.h')], ['distances, points, hits'], tech=RE)
prop('C37', 'thread_pool::for_each covers every element exactly once',
  'for_each over an integer range or a random-access range hands every index or element to the callback exactly once, whatever the number of workers, batch indices are below the worker count, and nothing outside the range is touched. Every enqueued task object is invoked once and destroyed once.',
  'every range and worker count (schedules are not covered)', 'tests use a few ranges on one machine', ['thread_pool.h', 'src/thread_pool.cpp'], [('for_each', 'thread_pool.h'), ('batch_size_generator', 'thread_pool.h'), ('thread_pool_task', 'thread_pool.h')], ['callback invocations'])
prop('C38', 'spin_mutex admits at most one owner',
  'lock returns only after this caller changed the mutex from free to held, try_lock returns true exactly when it did so and never waits, and unlock makes the mutex free; together these give mutual exclusion under every interleaving of threads.',
  'every interleaving, by per-operation contracts on the atomic flag', 'a test sees a few schedules', ['spin_mutex.h'], [('spin_mutex', 'spin_mutex.h')], ['who holds the mutex'], over=('schedules',))
prop('C39', 'thread_pool runs every task and wait() returns only when all have finished',
  'Under every schedule, every enqueued task runs exactly once, wait() returns only after every previously enqueued task has finished, and destruction waits for queued tasks; no schedule deadlocks.',
  'every schedule of workers and clients', 'tests run a few schedules', ['src/thread_pool.cpp'], [('worker threads and queues', 'src/thread_pool.cpp')], ['tasks run, order of wait() return'], over=('schedules',),
  na='the guarantee is about interleavings of std::thread, std::mutex and std::condition_variable; the sequential deductive verifier available for C++ here (CBMC over extracted IR) has no rely-guarantee or ownership logic for them, and liveness (no deadlock, wait() returns) is not a contract post-condition. The sequential parts are C37.')

def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=p['mech'], observe_at=p['observe'], hook_needed=None))) + '\n')
    have = set()
    for c in glob.glob(V + '/contracts/*.cpp'):
        for m in re.finditer(r'^//@ property (.*)$', open(c).read(), re.M): have |= set(m.group(1).split())
    checks = []; nas = []
    for p in P:
        assert len(p['title']) <= 80, p['title']
        if p['id'] in have and not p['na']:
            checks.append(dict(property=p['id'], quick_cmd='python3 vp/run.py %s' % p['id'], thorough_cmd='python3 vp/run.py %s --tier thorough' % p['id'],
                evidence_file='evidence/%s.json' % p['id'], technique=p['tech'], level=p['level'], level_note=p['note'] or NOTE))
        else:
            nas.append(dict(property=p['id'], reason=p['na'] or WHY[p['id']]))
    json.dump(dict(version=1, setup_cmd='python3 vp/setup.py', checks=checks, not_applicable=nas,
        notes='No hooks are needed in /repo: contracts live beside the code in /verif/contracts and the real functions are compiled from /repo on every run.'), open(V + '/MANIFEST.json', 'w'), indent=1)
NOTE = 'Each post-condition is an obligation over all inputs of the real functions as compiled from the current tree; entries labelled bounded in the evidence are bounded and not counted as proved. Trusts clang (front end), the IR-to-C translation in vp/, and the solver; assumes allocation succeeds and no exceptions.'
main()
