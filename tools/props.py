PROPS = []
NA = []


def P(**k):
    PROPS.append(k)


P(id='P01', title='Integers are written as their exact canonical text, or not at all',
  statement='Writing any integer of any width in base 2, 8, 10 or 16 returns the exact number of characters its canonical text needs (minus sign, radix prefix where the function adds one, no leading zeros). When the output buffer has that many characters they receive exactly that text and nothing else changes; when it does not, the same size is returned and no character outside the buffer is touched.',
  forall='every value of every 8/16/32/64-bit integer type, every buffer length including empty and null buffers, every initial buffer content',
  why='the tests sample some values near powers of the base with one buffer size each; exactness for every value and every (too small) buffer size is a universally quantified claim over 2^64 values',
  files=['src/c4/charconv.hpp'],
  mech=[('digit counting', 'charconv.hpp digits_dec/digits_hex/digits_oct/digits_bin'), ('digit writing', 'charconv.hpp write_*_unchecked, write_dec/hex/oct/bin'), ('sign and prefix', 'charconv.hpp itoa/utoa/xtoa, to_chars')])
P(id='P02', title='Zero-padded integers have exactly the requested digits',
  statement='Writing an integer with a minimum digit count returns the size of sign, prefix and max(requested, needed) digits, and fills a large enough buffer with exactly that text, left padded with zeros. With a too small buffer the needed size is still returned, and nothing outside the buffer is touched.',
  forall='every value of every integer type, every digit count from 0 to 2^62, every buffer length and content',
  why='digit count, value, radix and buffer length are four independent unbounded parameters; the tests use a few combinations with small counts',
  files=['src/c4/charconv.hpp'],
  mech=[('padding', 'charconv.hpp write_num_digits'), ('sign, prefix and padding', 'charconv.hpp itoa/utoa/xtoa(buf, v, radix, num_digits)')])
P(id='P03', title='Text is read as exactly the integer it denotes, or rejected',
  statement='Reading an integer from text succeeds exactly when the text is one complete numeral of an accepted base (with optional sign for signed types), and the value stored is the value the digits denote, modulo the width of the type. Anything else is rejected, and reading never looks outside the given text.',
  forall='every byte string of every length, every integer type, booleans, characters and pointers',
  why='the set of texts is infinite; the tests feed a fixed list of valid and invalid numerals',
  files=['src/c4/charconv.hpp', 'src/c4/substr.hpp'],
  mech=[('digit loops', 'charconv.hpp read_dec/read_hex/read_oct/read_bin'), ('sign and prefix dispatch', 'charconv.hpp atoi/atou/atox/from_chars')])
P(id='P05', title='Overflow detection is exact for every numeral',
  statement='For every well-formed numeral in base 2, 8, 10 or 16 the overflow query answers true exactly when the denoted number lies outside the range of the queried type. For any other text it terminates without reading outside the text.',
  forall='every numeral of any length (leading zeros included), all eight integer types',
  why='exactness at the boundary has to hold for each digit position and every amount of leading zeros; tests compare only a handful of numerals around the limits',
  files=['src/c4/charconv.hpp'],
  mech=[('overflow limits', 'charconv.hpp overflows<T>, detail::charconv_digits'), ('digit comparison', 'charconv.hpp detail::check_overflow')])
P(id='P06', title='Number recognition accepts exactly the written numbers',
  statement='The first integer span of a text is the longest prefix of its first non-blank word that is a numeral (decimal, or 0x/0o/0b with digits of that base, after an optional sign) ending at a delimiter or at the end of the word, and is empty when there is none. The is_integer, is_unsigned_integer, is_real and is_number queries accept exactly the texts that are wholly such a number.',
  forall='every byte string of every length',
  why='the texts are unbounded and the interesting ones differ in one character (a digit of the wrong base, a sign without digits, a trailing delimiter); the tests list a fixed set',
  files=['src/c4/substr.hpp'],
  mech=[('word search', 'substr.hpp first_non_empty_span'), ('integers', 'substr.hpp _first_integral_span, first_int_span, first_uint_span, is_integer, is_unsigned_integer'), ('reals', 'substr.hpp first_real_span, _first_real_span_*, is_real, is_number')],
  note='word search and integer spans proved; the real-number grammar and the whole-text queries are bounded (small sizes by the verifier, larger ones by running the contract)')
P(id='P07', title='Searching finds exactly the first or last match, and nothing is missed',
  statement='Each search (find, first_of, last_of, first_not_of, last_not_of, select, first_of_any) for a character, a set of characters or a pattern returns a position inside the requested range at which the match really occurs, with no match before it (after it for backward searches), and reports "not found" only when there is none. count returns the number of occurrences, without overlap.',
  forall='every string, pattern and character set of every length (empty and null included), every start position',
  why='absence of an earlier match is a statement about every position of an unbounded string; tests check a few literals',
  files=['src/c4/substr.hpp'],
  mech=[('character and set searches', 'substr.hpp first_of/last_of/first_not_of/last_not_of'), ('pattern searches', 'substr.hpp find, select, count, first_of_any')])
P(id='P08', title='String comparison is one consistent order',
  statement='Comparing two strings, or a string with a character or a literal, yields equality exactly for equal contents, and otherwise the order of the first differing character, a proper prefix coming first. All six operators in both argument orders agree with it, and prefix and suffix queries hold exactly when the characters match.',
  forall='every pair of strings of any length (empty and null included) and every character',
  why='ordering containers need the order to be total for all pairs; tests compare a fixed word list',
  files=['src/c4/substr.hpp'],
  mech=[('order', 'substr.hpp compare'), ('operators', 'substr.hpp operator== != < > <= >= and the free-function forms'), ('prefix and suffix', 'substr.hpp begins_with*, ends_with*')])
P(id='P09', title='A sub-view is exactly the documented part of its parent and never leaves it',
  statement='Sub-selection (sub, range, first, last, offs, left_of, right_of), trimming, stripping, unquoting and pair matching return exactly the documented characters of the parent string. Every call that the functions accept yields a view that lies inside the parent. The containment and overlap queries are exact.',
  forall='every string, every position and length argument (including npos and out-of-range values), every trim set and pattern',
  why='a single accepted argument with a view outside the parent is an out-of-bounds access later; tests use a few in-range positions',
  files=['src/c4/substr.hpp'],
  mech=[('sub-selection', 'substr.hpp sub/range/first/last/offs/left_of/right_of'), ('trimming', 'substr.hpp trim*, strip*, unquoted, pair_range*'), ('relations', 'substr.hpp is_sub/is_super/overlaps')])
P(id='P10', title='Splitting yields every piece once, and path parts recombine',
  statement='Iterating over the splits of a string visits exactly the maximal separator-free pieces in order, including empty ones, and then stops. pop_left/pop_right, gpop_left/gpop_right, basename, dirname and the extension functions return exactly the part before or after the relevant separator, with and without skipping of empty pieces.',
  forall='every string of every length, every separator character, every start position',
  why='the behaviour differs for leading, trailing and repeated separators at every position; tests use fixed paths',
  files=['src/c4/substr.hpp'],
  mech=[('splitting', 'substr.hpp next_split, split_proxy_impl'), ('pops', 'substr.hpp pop_left/pop_right/gpop_left/gpop_right'), ('paths', 'substr.hpp basename, dirname, extshort/extlong, name_wo_ext*')])
P(id='P11', title='In-place modification changes exactly the addressed characters',
  statement='fill, copy_from, toupper, tolower, reverse*, erase* and replace* leave the string with exactly the documented contents: the addressed characters get their new values and all others keep theirs. replace_all reports the exact size it needs, writes the full text when it fits, and never writes outside the destination.',
  forall='every string content and length, every position and length in range, every character value',
  why='frame conditions (nothing else changes) quantify over all other positions; tests compare a few literals',
  files=['src/c4/substr.hpp'],
  mech=[('copy, fill and case', 'substr.hpp copy_from, fill, toupper, tolower'), ('reversal and erasure', 'substr.hpp reverse*, erase*'), ('replacement', 'substr.hpp replace, replace_all')],
  note='replace and replace_all are bounded stand-ins; the rest is proved')

P(id='P12', title='Base64 and UTF-8 encoding follow their standards and stay inside the buffer',
  statement='Encoding any bytes as base64 returns the size of, and writes as far as the buffer reaches, exactly the RFC 4648 text with padding; nothing beyond that text or beyond the buffer changes. base64_valid accepts exactly the texts of whole quartets over the alphabet with padding only in the last one or two places. Decoding such a text returns the exact number of bytes and writes exactly the encoded bytes as far as the buffer reaches; any other text is rejected. A code point up to U+10FFFF is written as its UTF-8 bytes and their number is returned, any larger one writes nothing and returns 0; the same for a code point given as hexadecimal digits.',
  forall='every byte sequence, every text (valid or not), every buffer length, all 2^32 code points',
  why='tests round-trip a fixed list of pairs with ample buffers; all residues modulo 3, all byte values and all short buffers are universally quantified',
  files=['src/c4/base64.cpp', 'src/c4/base64.hpp', 'src/c4/utf.cpp'],
  mech=[('base64', 'base64.cpp base64_encode, base64_decode, base64_valid; base64.hpp to_chars/from_chars'), ('UTF-8', 'utf.cpp decode_code_point (both overloads)')])
P(id='P13', title='Bit, power, hash, size-conversion and memory helpers compute their definitions',
  statement='lsb and msb give the position of the lowest and highest set bit of every nonzero value; contiguous_mask sets exactly the bits from first up to last; ipow is the power modulo the width of the result; hash_bytes and fnv1a are the FNV-1a hash of the bytes, also when fed in pieces; szconv keeps the value or rejects it, and rejects none that fits; mem_zero and mem_repeat set exactly the addressed bytes to zero or to the repeated pattern; mem_overlaps is true exactly when two nonempty ranges share a byte.',
  forall='every value of every width, every byte sequence, every exponent, every pattern length and count',
  why='the functions are used inside allocators, hash tables and containers with arbitrary values; tests use a table of examples',
  files=['src/c4/memory_util.hpp', 'src/c4/memory_util.cpp', 'src/c4/hash.hpp', 'src/c4/szconv.hpp'],
  mech=[('bits and powers', 'memory_util.hpp lsb, msb, contiguous_mask, ipow'), ('hash', 'hash.hpp fnv1a, hash_bytes'), ('sizes', 'szconv.hpp szconv'), ('memory', 'memory_util.hpp mem_zero, mem_overlaps; memory_util.cpp mem_repeat')],
  note='mem_repeat is a bounded stand-in; the rest is proved')
P(id='P14', title='Text output: to_chars of text, alignment, cat, catsep and format write exactly the pieces in order',
  statement='to_chars of text, characters, literals and boolalpha, fmt::left and fmt::right, cat, catsep and format with their _sub, rs and rs_append forms return the size of the whole text for every buffer; when that size fits, the buffer holds exactly the pieces in order (arguments in place of the placeholders "{}" of the format, the rest of the format verbatim, padding up to the width) and the bytes after it are unchanged; they never write past the end of the buffer. The container forms end with the container holding exactly the text, keeping what was there when appending.',
  forall='every buffer length including zero and null, every text, format string, width, padding character and container size',
  why='tests use a few formats with ample buffers; truncation points inside each piece, placeholders at every position and lengths at every boundary are universally quantified',
  files=['src/c4/format.hpp', 'src/c4/charconv.hpp'],
  mech=[('concatenation', 'format.hpp cat, catsep, detail::catsep_more, format and the _sub, rs, rs_append forms'), ('text pieces', 'charconv.hpp to_chars(csubstr, substr, char, literal); format.hpp to_chars(fmt::left_, fmt::right_, boolalpha_)')],
  note='arguments are text, characters and 16-bit integers; containers are modelled by a fixed-capacity container in the harness')
P(id='P15', title='Text input: from_chars and from_chars_first of text, characters and booleans, uncat, uncatsep and unformat read exactly the pieces',
  statement='from_chars and from_chars_first for characters, booleans and text, and uncat, uncatsep and unformat over them, return the number of characters consumed (or true), or npos (false) exactly when an argument cannot be read; on success every argument holds the piece of the text at its place: the first word for text, the spelled truth value for booleans (0, 1, true/True/TRUE, false/False/FALSE), the character at the position of the placeholder for unformat; a destination that is too small is never overrun.',
  forall='every text, every destination size, every format string and position of the placeholders',
  why='tests read back a few strings that were just written; short texts, missing pieces and blanks at every position are universally quantified',
  files=['src/c4/format.hpp', 'src/c4/charconv.hpp', 'src/c4/substr.hpp'],
  mech=[('pieces', 'format.hpp uncat, uncatsep, detail::uncatsep_more, unformat'), ('readers', 'charconv.hpp from_chars and from_chars_first for char, bool, csubstr, substr; substr.hpp first_non_empty_span')],
  note='from_chars_first(bool) is a bounded stand-in; texts starting with a plus sign are outside the documented domain of the integer readers')
P(id='P04', title='Integers survive the round trip through text',
  statement='For every value of every integer width, signed or unsigned, reading the text that to_chars wrote for it succeeds and gives back that value: in decimal and octal for all widths, in hexadecimal up to 16 bits and in binary for 8 bits; and overflows<T> never reports such a text as out of range.',
  forall='every value of the eight integer types',
  why='tests round-trip boundary values and samples; all 2^64 values are universally quantified',
  files=['src/c4/charconv.hpp'],
  mech=[('writing and reading back', 'charconv.hpp to_chars/xtoa/itoa/write_* with from_chars/atox/atoi/read_*'), ('range check', 'charconv.hpp overflows')],
  note='the remaining radix and width combinations follow from P01 and P03, which specify the same texts and values for all widths')
P(id='P16', title='Spans, resizable spans and their sub-spans address exactly the requested elements',
  statement='subspan, range, first, last, compll, complr, resize, rtrim and ltrim of span, spanrs and spanrsl give exactly the addressed elements with the right size, capacity and offset, original() recovers the whole block, and indexes or sizes outside the span are rejected, also when first+num wraps around. is_subspan, same_span and the comparison operators hold exactly when the elements say so: equality element by element, order lexicographic.',
  forall='every block, position, size, capacity and argument value including those near the maximum of the index type; every pair of contents',
  why='tests use a fixed 10-element array; all sizes, offsets and wrapping arguments are universally quantified',
  files=['src/c4/span.hpp'],
  mech=[('sub-spans', 'span.hpp span_crtp subspan, range, first, last, compll, complr; _select'), ('resizing', 'span.hpp span, spanrs, spanrsl resize, rtrim, ltrim, original'), ('relations', 'span.hpp is_subspan, same_span, operators')],
  note='elements are 32-bit integers for positions and bytes for the comparisons')
