#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (one place to edit, schema-shaped output).
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
ENC=['src/encoder.cc','src/encoder_common.h','src/encoder_sse_base.h','src/encoder_avx_base.h']
DEC=['src/decoder.cc','src/decoder_common.h','src/decoder_sse_base.h','src/decoder_avx2_base.h']
p('C01','Encoding is exactly yEnc on every CPU path',
  'For every input, line size and starting column, and whichever CPU kernel is selected, the encoded output is byte for byte the yEnc encoding: each byte plus 42 mod 256; NUL, LF, CR and "=" always escaped, TAB and SPACE escaped in the first and last column of a line and at the end of the data, "." escaped in the first column; CRLF inserted before the next byte once a line has reached the line size, never after the last byte. Nothing else is escaped and the returned length is the number of bytes produced.',
  ['inputs','configurations'],'all data contents and lengths x all line sizes and column offsets x all x86 kernels (generic, SSE2, SSSE3, AVX, AVX2, VBMI2)',
  'The tests compare a few random and exhaustive-short inputs at a handful of line sizes and columns; special bytes meeting a line end, a vector boundary or a lookup-table corner at other lengths/columns are not reached, and VBMI2 runs only if the host has it.',
  ENC,[('scalar encoder','src/encoder.cc do_encode_generic'),('vector encoders','src/encoder_sse_base.h, src/encoder_avx_base.h'),('tail hand-over between vector and scalar code','src/encoder_common.h do_encode_simd')],['encode()','encodeTo()'])
p('C02','Encoded output is always safe to transport',
  'Whatever the data, line size and column, the encoded output never contains NUL, contains CR and LF only as CRLF line breaks, never ends in a line break or in a lone escape character, never starts a line with "." and never has TAB or SPACE at the start or end of a line (for line sizes of at least two). Every line but the last holds at least line-size and at most line-size plus one characters (counting the starting column for the first), and the last at most line-size plus one.',
  ['inputs','configurations'],'all data x all line sizes x all columns x all kernels',
  'Tests only compare with a reference on sampled inputs; they never state the transport invariants over all inputs.',
  ENC,[('escape tables','src/encoder.cc escapeLUT / escapedLUT'),('line handling','src/encoder.cc, src/encoder_*_base.h')],['encode()'])
p('C03','Decoding an encoding returns the original data',
  'For every data, line size and column offset, decoding the output of the encoder yields exactly the original bytes, whichever encoder and decoder kernels run. The same holds with dot-unstuffing requested when the text starts at column 0, and for any column once the text has been dot-stuffed for NNTP.',
  ['inputs','configurations'],'all data x all line sizes x all columns x encoder/decoder kernel pairs',
  'The test suite round-trips sampled random buffers only.',
  ENC+DEC,[('encoder','src/encoder*.{cc,h}'),('decoder','src/decoder*.{cc,h}')],['encode()','decode()'])
p('C04','Plain decoding follows yEnc for any input on every CPU path',
  'For every byte string, well formed or not, decoding without dot-unstuffing drops every CR and LF that is not the character escaped by a preceding "=", turns "=" followed by X into X-64-42 mod 256, turns every other byte B into B-42 mod 256, and ignores a lone "=" at the very end. All CPU kernels give this same result and the returned length is its length.',
  ['inputs','configurations'],'all byte strings x all lengths and alignments x all decoder kernels',
  'Tests sample random strings and a few patterns; runs of "=" crossing vector blocks, escapes at block or buffer ends at every alignment, and every compaction-table entry are not settled.',
  DEC,[('scalar decoder','src/decoder_common.h do_decode_scalar'),('vector decoders','src/decoder_sse_base.h, src/decoder_avx2_base.h'),('compaction and escape lookup tables','src/decoder.cc')],['decode()','decodeTo()'])
p('C05','Dot-unstuffing decode removes exactly the stuffed dots',
  'With dot-unstuffing, decoding gives the plain yEnc decoding of the input after removing each "." that comes first on a line, that is at the very start of the input or directly after CRLF, and removes nothing else. This holds for every byte string, including CRs that are themselves escaped (an escaped CR is decoded as data and still counts as the CR of a line break), on every CPU kernel.',
  ['inputs','configurations'],'all byte strings x all lengths and alignments x all decoder kernels',
  'The CR LF dot sequences interact with escapes and vector boundaries; tests enumerate only short patterns at a few offsets.',
  DEC,[('line-start masks','src/decoder_sse_base.h, src/decoder_avx2_base.h'),('scalar state machine','src/decoder_common.h')],['decode(data, true)'])
p('C06','Chunked decoding does not depend on where the stream is split',
  'However an NNTP article stream is cut into chunks, feeding them through decodeChunk with the returned state yields the same concatenated output, the same end detection at the same stream position and the same final state as decoding the whole stream in one call.',
  ['inputs','histories'],'all byte streams x all ways to cut them into chunks x all kernels and starting states',
  'Tests try some fixed streams with some cuts; the state carried over (up to four characters) meets every block position and every cut only under quantification.',
  DEC+['index.js','src/yencode.cc'],[('decoder state enum','src/decoder.h YencDecoderState'),('state pick-up in vector code','src/decoder_common.h _do_decode_simd'),('state strings','index.js decodePrev')],['decodeChunk()'])
p('C07','The end of the yEnc data is found exactly',
  'decodeChunk stops at the first point where the stream since the last line start reads CRLF "=y" (or its dot-stuffed form CRLF ".=y") or CRLF "." CRLF, the start of the stream counting as a line start, and at no other point. It then reports ended, the right end type in state, read just past the terminator and only the data before it as output; otherwise it consumes all input and reports not ended.',
  ['inputs','configurations'],'all byte strings x starting states x all decoder kernels',
  'False or missed terminators need specific sequences at specific block positions and alignments.',
  DEC,[('end checks in vector code','src/decoder_sse_base.h, src/decoder_avx2_base.h searchEnd'),('scalar end state machine','src/decoder_common.h do_decode_end_scalar')],['decodeChunk()'])
p('C08','Decoding in place equals decoding into a separate buffer',
  'Using the same buffer as input and output for decodeTo or decodeChunk gives the same output bytes, length, read position, end and state as decoding into a separate buffer, on every CPU kernel.',
  ['inputs','configurations'],'all byte strings x plain/unstuffing/chunk modes x all kernels',
  'A vector store that overtakes a pending read corrupts data only for certain contents and alignments; tests decode in place for few inputs.',
  DEC+['src/yencode.cc'],[('output never overtakes input','src/decoder_common.h, src/decoder_*_base.h')],['decodeTo(buf, buf)','decodeChunk'])
p('C09','Encoding never touches memory outside its buffers',
  'For every data, line size and column, encoding reads only the input buffer and writes only the first maxSize(length, line size) bytes of the output, on every CPU kernel. The returned length never exceeds that size.',
  ['inputs','configurations'],'all data x lengths x alignments x line sizes x columns x kernels',
  'Overruns by a vector store stay invisible to tests unless the allocator notices.',
  ENC+['src/yencode.cc','index.js'],[('YENC_MAX_SIZE','src/yencode.cc'),('vector loop bounds','src/encoder_common.h')],['encodeTo()'])
p('C10','Decoding never touches memory outside its buffers',
  'For every byte string, decoding in every mode reads only the input and writes only the first length-of-input bytes of the output, on every CPU kernel (on AArch64 the documented aligned look-ahead load may extend to the end of the 16-byte unit that holds the last input byte, which changes nothing), and reports no more bytes written than read.',
  ['inputs','configurations'],'all byte strings x lengths x alignments x modes x kernels',
  'Look-ahead reads past the end or stores past the output go unnoticed in tests with ordinary heap buffers.',
  DEC+['src/yencode.cc'],[('look-ahead length reserve','src/decoder_common.h _do_decode_simd lenBuffer')],['decodeTo()','decodeChunk()'])
p('C11','crc32 is CRC-32/IEEE for every data and initial value',
  'crc32(data, initial) is the CRC-32 (IEEE) of the data appended to whatever has CRC initial, for every data length, alignment and content and whichever CPU kernel is selected. Consequently hashing a stream in pieces gives the same result as hashing it at once.',
  ['inputs','configurations'],'all data, lengths, alignments and initial values x generic, PCLMUL and VPCLMUL kernels',
  'Tests hash a few buffers; folding constants and tail tables matter for particular lengths mod 64/256 and bit positions.',
  ['src/crc.cc','src/crc.h','src/crc_folding.cc','src/crc_folding_256.cc','src/yencode.cc'],[('folding kernels','src/crc_folding.cc, src/crc_folding_256.cc'),('generic kernel','src/crc.cc')],['crc32()'])
p('C12','crc32_combine gives the CRC of the concatenation',
  'crc32_combine(crc32(a), crc32(b), b.length) equals crc32(a+b), and more generally is linear in its first CRC and adds the second, for every pair of CRC values and every length, on every CPU kernel.',
  ['inputs','configurations'],'all CRC pairs x lengths (including those beyond 2^32 bits) x kernels',
  'Lengths beyond what tests allocate exercise exponent reduction modulo 2^32-1 and high table entries.',
  ['src/crc.h','src/crc.cc','src/crc_folding.cc'],[('exponent arithmetic','src/crc.h crc32_powmod, crc32_bytepow'),('crc32_shift','src/crc.cc, src/crc_folding.cc')],['crc32_combine()'])
p('C13','crc32_zeroes appends or removes null bytes exactly',
  'crc32_zeroes(n, crc) is the CRC after appending n null bytes to data with that CRC, and with negative n the CRC after removing them, so that the two undo each other, for every CRC and every n a 32-bit int can hold.',
  ['inputs','configurations'],'all CRC values x all lengths, positive and negative x kernels',
  'Tests try a handful of lengths and values.',
  ['src/crc.h','src/crc.cc','src/crc_folding.cc','src/yencode.cc'],[('crc32_zeros / crc32_unzero','src/crc.h')],['crc32_zeroes()'])
p('C14','crc32_multiply is multiplication in the CRC-32 field',
  'crc32_multiply(x, y) is the product of the two polynomials modulo the CRC-32 polynomial in bit-reflected form for every pair of values, on every CPU kernel; it is therefore commutative, distributes over XOR, and has 80000000 as its one.',
  ['inputs','configurations'],'all pairs of 32-bit values x kernels','2^64 pairs; tests try a few.',
  ['src/crc.cc','src/crc_folding.cc'],[('multiply','src/crc.cc crc32_multiply_generic, src/crc_folding.cc crc32_multiply_clmul')],['crc32_multiply()'])
p('C15','crc32_shift multiplies by a power of two in the field',
  'crc32_shift(n, crc) is crc times x^n modulo the CRC-32 polynomial for every crc and every positive or negative int n, crc defaulting to the field one; shifting by n and then by -n gives back the value.',
  ['inputs','configurations'],'all CRC values x shift amounts of either sign x kernels','Tests try a few shifts; each exponent bit uses its own table entry or folding step.',
  ['src/crc.h','src/crc.cc','src/crc_folding.cc','src/yencode.cc'],[('crc32_shift','src/crc.cc crc32_shift_generic, src/crc_folding.cc crc32_shift_clmul'),('exponent reduction','src/crc.h crc32_powmod')],['crc32_shift()'])
p('C16','Native calls validate arguments before touching memory',
  'Each binding entry point rejects missing or wrongly typed Buffers, CRC arguments that are not 4 bytes, negative line sizes (32-bit integers), columns that are negative or exceed the line size, and output buffers smaller than the worst case with an error (decodeTo throws too when its output is smaller than its input), before any encoding, decoding or hashing starts. Accepted calls pass the given values through, with line size 0 meaning 128, a column equal to the line size meaning 0 and an empty input giving an empty result; a result with no bytes is an ordinary empty Buffer.',
  ['inputs'],'all argument counts, types, buffer lengths and integer values','Tests pass ordinary arguments; argument-space corners (sizes just below the bound, line size and column extremes) are quantified over.',
  ['src/yencode.cc'],[('argument checks','src/yencode.cc FUNC(...)')],['encode','encodeTo','decode','decodeTo','crc32*'])
p('C17','maxSize and minSize bound every encoding',
  'For every length, line size and column, the length of the encoding is at most maxSize(length, line_size) and at least minSize(length, line_size), maxSize is never smaller than the space encodeTo demands, and for a nonzero length an escape ratio outside 0..1 (by more than floating point rounding) is rejected.',
  ['inputs'],'all lengths, line sizes, columns and contents','The formulas are checked by tests at sample points only.',
  ['index.js','src/yencode.cc'],[('maxSize / minSize','index.js'),('YENC_MAX_SIZE','src/yencode.cc')],['maxSize()','minSize()'])
p('C18','Runtime dispatch selects only what the CPU and OS support',
  'Whatever the CPU identification registers and the OS-enabled register state report, initialisation selects encoder, decoder and CRC kernels whose instruction sets are all reported as available and enabled; with no features reported the code for the base instruction set (on x86-64, which always has SSE2) is selected. A fully capable CPU gets the accelerated kernels.',
  ['configurations'],'all values of the cpuid leaves and XCR0 consulted','Tests run on one CPU and a few emulated models.',
  ['src/platform.cc','src/encoder.cc','src/decoder.cc','src/crc.cc'],[('cpu_supports_isa / cpu_supports_crc_isa','src/platform.cc'),('*_init dispatch','src/encoder.cc, src/decoder.cc, src/crc.cc')],['encoder_init','decoder_init','crc32_init'])
p('C19','Concurrent calls from worker threads cannot interfere',
  'After module initialisation no encode, decode or CRC call, and no loading of the module in a further worker thread, writes to any memory other than its own output and its own stack, so calls running concurrently in different worker threads give the same results as running alone.',
  ['schedules','inputs'],'all interleavings of calls x all inputs; reduced to absence of writes to shared state on every path','A race on shared state shows only under particular timings; the tests are single threaded.',
  ENC+DEC+['src/crc.cc','src/crc_folding.cc','src/yencode.cc'],[('tables written only during one-time initialisation','src/decoder.cc, src/encoder*_base.h, src/yencode.cc init_all')],['all native calls'])
p('C20','decodeChunk keeps its JavaScript contract',
  'decodeChunk accepts null, any state string it returned before and any string or Buffer of preceding characters as state, looks only at the last characters that matter (up to four; a state ending in a run of several "=" is not covered, as its last characters do not decide it), and accepts an optional output Buffer, in whose place it allocates one. It returns read, written, output (the supplied Buffer if one was given), ended as a boolean and a state which, when fed back, continues the stream; empty input changes nothing.',
  ['inputs','histories'],'all state strings x argument shapes x native results','Tests use a few states; the state-normalising code path for other strings is never run.',
  ['index.js'],[('decodeChunk','index.js')],['decodeChunk()'])
p('C21','post output is a well-formed single-part yEnc article',
  'post(filename, data, line_size) returns exactly one "=ybegin line size name" header line, the yEnc encoding of the data and an "=yend size crc32" trailer whose size and CRC are those of the data, for every file name, data and line size. CR, LF and NUL are removed from the name, which is cut to 256 UTF-16 units, so that none of its characters can break or add a header line in any single byte encoding or UTF-8.',
  ['inputs'],'all file names, data and line sizes','Tests never call post() at all.',
  ['index.js'],[('post','index.js'),('RE_BADCHAR','index.js')],['post()'])
p('C22','Multi-part posting accounts for every byte of the file',
  'A YEncoder emits parts numbered consecutively from 1 whose begin/end ranges are adjacent and 1-based, whose size and pcrc32 are those of the part, and whose final part carries the CRC of the whole file. It refuses more parts than declared, more data than declared and a last part that does not complete the declared size; a refused call changes nothing.',
  ['histories','inputs'],'all sequences of encode() calls with all data lengths','Tests run a few fixed sequences.',
  ['index.js'],[('YEncoder','index.js')],['multi_post()'])
p('C23','from_post recovers what a post contains',
  'from_post applied to any article made by post or a YEncoder (parts of a multi-part post not empty) returns the original data and its CRC, the header properties as given (the name up to removed CR, LF, NUL, its cut to 256 units and white space around it) and no warnings, except missing_yend_newline if nothing follows the trailer. yencStart, dataStart, dataEnd and yencEnd delimit the header, data and trailer, and text before =ybegin without a start marker, or after =yend without an end marker, does not matter. Input lacking the start marker, the end marker or required properties gives the corresponding DecoderError and never an exception. Encodings compatible with ASCII are meant.',
  ['inputs'],'all file names, data, surrounding text and malformed articles','Tests parse a few sample articles.',
  ['index.js'],[('from_post','index.js'),('decoderParseLines','index.js')],['from_post()'])
p('C24','from_post reports every inconsistency it documents',
  'If the size, pcrc32, crc32, part number, total or part range stated in an article (as plain decimal numbers and eight hex digits) disagrees with the decoded data or with each other, from_post returns the matching warning code, and an article where they all agree gives none; duplicate properties or lines and unparsable text in the header lines are reported as such and only then (skipped white space alone may or may not be). Names which JavaScript objects inherit are property names like any other.',
  ['inputs'],'all values of the header and trailer fields and all property names','Tests have one sample per warning.',
  ['index.js'],[('consistency checks','index.js from_post'),('decoderParseLines','index.js')],['from_post()'])
p('C25','Native calls neither leak nor doubly free memory',
  'Every block of memory a native call allocates is, when the call has returned or thrown, either freed or owned by exactly one returned Buffer, whose release frees it exactly once. Memory of Buffers passed in is never freed, resized or made part of another returned Buffer.',
  ['inputs','histories'],'all argument shapes x all inputs x orders of release','Leaks and double frees show only in long runs or at garbage collection, and only for inputs which decode to nothing or are rejected.',
  ['src/yencode.cc'],[('Encode, EncodeIncr, Decode, DecodeIncr and free_buffer','src/yencode.cc')],['all native calls'])
p('C26','Hashing never touches memory outside its arguments',
  'crc32, crc32_combine, crc32_zeroes, crc32_multiply and crc32_shift write nothing but the 4 byte Buffer they return: neither the data, nor the CRCs passed in, nor anything else. They read no memory page (4096 bytes) that holds no byte of their arguments, so that they cannot fault wherever the Buffers lie.',
  ['inputs','configurations'],'all data x lengths x alignments x positions in a page x CPU paths',
  'Vector kernels load whole aligned blocks around the data; a load beyond the last page crashes only if the data ends just there and the next page is unmapped.',
  ['src/crc_folding.cc','src/crc_folding_256.cc','src/crc.cc','src/yencode.cc'],[('partial loads and tail','src/crc_folding.cc, src/crc_folding_256.cc'),('slice loop','src/crc.cc do_crc32_incremental_generic')],['crc32()'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P:
        assert len(d['title'])<=80,d['title']
        n=d['statement'].count('. ')+1
        f.write(json.dumps(d)+'\n')
print(len(P))
