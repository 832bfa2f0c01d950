#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a))

p('C01', 'Binary stream writer and reader agree byte for byte with a plain byte buffer',
  'Whatever sequence of values, arrays, containers (with or without count prefix, per element or by callback), raw buffers and zero-terminated strings is written to a binary stream, in either byte order, the stream holds exactly the bytes of those items one after another (multi-byte elements reversed when byte order is swapped, counts in the chosen count type, strings followed by one zero character), and reading the same sequence back gives equal items and leaves the read position right after them. '
  'Positioning (absolute, relative, from the end, skip forwards and backwards, remember/restore, padding to a power of two, moved origin, total size) always lands where the same arithmetic on a plain byte buffer lands, asking for the size does not move the position, and padding or skipping forward while writing emits zero bytes only. '
  'This holds the same for in-memory streams and for files, opening a missing file for reading or an unwritable file for writing is reported as an error, and a file reader or writer that is moved goes on in its file where it was, in the same byte order.',
  ['inputs', 'histories'], 'Every sequence of write/read/seek/skip/pad/push/pop/origin operations over every item type, both byte orders, memory and file streams.',
  'The tests write and read a handful of fixed items once; they never combine origins, padding, restore and byte order, nor check bytes of count prefixes for other count types.',
  ['datas/binreader_ref.hpp', 'datas/binreader_stream.hpp', 'datas/binwritter_ref.hpp', 'datas/binwritter_stream.hpp', 'datas/internal/bincore_navi.hpp', 'datas/internal/bincore_file.hpp', 'datas/binreader.hpp', 'datas/binwritter.hpp'],
  [('element loops and byte swapping on read/write', 'BinReaderRef_t::_ReadElements, BinWritterRef_t::_WriteElements'), ('navigation relative to a movable origin', 'BinStreamNavi'), ('zero fill on skip', 'BinStreamOutTraits::Skip')],
  state=[('saved position', 'absolute position remembered by Push', 'BinStreamNavi::savePos'), ('origin', 'offset subtracted from every reported position', 'BinStreamNavi::localPos')])

p('C02', 'Byte-order swapping reverses each scalar exactly once and undoes itself',
  'Swapping the byte order of an integer or floating-point value of 2, 4 or 8 bytes reverses its bytes, swapping twice restores it bit for bit (NaN payloads included), and swapping a fixed array or a vector swaps each element in place without moving elements. '
  'Viewing a structure as an array of a given element type swaps exactly the whole elements that fit in it, and a type that defines its own swapping has that called exactly once with the direction asked for.',
  ['inputs'], 'All bit patterns of all 2/4/8-byte scalar types, arrays of any length, composite types, both directions.',
  'The tests check one constant per width.', ['datas/endian.hpp', 'datas/endian_fwd.hpp', 'datas/vectors.hpp', 'datas/vectors_simd.hpp'],
  [('per-width byte reversal', '_fbswap'), ('dispatch to a type\'s own swap', 'fbswap overloads'), ('array view swap', 'FArraySwapper')])

p('C03', 'Variable-length integers round-trip exactly and are self-delimiting',
  'Every 64-bit value, signed or unsigned, written as a variable-length integer reads back as the same value and consumes exactly the bytes that were written, so that any number of them can follow each other with other data in between. '
  'The encoding never takes more than nine bytes, values needing at most six (signed) or seven (unsigned) bits take one byte, and each further byte adds seven bits with the continuation flag in the top bit, least significant group first.',
  ['inputs', 'histories'], 'All 2^64 signed and unsigned values and all sequences of them.',
  'The tests try about a dozen positive constants and two negative ones.', ['datas/base_128.hpp'],
  [('7-bit groups with continuation bit, sign in bit 6 of the last group', 'bint128::Write/Read'), ('unsigned groups', 'buint128::Write/Read')])

p('C04', 'Bit-field members and flag bits are independent of each other',
  'Setting a member of a bit field to any value makes that member read back as the value truncated to the member\'s width and leaves every other member and every unclaimed bit unchanged, whatever the storage width and layout. '
  'Converting a bit field to foreign byte order and back restores every member, and the foreign form has each member at the mirrored bit position of the byte-reversed word. '
  'Setting, clearing, adding or removing one flag of a flag set changes that flag only, and queries, equality and the raw value always agree with the set of flags added so far.',
  ['inputs', 'histories'], 'All layouts (8 to 64-bit storage, members of 1 to 64 bits), all values, all sequences of member and flag updates.',
  'The tests use one 5-member layout and a four-member flag enum with fixed values.', ['datas/bitfield.hpp', 'datas/internal/bitfield.inl', 'datas/flags.hpp'],
  [('masks from member position and size', 'BitMember::GetMask/GetMirrorMask'), ('foreign layout conversion', 'SwapBitField'), ('flag mask', 'es::Flags::MakeMask_')])

p('C05', 'Small floating-point formats expand exactly and compress back to the same bits',
  'Every bit pattern of a small float format (half precision, unsigned and signed 10/11-bit variants and other mantissa/exponent splits) expands to the single-precision value the format defines, including zero, subnormals, infinities and sign. '
  'Compressing that single-precision value gives back the same bit pattern, and compressing any other number between the smallest and largest finite values of the format gives one of the two representable values around it. '
  'The one-at-a-time and four-at-a-time conversions agree in every lane.',
  ['inputs'], 'All bit patterns of every supported mantissa/exponent/sign split; all lanes of the vector forms.',
  'The tests check a few constants per format.', ['datas/float.hpp'], [('exponent rebias and mantissa shift', 'esFloat::ToFloat/FromFloat'), ('vector forms', 'esFloat::ToVector4/FromVector4')])

p('C06', 'Format codecs decode every element to the components its bit layout defines',
  'For every combination of number format and component layout listed as supported, decoding an element gives the components obtained by extracting each bit range (first component from the lowest bits), interpreting it as unsigned, two\'s-complement signed, normalised (divided by the largest positive value of its width), or floating point, and reporting components the layout lacks as zero; in the mixed-width layouts (11-11-10, 5-6-5) the narrower components of normalised and floating-point formats are exact only to one step of their own width. '
  'Decoding many elements with any stride of at least the element size equals decoding each on its own, only bytes of the elements named are needed, a count of zero means the size of the destination, and a stride smaller than the element is reported as an error. '
  'Asking an integer codec for floating-point values or the reverse, is reported as an error and never returns data.',
  ['inputs'], 'All 2^16..2^128 bit patterns (sampled, boundary-biased, 16-bit layouts exhaustively) for all listed format/layout pairs; all counts and strides.',
  'The tests check five fixed elements per layout and never a stride, a partial tail or an end-of-buffer element.',
  ['uni/format.hpp', 'uni/internal/format_full.hpp', 'uni/uni_format.cpp'],
  [('per-layout unpackers', 'uni/internal/format_full.hpp'), ('strided sampling', 'FormatCodec::Sample overrides'), ('codec lookup', 'FormatCodec::Get')])

p('C07', 'Assigning a reflected member stores exactly that value or reports why not',
  'Assigning text or a number to a member of a reflected object stores the value that text denotes (decimal, 0x hexadecimal, boolean words, enumeration member names, flag names joined by |, {}-delimited comma lists for vectors and arrays) and reports success, and text that is no value of the type is reported as an error and leaves a scalar destination unchanged (a boolean is set to false; of a list or flag set the valid parts may be kept). '
  'Numbers written as text that lie outside the destination\'s range are clamped to the nearest limit and that is reported (a member of a bit field is signed when the field\'s storage is); an enumeration that is not registered is no destination; the numeric setters store the low bytes of the number. '
  'No assignment, accepted or rejected, changes any byte outside the member (or the one element) addressed, and addressing a member or element that does not exist is reported as an error.',
  ['inputs', 'histories'], 'Every member kind and width, every text and number including malformed and out-of-range ones, every element index, all sequences of assignments.',
  'The tests assign a few well-formed values per type and a few malformed ones; out-of-range elements and neighbouring bytes are not observed.',
  ['datas/reflector.cpp', 'datas/reflector.hpp', 'datas/internal/reflector.inl'],
  [('text parsing and dispatch on type', 'SetReflectedMember'), ('range clamping', 'SetNumber / LimitProxy'), ('bit-field insertion', 'BFTag handling'), ('element addressing', 'Reflector::SetReflectedValue overloads')])

p('C08', 'Text read from a reflected member sets an equal member',
  'For every reflected object, the text form of each member is the value a reader of that type expects, and assigning that text to the same member of any other object of the class makes the two members equal (elements of string arrays holding list separators, and subnormal numbers, excepted); so copying all members by text copies the object\'s value. '
  'The text of a single element or sub-element is that element\'s value, floating-point values survive to the printed precision (six digits for single, thirteen for double precision), enumeration values print as their member name and flag sets as the names of exactly the set flags.',
  ['inputs'], 'Every value of every member kind: integers of all widths, floats, booleans, strings, enums, flags, vectors, quaternions, arrays, bit-field members.',
  'The tests read back a few fixed values.', ['datas/reflector.cpp', 'datas/reflector.hpp'],
  [('value formatting', 'GetReflectedPrimitive and ReflectedValue* printing'), ('element selection', 'Reflector::GetReflectedValue(id, subId, element)')])

p('C09', 'Reflected type descriptions match the declarations they come from',
  'For every reflected class each declared member is found by name, alias and position with its real byte offset, size, kind, element count, alias and description, bit-field members report their real bit position and width, undeclared names are not found, and lookups through nested classes reach the nested object itself. '
  'For every reflected enumeration the listed names and values are exactly those the compiler assigns, in order, including explicit, hexadecimal and negative values.',
  ['programs', 'inputs'], 'All reflected declarations (a generated corpus of classes and enumerations) and all lookup names.',
  'The tests inspect one or two classes.', ['datas/internal/reflector_class.hpp', 'datas/internal/reflector_class_reg.hpp', 'datas/internal/reflector_enum.hpp', 'datas/internal/reflector_enum_reg.hpp', 'datas/internal/reflector_type.hpp', 'datas/reflector.cpp'],
  [('member table construction', 'REFLECT macros and reflectorStatic'), ('enum text parsing', 'ReflectedEnum construction'), ('lookup by name hash', 'Reflector::operator[]')])

p('C10', 'Saving a reflected object to binary and loading it restores every member',
  'Loading the binary form of a reflected object into any object of the same class makes all its reflected members equal to those saved, for every nesting of classes, arrays, vectors, strings, enumerations, flags and bit fields, and consumes exactly the bytes saved, so several objects can follow each other in a stream. '
  'Loading into another version of the class with the same number of members, in another order, with other names or types, restores exactly the members both have with the same type and leaves members that were not saved untouched; another number of members is reported as an error and changes nothing. In each case the stream is left right behind the saved object. '
  'Data of another class are reported as an error and leave object and stream position unchanged, truncated data are reported as an error, and no data make loading write outside the object.',
  ['inputs', 'histories'], 'All values of all supported member kinds, nesting depths up to four, evolved class versions, sequences of objects at any stream position.',
  'The tests save and load one object of one class.', ['datas/reflector_io.cpp', 'datas/reflector_io.hpp'],
  [('per-member chunks keyed by name hash and with size', 'SaveClass/LoadClass'), ('unknown member skipping', 'LoadClass')])

p('C11', 'Saved type descriptions load back identical',
  'Saving any set of class and enumeration descriptions and loading the file gives descriptions in which every class has the same name hash, size, members with the same kind, offset, element count, sub-type, name, alias and description hash, and every enumeration has the same names and values. '
  'The saved file can be placed at any position of a stream, and a file with a foreign identifier is rejected with an error.',
  ['inputs', 'configurations'], 'All subsets of a corpus of reflected classes and enumerations, with and without aliases, descriptions and default values; any stream offset.',
  'The test saves one fixed set and compares part of it.', ['datas/reflector_io.cpp', 'datas/reflector_io.hpp'],
  [('fixup tables for pointers and strings', 'ReflectorIO::Save'), ('pointer relocation', 'ReflectorIO::Load')])

p('C12', 'Saving a reflected object to XML and loading it restores every member',
  'For each of the XML forms the library writes, loading the node it wrote into any object of the same class makes all reflected members equal, for every value of every supported member kind, including text containing markup characters and nested classes and arrays. '
  'Loading tolerates missing and unknown nodes and attributes: members named in the document are set, all others are left unchanged, and no document makes the loader touch memory outside the object or fail to return.',
  ['inputs'], 'All values of all supported member kinds; all documents, including ones that do not come from the library.',
  'The tests load one fixed document per form and compare one fixed output.', ['datas/reflector_xml.cpp', 'datas/reflector_xml.hpp'],
  [('attribute and child node writers', 'ReflectorXMLUtil::SaveV2'), ('loader', 'ReflectorXMLUtil::LoadV2 / Load')])

p('C13', 'String views behave like the standard string view',
  'Every query, search, comparison, slice and copy on a string view of any character type returns what the standard library\'s string view returns for the same characters and arguments, including empty views, positions at and past the end, and not-found results; out-of-range positions throw where the standard throws. '
  'No operation reads characters outside the view or writes outside the destination given. Trimming whitespace removes exactly the leading and trailing blanks. Characters are compared by the character traits of the view, and writing a view to a stream keeps to the width, fill and side set.',
  ['inputs'], 'All strings over small and full alphabets, all patterns, positions and counts, for narrow and wide characters.',
  'There are no string view tests; only uses inside other tests.', ['datas/string_view.hpp', 'datas/internal/string_view.inl', 'datas/supercore.hpp'],
  [('search and comparison members', 'datas/internal/string_view.inl')])

p('C14', 'Path decomposition always recombines to the path given',
  'For every path the folder, file name, extension and full-name parts are consistent slices of the path: folder plus file name with extension is the path, the file name has no separator, the extension is the part from the last dot of the file name (a path that is only a file name and begins with its only dot has no extension), and backslashes count as separators and are normalised. '
  'Splitting a path gives its components in order, without the leading separator, and joining the first n of them gives the prefix of the path with n components. '
  'Catching a path onto a folder that has a component equal to the first component of the path cuts the folder before that component and appends the whole path there; otherwise the file name is appended to the folder. '
  'This includes narrow and wide characters, paths with no folder, no extension, dots in folder names, leading dots, trailing separators, and empty paths, and reloading the object with another path.',
  ['inputs', 'histories'], 'All strings over path-relevant characters, reused and fresh objects.',
  'The test checks six fixed paths, all but two with the same folder, and none that is empty, relative with dots in folders, or loaded after a longer one and then empty.', ['datas/fileinfo.hpp'], [('separator and dot scan', 'FileInfo::Load'), ('component split', 'FileInfo::Explode'), ('common branch', 'FileInfo::CatchBranch')])

p('C15', 'Directory scanning reports exactly the matching files',
  'Scanning a folder reports every file at any depth below it whose name contains one of the filters (all files when there are none), exactly once and under a path that opens that file, and nothing else; folders are never reported and symbolic links never followed. '
  'It does not depend on the file system reporting the types of entries, on odd characters in names, or on how the folder is written (trailing separator, trailing quote, relative, or empty for the working folder); a missing folder reports nothing. '
  'Adding several filters accepts the union of what each accepts, and results of several scans accumulate until cleared. '
  'Creating the folders of a set of file paths makes each folder of each path exist and nothing else and leaves what was there; the reported type of a path is file, directory, something else, or error as what is there.',
  ['inputs', 'histories', 'faults'], 'Generated directory trees with files, nested folders, odd names and links; all filter sets; sequences of scans; entry types withheld.',
  'The test only scans this repository\'s own tree twice and looks for five names.', ['datas/directory_scanner.cpp', 'datas/directory_scanner.hpp', 'datas/stat.hpp', 'datas/internal/stat_ix.inl'],
  [('recursion over directory entries', 'DirectoryScanner::Scan'), ('name filter', 'DirectoryScanner::IsFilteredFile'), ('folder creation', 'mkdirs'), ('type query', 'FileType')])

p('C16', 'Unicode conversions round-trip every code point',
  'Converting UTF-8 text to UTF-16 or UTF-32 and back gives the same text for every sequence of Unicode scalar values, including the empty one and characters outside the basic plane, and the intermediate form holds the standard encoding of each character. '
  'Text that is not valid UTF-8 is reported as an error or converted without touching memory outside it.',
  ['inputs'], 'All sequences of Unicode scalar values; arbitrary byte strings.', 'No test converts any text.',
  ['datas/unicode.hpp', 'datas/tchar.hpp'], [('standard facet based conversion', 'es::ToUTF8 / es::ToUTF1632')])

p('C17', 'Name hashes equal the reference hash function everywhere they are computed',
  'For every byte string and seed, the hash computed at compile time, at run time from a literal and at run time from a string are equal to the published result over the same bytes: Jenkins one-at-a-time in 32 bits, the library\'s default variant of it that keeps wider bits within a step, and Jenkins lookup3 over the bytes padded with zeros to whole little-endian words. '
  'Hash values depend on the bytes only, never on what follows or precedes the string in memory, so equal names always hash equal wherever they are stored.',
  ['inputs'], 'All byte strings up to several blocks (all lengths 0..64 and beyond), all alignments and surroundings.',
  'The tests check three literals.', ['datas/jenkinshash.hpp', 'datas/jenkinshash3.hpp'], [('mixing over 12-byte blocks and tail', 'JenkinsHash3_ / JenkinsHash_')])

p('C18', 'Log messages from any number of threads arrive whole, once, at every sink',
  'Each message logged from any thread is delivered exactly once to every registered sink, whole and not interleaved with text of other threads, with the severity prefix of its kind (WARNING, ERROR; none for plain and information messages) and in the order in which its own thread logged it, and all sinks get the messages in the same order. '
  'A sink added with colours gets the text of a warning or an error while the colour of that severity is set, any other text without one, and no other sink gets colours; a colour set or restored directly reaches exactly the sinks with colours, once each, whatever its numbers are. Registering a sink twice changes nothing. When thread identifiers are enabled each delivered message carries the identifier of the thread that logged it, and sinks added later get only later messages.',
  ['schedules', 'inputs', 'histories'], 'All numbers of threads, messages, sinks and message sizes; thread schedules as they occur under load.',
  'The tests print a few messages and look at nothing but the process surviving.', ['datas/master_printer.cpp', 'datas/master_printer.hpp'],
  [('per-thread buffers flushed under a mutex', 'MasterPrinterThread::FlushAll')])

p('C19', 'A threaded queue runs every task exactly once and returns after all of them',
  'Running a queue of any length runs every item of it exactly once, on some thread, and returns only after every item has finished; results obtained through per-item access belong to that item. '
  'This holds for empty queues, queues shorter than the number of processors and queues much longer, at most as many items run at once as there are processors (one when their number is unknown), and one failing item does not stop the others from running.',
  ['schedules', 'inputs'], 'All queue lengths and item durations; schedules as they occur under load and with injected delays.',
  'The test runs one queue of one fixed length.', ['datas/multi_thread.hpp'], [('queue advanced under the dispatcher loop', 'RunThreadedQueue')])

p('C20', 'Vector, quaternion and matrix operations obey their algebra, scalar and SIMD',
  'Every arithmetic, comparison and component operation gives component for component the scalar definition\'s result, identically for scalar and SIMD vectors of the same type (floating-point results within rounding; equality of floating-point vectors within the comparison epsilon). '
  'For matrices (points are row vectors, and a quaternion turns them as its conjugate, as the tests have it), multiplication agrees with the reference product and with transforming points one after another, the transpose transposes, an inverse of an invertible affine transform composes with it to the identity, a rotation converts to a quaternion and back to the same rotation, and building a matrix from translation, rotation and scale and decomposing it returns them (up to quaternion sign).',
  ['inputs'], 'All finite vectors (boundary integers included), unit quaternions, affine transforms with well-conditioned scale; both storage forms.',
  'The tests evaluate a few fixed vectors and matrices.', ['datas/vectors.hpp', 'datas/vectors_simd.hpp', 'datas/matrix44.hpp', 'datas/matrix44.cpp'],
  [('SSE implementations of operators', 'datas/vectors_simd.hpp'), ('matrix routines', 'datas/matrix44.cpp')])

p('C21', 'Lists and conditional owners destroy owned objects once and borrowed ones never',
  'Owned elements held by lists, element handles and conditionally deleting pointers are destroyed exactly once, and borrowed elements are never destroyed, over any history of construction, insertion, copy or move, removal and destruction. '
  'Iterating a list visits the elements at positions 0 to size-1 in order, each once, and index access gives the same elements. '
  'A container that views foreign storage reads that storage without freeing or writing beyond it, and once it grows it owns its own copy and behaves like an ordinary container.',
  ['histories', 'inputs'], 'All histories of list, handle and container operations with owned and borrowed items in any mix.',
  'The tests build one container over fixed storage and one list.', ['datas/allocator_hybrid.hpp', 'datas/deleter_hybrid.hpp', 'uni/list.hpp', 'uni/list_vector.hpp', 'uni/virtual_iterator.hpp', 'uni/common.hpp'],
  [('conditional delete flag', 'es::deleter_hybrid'), ('allocator that recognises foreign storage', 'es::allocator_hybrid'), ('virtual iterators', 'uni::VirtualIteratorProxy')])

p('C22', 'Relocatable pointers resolve to the right object exactly once',
  'For every block of data holding file-relative pointers, in 32-bit and 64-bit form, fixing up each pointer with the block\'s address makes it refer to the object at the stored offset, a null stays null, and repeating the fix-up of the same pointer changes nothing. '
  'This holds for pointers to pointers, arrays reached through pointers, and any order of fix-ups.',
  ['inputs', 'histories'], 'All generated data blocks with pointer graphs, all orders and repetitions of fix-ups.',
  'No test fixes up a pointer.', ['datas/pointer.hpp'], [('set of pointers already fixed', 'es::PointerX64 / es::PointerX86 Fixup')])

p('C23', 'Every stored file of a ZIP archive is found and read back exactly',
  'Opening any archive of stored (uncompressed) files lists each file once under its full name and opening a listed file gives a stream with exactly the bytes archived, for any number of files, names, sizes, extra fields, comments and directories, and independent of the order in which files are opened. '
  'Archives that use compression or encryption are rejected or reported with an error, and looking up a missing name reports that. '
  'Whatever bytes the archive holds, opening it terminates without touching memory outside its buffers.',
  ['inputs'], 'Generated archives (by an independent ZIP writer) and arbitrary corruptions of them.', 'No test opens any archive.',
  ['datas/zip_vfs.hpp', 'formats/ZIP.hpp', 'formats/ZIP_istream.inl', 'formats/ZIP_ostream.inl'],
  [('directory walk', 'zip_vfs'), ('header parsing', 'formats/ZIP_istream.inl')])

p('C24', 'Decryption undoes encryption, and block encryption matches the published cipher',
  'For every key, initial vector and buffer, decrypting what was encrypted in the same mode (electronic codebook, chained, feedback and output modes) returns the buffer, bytes beyond the size given are never touched, and results do not depend on what was processed before with the same settings. '
  'Results equal those of the published Blowfish cipher and chaining modes for every key of legal length, and XOR encoding is its own inverse for every key and length. An encoder counts as valid exactly while it is enabled.',
  ['inputs', 'histories'], 'All keys of 1 to 56 bytes, all initial vectors, all buffer lengths, all modes.', 'Nothing in encrypt/ is compiled by any test.',
  ['datas/encrypt/blowfish.cpp', 'datas/encrypt/blowfish.h', 'datas/encrypt/encryptor.hpp', 'datas/encrypt/xorenc.hpp'],
  [('key schedule and Feistel rounds', 'BlowfishEncoder'), ('mode chaining', 'BlowfishEncoder::Encode*/Decode*')])

p('C25', 'Compressed texture blocks decode to the colours the format defines',
  'For every block, each of the sixteen decoded pixels of the compressed colour, alpha and one/two-channel texture formats equals the one the block format defines (within one step of rounding), and each pixel is written at its place inside the image and nowhere else. '
  'The vectorised decoder gives the same pixels as the plain decoder for the same block, within one step. The colour of fully transparent pixels is not specified.',
  ['inputs'], 'All endpoint and index combinations of each block format (sampled), all block positions, pitches and pixel layouts.',
  'Nothing in formats/ is compiled by any test but the ZIP headers.', ['formats/BlockDecoder.h', 'formats/BlockDecoder.inl', 'formats/BlockDecoderSimd.hpp'],
  [('endpoint interpolation tables', 'formats/BlockDecoder.inl'), ('SIMD variant', 'formats/BlockDecoderSimd.hpp')])

p('C26', 'Texture headers describe sizes and formats consistently',
  'For every pixel format, width, height and number of mip levels, the computed offset and size of each level of one surface, the bits per pixel and the total size are those of the format\'s published layout (block formats consist of whole blocks, formats sharing colour between two pixels of whole pairs, no dimension goes below one), the sizes of all levels add up to the total, and a header of any content makes the computation neither read nor write outside its tables. '
  'Converting a modern pixel format to the legacy description and back gives the same format wherever a legacy form exists, the legacy description names the same channels at the same bits, a conversion that is refused changes nothing, and headers survive being written and read, in the published byte layout.',
  ['inputs'], 'All listed pixel formats, all dimensions 1..16384 including odd and non-square, all mip counts up to the full chain, totals below 4 GiB; sizes of planar video formats are not covered, only their bits per pixel.', 'Nothing in formats/DDS.hpp is compiled by any test.',
  ['formats/DDS.hpp'], [('size computation', 'DDS::ComputeBufferSize / ComputeBPP'), ('legacy conversion', 'DDS::ToLegacy / FromLegacy')])

p('C27', 'Swizzled texture addressing is a bijection onto the texture',
  'For every texture whose width and height are powers of two, the swizzled addresses of the texels of the texture are all different and fill exactly the range from zero to width times height. '
  'Addresses follow bit interleaving of the coordinates, as far as both coordinates have bits left, with the remaining bits of the larger coordinate above.',
  ['inputs'], 'All power-of-two widths and heights up to 16384, all coordinates inside the texture.', 'Nothing in formats/addr_ps3.hpp is compiled by any test.',
  ['formats/addr_ps3.hpp'], [('bit interleave tables', 'MortonSettings')])

p('C28', 'Skeleton, motion and model interfaces hand over the data behind them',
  'Sampling and resampling vertex data through attribute descriptors gives every component of every vertex the decoded value transformed as the descriptor says (nothing, x + min, x * min or max + x * min), independent of the order and number of attributes and buffers. '
  'A transform or value query an implementation does not supply raises a std::logic_error when the object claims that kind of value and a std::runtime_error otherwise, leaving the output as it was; a forbidden modification raises a std::runtime_error. '
  'Walking a skeleton or motion visits each bone or track once, in order, also when the list is made for the walk, and leaves no object alive. Transforms are equal exactly when translation, rotation and scale are.',
  ['inputs', 'histories'], 'All generated descriptor sets, buffers and counts; all combinations of supplied queries and claimed types; lists lent and lists made when asked.', 'The tests never resample, never call an unsupplied query and walk no list made on demand.',
  ['uni/model.hpp', 'uni/motion.hpp', 'uni/skeleton.hpp', 'uni/list.hpp', 'uni/rts.hpp', 'uni/internal/model.inl', 'uni/internal/motion.inl', 'uni/internal/skeleton.inl', 'uni/internal/exception.hpp'],
  [('attribute resampling', 'PrimitiveDescriptor::Resample'), ('default answers', 'MotionTrack::GetValue, Bone::GetTM, Skin::GetTM, ThrowVoidCall'), ('walks', 'Skeleton::begin, Motion::begin')])

p('C29', 'Audio container headers describe the bytes of their formats',
  'Every wave header built by the library has the published byte layout with consistent chunk sizes, block size and byte rate (for formats of whole bytes) for any channel count, sample rate and data size, and reads back equal. '
  'Walking the chunks of any RIFF file visits each chunk once and ends at the end of the file, chunks of odd sizes included; only format, data, fact and sampler chunks are recognised, and the data, sampler fields and loops of a chunk are found at its own bytes. '
  'The fields of FWSE, MSF, VAG and XVAG headers lie at the offsets of their formats.',
  ['inputs'], 'All field values of each header; all sequences of chunks (sizes that keep the next header aligned to four bytes).', 'Nothing in formats/ is compiled by any test but the ZIP headers.',
  ['formats/WAVE.hpp', 'formats/FWSE.hpp', 'formats/MSF.hpp', 'formats/VAG.hpp', 'formats/XVAG.hpp'], [('wave format', 'WAVE_fmt::WAVE_fmt, WAVE_fmt::CalcData'), ('chunk walk', 'WAVEGenericHeader::Next, IsValidWaveChunk'), ('header structures', 'formats/*.hpp')])

p('C30', 'Settings help and log files tell the whole configuration',
  'The help of a settings class lists every setting once, nested classes included and indented below their owner, under its name, with its description (the part in front of the value), and names every possible value of settings that are enumerations; settings without descriptions are listed too. '
  'A log opened for a settings object is a new file whose name is the given one with a time stamp (the local time of its making, which the log also begins with); it holds each setting, under its alias or else its name, with its current value and every message printed afterwards, until another log is opened for that class.',
  ['inputs'], 'All generated settings classes of the corpus (with and without aliases and descriptions, nested, enumerations, flags, arrays) and all values.', 'The tests print no help and open no log.',
  ['datas/settings_manager.hpp', 'datas/tchar.hpp'], [('help', 'SettingsManager::GetHelp'), ('log', 'SettingsManager::CreateLog')])

p('C31', 'XML files read back as written and failures say what is wrong',
  'A document written with XMLToFile in any of the offered encodings and formats reads back with XMLFromFile as the same tree; a byte order mark and a declaration are present exactly when asked for, and an older file is replaced. '
  'Each parse flag switches exactly what it is named after. A missing file, a file without elements and a damaged file raise FileNotFoundError, InvalidHeaderError and a runtime error that gives file, offset and reason; a file that cannot be written raises FileInvalidAccessError with its name. '
  'Children are collected completely and in order, and node errors name the node and the missing part.',
  ['inputs', 'faults'], 'All documents of elements, attributes, texts and CDATA in all encodings; every combination of parse flags; listed kinds of damage.', 'The tests only parse XML held in memory.',
  ['datas/pugiex.hpp'], [('reading and errors', 'XMLFromFile'), ('writing', 'XMLToFile'), ('children', 'XMLCollectChildren'), ('flags', 'XMLParseFlag, XMLFormatFlag')])

p('C32', 'Helpers, errors, list macros and test macros mean what they say',
  'CompileFourCC, GetPadding, IsPow2, GetFraction, the white space helpers, IsEnd, IsHelp and the hex digit table give the defined result for every argument. '
  'Every error class puts the given file, version or magic into its text: a magic is shown as text when all its bytes up to trailing zeros are letters or digits, else byte by byte in hexadecimal. '
  'VA_NARGS, StaticFor and StaticForArgID visit each of up to 89 arguments once, in order, with its index. '
  'Each TEST_ macro fails exactly when its condition on the values of its operand expressions is false, whatever operators those expressions contain, and reports the expression and values; TEST_CASES runs all cases in order and counts the failed ones.',
  ['inputs'], 'All arguments (positive for IsPow2, power of two alignments); all list lengths; 24 operand shapes over a range of values for each macro.', 'Tests use a handful of arguments, and the macros are what the tests themselves rest on.',
  ['datas/supercore.hpp', 'datas/except.hpp', 'datas/macroLoop.hpp', 'datas/unit_testing.hpp', 'datas/tchar.hpp'], [('helpers', 'CompileFourCC, GetPadding, SkipStartWhitespace'), ('errors', 'InvalidHeaderError::DecompileFourCC'), ('macros', 'StaticFor, TEST_CHECK, TEST_EQUAL')])

p('C33', 'Headers can be used alone, together, in any order and in several units',
  'Any selection of the public headers (the Python ones included), in any order, repeated or not, compiles as C++14 and C++17 with the library folder (and that of Python) as the only include folder, with or without RTTI; units that include them in different orders link into one program that starts.',
  ['configurations', 'inputs'], 'Header selections and orders by gcc 9, gcc 13 and clang 18 on Linux.', 'The build includes each datas header alone, in two units, after the same options; the other folders and orders are never tried.',
  ['datas', 'formats', 'uni'], [('include guards and own includes', '*.hpp'), ('inline definitions', '*.hpp')])

p('C34', 'Python bindings hand over the data behind them and keep references straight',
  'Names, indices, parents, transforms, types, durations, frame rates, tracks and sampled values read from Python equal those of the skeleton or motion behind, for any list of times; None stands for a missing parent or a transform or track of unknown kind. '
  'A list has the length of the list behind, its items are those at their positions, and a loop visits each once, in order; a position outside raises IndexError. Bones compare equal exactly when they are one or agree in index and name. '
  'Enumerations give the name at every position and the value of every name, and fail for others. A frame rate is set when the motion allows it; refused changes and wrong arguments raise a Python error and change nothing; no C++ exception leaves a binding. '
  'Every value handed out is a reference owned by the receiver: nothing is freed early, twice or never, whatever the order in which references are dropped.',
  ['inputs', 'histories'], 'All generated skeletons, motions and reflected enumerations with lists lent or made on demand; histories of up to 40 calls. The Python 2 interface is a stand-in (no Python 2 exists here): subclassing from Python, loops nested over one list object and use of lent objects after the end of their owner are left out.',
  'The Python test is not built here (it needs Python 2), has two bones, one motion and never drops or counts a reference.',
  ['datas/pythonex.hpp', 'datas/python/matrix44.hpp', 'datas/python/vectors.hpp', 'datas/python/reflected_enum.hpp', 'uni/python/pyenum.hpp', 'uni/python/pylist.hpp', 'uni/python/pymotion.hpp', 'uni/python/pymotion.inl', 'uni/python/pyrts.hpp', 'uni/python/pyskeleton.hpp', 'uni/python/pyskeleton.inl', 'uni/python/uni_python.cpp'],
  [('lists and loops', 'UniPy::List'), ('objects', 'UniPy::Bone, Skeleton, MotionTrack, Motion'), ('enumerations', 'UniPy::Enum, ReflectedEnumPy'), ('plain values', 'Py_BuildValue')])

if __name__ == '__main__':
    for x in P: print(json.dumps(x))
