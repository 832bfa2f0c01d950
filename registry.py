"""Per-property configuration of the checks (used by check.py and tools/manifest.py)."""
REFL = ['datas/reflector.cpp', 'datas/reflector_io.cpp', 'datas/master_printer.cpp']
PROPS = {
    'C01': dict(fuzz=True, harness='c01_bincore.cpp',
        technique='model-based random operation sequences against a byte-buffer model (choice-tape PBT, shrinking; libFuzzer on the same properties in the thorough tier)',
        rule='a case is a generated sequence of typed items / navigation operations over a stream; non-trivial when it has at least two operations of each needed kind (two items with one longer than 8 bytes; two navigations plus an overwrite or two reads)'),
    'C02': dict(fuzz=True, harness='c02_endian.cpp',
        technique='randomised property-based testing: byte-level reversal oracle and involution over generated bit patterns',
        rule='a case is a generated bit pattern (boundary, NaN and infinity biased) for one of the scalar, array, vector, structure-view or self-swapping types; non-trivial when the reversal changes it or it has more than one element'),
    'C03': dict(fuzz=True, harness='c03_base128.cpp',
        technique='property-based testing: round trip and differential check against an independent encoder over generated value sequences; libFuzzer on the same property in the thorough tier',
        rule='a case is a sequence of signed/unsigned variable-length integers and raw bytes (values biased to 7-bit group boundaries and full-width); non-trivial when it has two items and at least one multi-byte encoding, or the single value takes more than one byte'),
    'C04': dict(fuzz=True, harness='c04_bits.cpp',
        technique='stateful model-based testing: update histories on a corpus of bit-field layouts and flag sets against a plain integer model',
        rule='a case is a history of member/flag updates, queries and foreign-order conversions on one of 56 layouts or 9 flag types; non-trivial with at least two updates'),
    'C05': dict(fuzz=True, harness='c05_float.cpp',
        technique='property-based testing against field arithmetic (ldexp), round trip and scalar/vector differential; blocks enumerate every pattern of the format',
        rule='a case is four bit patterns, four numbers between representable ones, a block of 64 consecutive patterns, or a packed word, for one of ten mantissa/exponent/sign splits; non-trivial when not all zero'),
    'C06': dict(fuzz=True, harness='c06_codecs.cpp', srcs=['uni/uni_format.cpp'],
        technique='property-based testing: generic bit-extraction oracle, single/strided differential, page-fenced buffers, misuse cases; one and two byte layouts enumerated in blocks',
        rule='a case is a supported (or unlisted) format/layout pair with a generated element or strided run of elements placed against an unmapped page; non-trivial when the element is not all zero, the run has two elements, or the call is a misuse'),
    'C07': dict(fuzz=True, harness='c07_reflset.cpp', srcs=REFL,
        technique='model-based property testing: texts and numbers generated from intended values and applied to a corpus of reflected classes; oracle compares the whole memory block before and after',
        rule='a case is one to four assignments (whole member, element, component, flag bit, bit-field member, numeric setter; existing or not) on an object with random contents between canaries, reached through nested sub-objects; every case with an assignment is non-trivial, labels give the mix'),
    'C08': dict(fuzz=True, harness='c08_reflget.cpp', srcs=REFL,
        technique='property-based testing: independent text oracle per member kind, and metamorphic copy-by-text between two random objects',
        rule='a case is an object of one of 17 reflected classes with random contents (and a second one as destination), read completely through names, positions, elements, components and flags; non-trivial when the class has at least two members'),
    'C09': dict(fuzz=True, harness='c09_reflmeta.cpp', srcs=REFL,
        technique='property-based testing over generated declarations (86 classes and enumerations of 1 to 89 members): static tables, lookups and nested access against compiler-evaluated offsets, sizes and enumerator values',
        rule='a case is one class or enumeration of the corpus with generated lookups by name, alias, position, undeclared names, and paths into nested objects that are written through; non-trivial when it has more than one member or a nested object was reached'),
    'C10': dict(fuzz=True, harness='c10_reflbin.cpp', srcs=REFL, extra=['c10_ver%d.cpp' % i for i in range(1, 7)], libs=['-Wl,-z,muldefs'],
        technique='property-based testing: save/load round trip of random objects, several per stream, with canaries; metamorphic loads between six generated versions of one class; truncated and foreign data',
        rule='a case is one to four objects with random raw contents saved to a stream (either byte order, any position) and loaded over other random objects, a save of one class version loaded as another, or damaged data; non-trivial when the class has at least two members'),
    'C11': dict(fuzz=True, harness='c11_reflio.cpp', srcs=REFL,
        technique='property-based testing: save/load round trip of random sets of class and enumeration descriptions at random stream positions, differential against the tables they came from',
        rule='a case is one to three files of random sets drawn from 33 classes and 28 enumerations (1 to 89 members) in one stream, loaded in any order, or a file with foreign identifier or version; non-trivial when a set has two descriptions or the header is foreign'),
    'C12': dict(fuzz=True, harness='c12_xml.cpp', srcs=REFL + ['datas/reflector_xml.cpp'], libs=['-lpugixml'],
        technique='property-based testing: save/load round trip of random objects through XML trees and XML text, metamorphic pruning of documents against a per-member model, generated arbitrary documents under sanitizers',
        rule='a case is one to three random objects saved in one of four XML forms and loaded over other objects, a saved document with random parts removed and foreign ones added, or an arbitrary document over member names; non-trivial when the class has two members, something was both removed and added, or the document has three named parts'),
    'C13': dict(fuzz=True, harness='c13_sview.cpp',
        technique='differential property-based testing against std::basic_string over the same characters, views placed between continuing characters or exactly sized allocations, four character types',
        rule='a case is one search, slice, copy, comparison, modifier, conversion or trim on a generated view (small alphabets, needles cut from the haystack, positions at and past the ends); non-trivial when the view has two characters (and the needle of a search is not empty)'),
    'C14': dict(fuzz=True, harness='c14_path.cpp',
        technique='property-based testing against a reference model of path decomposition over generated paths and load histories, narrow and wide characters',
        rule='a case is one to three generated paths (mixed separators, dots and separators at every place, empty parts) loaded into one object after another, or a path caught onto a generated folder; non-trivial when a path has two components, there is a reload, or both path and folder are not trivial'),
    'C15': dict(harness='c15_dirs.cpp', srcs=['datas/directory_scanner.cpp', 'datas/stat.cpp'], libs=['-ldl'],
        technique='property-based testing: random directory trees created in a scratch folder and scan/filter/clear histories against the created tree, with injected missing entry types; generated path sets for folder creation',
        rule='a case is a random tree with a history of filters, scans (five ways to name the folder) and clears, one file-system object whose type is asked for, or a set of paths whose folders are made; non-trivial when a scan finds two files or leaves some out, or two folders are made'),
    'C16': dict(fuzz=True, harness='c16_unicode.cpp',
        technique='property-based testing: round trip and differential against an encoder of its own over generated code point sequences, damaged encodings under sanitizers',
        rule='a case is a generated sequence of Unicode scalar values (all planes, boundaries, empty, zero characters) converted each way, or an encoding damaged at random; non-trivial when there are two characters and one is not ASCII, or the text is invalid'),
    'C17': dict(fuzz=True, harness='c17_hash.cpp',
        technique='differential property-based testing against the published hash functions over generated byte strings, seeds and memory surroundings; compile-time values against run-time ones',
        rule='a case is a byte string of generated length (block boundaries preferred) with a seed, placed between random bytes or exactly sized; non-trivial when it has two bytes, or two different values are compared'),
    'C18': dict(harness='c18_log.cpp', srcs=['datas/master_printer.cpp'], extra=['c18_other.cpp'], libs=['-lpthread'], variants=['rel', 'san', 'tsan'],
        technique='property-based testing: generated multi-threaded logging plans, each in a process of its own, with an interleaving oracle per sink; data races found by ThreadSanitizer over the same plans',
        rule='a case is a plan of one to three phases with up to six threads, messages of all kinds and lengths, sinks added at any time; non-trivial when it has more than two messages'),
    'C19': dict(harness='c19_queue.cpp', libs=['-lpthread'], variants=['rel', 'san', 'tsan'],
        technique='property-based testing: generated queues (length, processors, work, failing items, result types) with exactly-once and completion oracles; the same under ThreadSanitizer',
        rule='a case is a queue of 0 to 400 items on 0 to 33 processors with random work; non-trivial with at least two items'),
    'C20': dict(fuzz=True, flags_fuzz=['-Wno-c++11-narrowing', '-fno-fast-math'], harness='c20_math.cpp', srcs=['datas/matrix44.cpp'],
        technique='property-based testing: per-component reference arithmetic for every vector type and operator form, double-precision reference for products and matrices, round trips rotation/quaternion and compose/decompose',
        rule='a case is one operation on generated vectors (boundary integers, wide-range floats, near-equal pairs, scalar and SIMD), a pair of matrices, a unit quaternion (half turns included) or a transform of any scale signs; non-trivial when the operands are not zero / the rotation is not the identity'),
    'C21': dict(harness='c21_owner.cpp',
        technique='model-based property-based testing: generated histories of container, handle and list operations against reference containers, a registry of live objects and interposed free()',
        rule='a case is a history of up to 24 operations on three containers and three foreign buffers, on five handles and a list of owned and borrowed objects, or on lists of elements; non-trivial when foreign storage is viewed, both owned and borrowed objects occur, or a list has two elements'),
    'C22': dict(fuzz=True, harness='c22_pointers.cpp',
        technique='model-based property-based testing: generated data blocks with pointer graphs and histories of fix-ups, repeated fix-ups, redirections and reloads against a table of expected targets',
        rule='a case is one or two blocks of nodes, leaves and pointer arrays laid out at random, addresses counted from any root, with up to 40 operations; non-trivial when two pointers are fixed up and one of them again'),
    'C23': dict(fuzz=True, fuzz_skip='many_files', harness='c23_zip.cpp', libs=['-lpthread'], variants=['rel', 'san', 'tsan'],
        technique='property-based testing: archives made by an independent ZIP writer over generated files, names, extra fields and comments, opened in generated orders and by several threads; damaged, cut and lying archives under sanitizers with a time limit',
        rule='a case is a generated archive with a history of openings, an archive with one entry that must be refused, a damaged or cut archive, or one ZIP record with random fields; non-trivial when two files exist and two openings read data, or the archive was changed'),
    'C24': dict(fuzz=True, harness='c24_crypt.cpp', srcs=['datas/encrypt/blowfish.cpp'],
        technique='differential and round-trip property-based testing: generated keys, vectors, modes, buffers and histories against an independent Blowfish whose tables are computed from pi (checked by published vectors), guard bytes around buffers',
        rule='a case is a key with a history of up to six buffers encoded and decoded in any mode, or a buffer and key of the XOR encoder; non-trivial when two blocks are coded / the buffer is longer than a key of two bytes or more'),
    'C25': dict(fuzz=True, harness='c25_blocks.cpp',
        technique='differential property-based testing: images of generated blocks decoded in any order against the definitions of the formats in double precision, every byte outside decoded pixels compared with before; plain against vectorised decoder',
        rule='a case is an image of up to 4 by 4 generated blocks (equal and neighbouring endpoints, all indices), one block for both decoders, or pixels of a normal map; non-trivial when two blocks (pixels) are decoded or the endpoints differ'),
    'C26': dict(fuzz=True, harness='c26_dds.cpp',
        technique='differential property-based testing: every pixel format with generated dimensions and levels against the published layouts in 64-bit arithmetic; conversions to and from legacy descriptions against the documented tables and each other; headers of any content under sanitizers',
        rule='a case is a format (DXGI number, fourCC or channel masks) with dimensions 1 to 2^20 (up to 15 levels) and a level count, a conversion with or without force, or a header written and read; non-trivial when there are levels or partial blocks, or the conversion is done'),
    'C27': dict(fuzz=True, harness='c27_morton.cpp', extra=['c27_other.cpp'],
        technique='differential property-based testing of texel addresses against bit-by-bit interleaving, and an exhaustive all-different check over every texel of generated textures',
        rule='a case is a texture of power-of-two dimensions 1 to 2^20 (up to 15 levels) with up to four texels, or all texels of a texture of up to 16384 texels; non-trivial when neither coordinate is zero / the texture has two rows and columns'),
    'C28': dict(fuzz=True, harness='c28_uni.cpp', srcs=['uni/uni_format.cpp', 'datas/matrix44.cpp'],
        technique='property-based testing: generated vertex layouts sampled and resampled in any order against per-component double arithmetic; generated implementations of the interfaces with outcome, lifetime and order oracles',
        rule='a case is a vertex layout of up to six attributes in three buffers with up to 24 vertices, one query of one interface with a generated set of supplied answers, or a skeleton and a motion whose lists are lent or made when asked; non-trivial when two attributes and vertices exist, the query is not supplied, or a made list has two items'),
    'C29': dict(fuzz=True, harness='c29_audio.cpp',
        technique='property-based testing: wave headers built from generated parameters compared byte by byte with the RIFF layout; generated RIFF files walked against the list of their chunks; other headers against the documented field offsets',
        rule='a case is a set of wave parameters, a RIFF file of up to eight chunks of any kind (padded ones too), or a header of random fields; non-trivial when data are calculated for two channels, two chunks exist, or a header is read'),
    'C30': dict(harness='c30_settings.cpp', srcs=REFL, libs=['-lpthread'],
        technique='property-based testing: help texts and log files of settings classes of all member kinds with generated values, against descriptions of the classes kept apart from reflection; each log in a process of its own',
        rule='a case is the help of one of three settings classes, or a log file with generated settings and up to eight messages; non-trivial when the class has descriptions or two messages are logged'),
    'C31': dict(fuzz=True, harness='c31_xmlfile.cpp', srcs=REFL, libs=['-lpugixml', '-lpthread'],
        technique='property-based testing: round trips of generated documents through files in every encoding and format, one document read under all combinations of parse flags, generated failures against the kind and text of the error',
        rule='a case is a document of up to 30 nodes written and read, a set of parse flags, a file that cannot be read or written, or an error about a node; non-trivial when the document has children, and always for flags and failures'),
    'C32': dict(harness='c32_basics.cpp', srcs=['datas/master_printer.cpp'], libs=['-lpthread'],
        technique='property-based testing: generated values for the helpers against straightforward definitions, generated magics and names against the exact error texts, list macros of every length, test macros over operand values and expression shapes against the outcome of the fully parenthesised comparison',
        rule='a case is one helper call, error, list length or test macro with operand values and an expression; non-trivial when bytes above 127, unaligned values, blanks at both ends, compound expressions or failing cases are involved'),
    'C33': dict(harness='c33_headers.cpp', variants=['rel'],
        technique='property-based testing of include orders: generated selections and orders of the public headers, in one unit or two units of one program, given to gcc 9, gcc 13 and clang in two language versions; must compile, link and start',
        rule='a case is one unit (or a program of two) that includes a generated sequence of headers under a generated compiler and options; every case is non-trivial'),
    'C34': dict(harness='c34_python.cpp', srcs=REFL + ['uni/python/uni_python.cpp', 'datas/matrix44.cpp'], extra=['c34_pystub.cpp'], inc=['harness/py2'],
        technique='model-based property-based testing: generated skeletons, motions and enumerations driven through the binding types by histories of attribute, item, loop, comparison and method calls in a stand-in for the Python 2 C interface that tracks every object and reference',
        rule='a case is a history of up to 40 calls on generated skeletons or motions (lent or handed over, lists made on demand or lent), calls with generated times, or an enumeration with generated names and positions; non-trivial when an item of a list with two entries is read, two times are asked for, or two names exist'),
}
NOT_APPLICABLE = {}
