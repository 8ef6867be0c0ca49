"""The catalogue of properties: properties.jsonl and MANIFEST.json are generated from it (python3 tools/catalog.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENC = 'oct/src/encode/encode/mod.rs'; DEC = 'oct/src/decode/decode/mod.rs'; SZ = 'oct/src/encode/sized_encode/mod.rs'
OUT = 'oct/src/encode/output/mod.rs'; INP = 'oct/src/decode/input/mod.rs'; SS = 'oct/src/sized_slice'; STR = 'oct/src/sized_str'; SLOT = 'oct/src/slot/mod.rs'; IT = 'oct/src/sized_iter/mod.rs'; ERR = 'oct/src/error'; MAC = 'oct-macros/src/impls'
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level='other'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level))
AI = 'abstract interpretation of the compiler\'s MIR (own relational linear-inequality domain, partitioned traces, symbolic streams) over contract functions that are generic in the element types'
AIN = 'Sound within the stated models of core/alloc; loops are followed symbolically a bounded number of iterations (lengths stay symbolic), the cut is reported in the evidence. '

prop('C01', 'Decoding reads back exactly what encoding wrote',
 'For every supported type and every value that can be encoded, decoding the produced bytes succeeds, yields an equal value and consumes exactly the bytes that were written. For points in time this holds up to whole seconds.',
 ['inputs', 'programs'], 'every value of every built-in encodable type, for arbitrary element types, lengths and capacities',
 'tests round-trip a few literals per type; the claim is over all values, all element types and all lengths',
 [ENC, DEC, 'oct/src/encode/output/mod.rs', 'oct/src/decode/input/mod.rs'],
 [('encode implementations', 'impl Encode for ... in ' + ENC), ('decode implementations', 'impl Decode for ... in ' + DEC), ('sized containers', SS + '/code.rs, ' + STR + '/code.rs')],
 AI + '; the recorded event stream of encode is replayed into decode and the two symbolic values are compared component-wise', AIN + 'The element type is an abstract parameter, so nesting follows by induction over types.')
prop('C02', 'Every encoding has the documented byte layout',
 'The bytes of an encoding are a fixed function of the value: numbers are little-endian at their declared width, pointer-sized integers are sixteen bits, sequences and strings carry a sixteen-bit length followed by their items in order, options, results and bounds carry their documented one-byte tag, and composite types are the concatenation of their parts in declaration order.',
 ['inputs', 'programs'], 'every value of every built-in encodable type',
 'a round trip cannot see a layout change made on both sides, and tests compare a handful of literal encodings',
 [ENC, SS + '/code.rs', STR + '/code.rs'], [('encode implementations', 'impl Encode for ... in ' + ENC)],
 AI + '; the event stream of the implementation is compared piece by piece with that of a reference encoder written from the documentation', AIN + 'Hash containers are compared in their own iteration order.')
prop('C03', 'No encoding is larger than the declared maximum size',
 'For every type that declares a maximum encoded size, every successful encoding of every value of that type is at most that many bytes, so a buffer of that size can always hold any value.',
 ['inputs', 'programs'], 'every value of every size-bounded type, for arbitrary element types and capacities',
 'tests compare the constant of a few concrete types with literals; none relates the constant to what encoding writes for all values',
 [SZ, ENC, SS + '/code.rs', STR + '/code.rs'], [('size constants', 'MAX_ENCODED_SIZE in ' + SZ)],
 AI + '; the symbolic size of the recorded stream is shown to be at most the symbolically evaluated constant', AIN + 'The bound of the element type is an uninterpreted non-negative constant.')
prop('C04', 'Derived codecs encode fields in order and variants by discriminant',
 'For every structure or enumeration with derived codecs, the encoding is the concatenation of its fields in declaration order, an enumeration writes the discriminant of its variant first in the declared representation (implicit discriminants count up from the previous one, starting at zero), decoding reads the same value back, unknown discriminants are refused with the value that was read, and the derived maximum size is never exceeded.',
 ['programs', 'inputs'], 'every shape of structure and enumeration (unit, tuple, named fields; every integer representation; explicit and implicit discriminants) over arbitrary field types',
 'the derive macros are covered by two example types; the claim is over every shape and all field values',
 [MAC + '/encode_struct.rs', MAC + '/encode_enum.rs', MAC + '/decode_struct.rs', MAC + '/decode_enum.rs', MAC + '/sized_encode_struct.rs', MAC + '/sized_encode_enum.rs', 'oct-macros/src/discriminants/mod.rs', 'oct-macros/src/repr/mod.rs'],
 [('derived bodies', MAC), ('discriminant assignment', 'oct-macros/src/discriminants/mod.rs')],
 AI + '; witness types are expanded by the current macros and the generated code is interpreted over abstract field types', AIN + 'The shapes are a catalogue of witness types; a shape outside the catalogue is not decided.')

prop('C05', 'Streams never leave their buffer and move exactly by what was transferred',
 'A read or write succeeds if and only if the requested bytes fit into what remains. A successful write places exactly the given bytes at the cursor, changes nothing else and advances the cursor by their number; a successful read yields exactly the bytes at the cursor and advances by their number; a failed one leaves stream, buffer and destination as they were and reports capacity, position and count. Streams start at the beginning, the cursor never passes the end, and every view of an output stream is exactly the written prefix.',
 ['inputs', 'histories'], 'every buffer, every cursor position reachable by earlier transfers, every requested length',
 'tests write a few literals; the bounds hold for all lengths including those near the end of the buffer and of the address space',
 [OUT, INP], [('cursor arithmetic', OUT + ', ' + INP), ('views', 'AsRef, Borrow, PartialEq in ' + OUT)],
 AI + ' over symbolic buffers; contents are compared at an arbitrary index', AIN)
prop('C06', 'Decoding yields only valid values and accepts every valid encoding',
 'For arbitrary input bytes, decoding either succeeds with exactly the value that the documented layout assigns to them, consuming exactly those bytes, or refuses them; it refuses exactly the malformed encodings: code points that are not scalar values, zero for non-zero numbers, unassigned tags, lengths above the capacity, bytes that are not UTF-8 and C strings with an inner NUL. No value that its type forbids ever comes into existence.',
 ['inputs', 'programs'], 'every byte sequence, for every built-in decodable type and arbitrary element types',
 'tests decode a few well-formed and hardly any malformed inputs; the claim is over all byte sequences',
 [DEC, SS + '/code.rs', STR + '/code.rs', STR + '/mod.rs'], [('decode implementations', 'impl Decode for ... in ' + DEC), ('validity checks before unchecked constructors', DEC)],
 AI + '; the decoder and a reference decoder written from the documentation read the same symbolic input and must agree', AIN + 'UTF-8 validity is the library predicate itself.')
prop('C14', 'Errors name what failed and where',
 'Every failure is reported with what caused it: the index of the failing item and the error of that item, the offending length and the capacity, the offending byte, code point, discriminant, timestamp or number. The first failure in order is the one reported.',
 ['inputs'], 'every failing encode or decode of every built-in type, at every position',
 'existing tests hardly look into errors; the claim covers every position and every cause',
 [ENC, DEC, SS + '/code.rs', STR + '/code.rs', ERR], [('error construction', 'map_err(...) in ' + DEC + ', ' + ENC)],
 AI + '; the error is compared component-wise with that of a reference codec', AIN)
prop('C15', 'Malformed input never panics',
 'Decoding never panics as long as the input holds as many bytes as the encoding needs, whatever these bytes are: malformed input is answered with an error.',
 ['inputs'], 'every byte sequence that does not end early, for every built-in decodable type except the uninhabited one',
 'no test feeds malformed input; a panic on hostile input is a denial of service', [DEC, SS + '/code.rs', STR + '/code.rs'],
 [('unwrap and unreachable in decoders', DEC)], AI + '; every panic edge that is not preceded by a failed read must be infeasible', AIN)
prop('C16', 'A value is refused exactly if it cannot be encoded',
 'Encoding refuses a value if and only if it does not fit the format: pointer-sized integers outside of sixteen bits, sequences and strings of more than 65535 items, cells that are mutably borrowed, or values with such a part. What is accepted is encoded completely; nothing is ever truncated silently.',
 ['inputs', 'programs'], 'every value of every built-in encodable type',
 'tests encode small values; the boundary at sixteen bits and failures of single items are not exercised', [ENC, SS + '/code.rs', STR + '/code.rs'],
 [('length and pointer-sized integer encoding', 'impl Encode for usize, isize, [T] in ' + ENC)],
 AI + '; acceptance, bytes and error are compared with a reference encoder over the same symbolic value', AIN)

prop('C07', 'Containers hold exactly their live prefix within their capacity',
 'A sized slice or sized string never holds more than its capacity: what fits is stored unchanged and in order, what does not is refused with capacity and length, and the container is then untouched or not created. Its length, emptiness and fullness agree with each other, every view (slice, string, pointer, indexing, iteration, formatting target) is exactly the live prefix, writes through views stay inside of it, and strings are always valid UTF-8.',
 ['inputs', 'histories'], 'every capacity, every length up to it, every element type, every argument of every public operation',
 'tests use a handful of capacities and lengths; the invariants hold for all of them and after every operation',
 [SS + '/mod.rs', SS + '/conv.rs', STR + '/mod.rs', STR + '/conv.rs'], [('length bookkeeping', 'SizedSlice::{copy_from_slice, set_len, from_raw_parts, ...} in ' + SS + '/mod.rs'), ('validity of strings', 'SizedStr::{from_str, from_utf8, ...} in ' + STR)],
 AI + ' over containers with symbolic capacity and live prefix; contents are compared at an arbitrary index, each operation re-establishes the container invariant', AIN)
prop('C09', 'The consuming iterator yields every remaining element once, in order, from both ends',
 'A sized iterator yields exactly the remaining elements: from the front in order, from the back in reverse, each exactly once, and nothing after the last one. Its length and size hint are the exact number of remaining elements, its views are exactly the remaining elements, and a clone yields the same elements independently of the original.',
 ['inputs', 'histories'], 'every window of every capacity, i.e. every state that any interleaving of calls can reach',
 'tests walk one array once; the claim is over every interleaving of next, next_back, nth and clone',
 [IT, SS + '/iter.rs'], [('window bookkeeping', 'Iterator, DoubleEndedIterator for SizedIter in ' + IT)],
 AI + ' over an iterator with an arbitrary window: one step from every reachable state decides all histories by induction', AIN)
prop('C11', 'A slot holds exactly the last encoding that was written',
 'A slot has a fixed capacity that its length never exceeds. A successful write leaves it holding exactly the encoding of the value, whatever it held before; a failed write is reported with the error of the encoding. Reading decodes exactly the used part from its beginning, so that what was written is read back. All views of the contents are the used part, mutable views the whole buffer, and slots compare like their contents.',
 ['inputs', 'histories'], 'every capacity, every earlier content, every value of every encodable type',
 'tests write a few numbers into fresh slots; stale contents and lengths only show after earlier writes',
 [SLOT], [('writing and reading', 'Slot::{write, read} in ' + SLOT), ('length bookkeeping', 'Slot::{set_len, copy_from_slice} in ' + SLOT)],
 AI + ' over slots with arbitrary capacity, length and contents; the encoding of an abstract element type is an uninterpreted byte sequence', AIN)
prop('C23', 'Conversions between containers keep every element in order',
 'Converting between sized slices, arrays, boxed slices, vectors, sized strings, boxed strings and strings keeps exactly the live elements in their order; conversions that could lose elements are refused with capacity and length; converting there and back is the identity.',
 ['inputs', 'programs'], 'every capacity and length, every element type including zero-sized ones',
 'tests convert one literal each; raw copies and ownership transfers must be right for every length and element type',
 [SS + '/conv.rs', STR + '/conv.rs'], [('reallocation', 'SizedSlice::into_boxed_slice in ' + SS + '/conv.rs'), ('conversion traits', 'From, TryFrom in ' + SS + '/conv.rs, ' + STR + '/conv.rs')],
 AI + '; source and result are compared at an arbitrary index', AIN)

prop('C10', 'Equality, ordering, hashing and borrowing of containers agree with their contents',
 'Two sized slices, sized strings, slots or outputs are equal exactly when their live elements are, whatever their capacities and whatever lies beyond the length; comparison with arrays, slices, vectors, strings and string slices says the same; ordering is the ordering of the contents, is total and antisymmetric and agrees with equality; hashing feeds the hasher what the borrowed slice or string would feed, so that borrowed forms can be used as map keys.',
 ['inputs', 'programs'], 'every pair of contents and lengths, every pair of capacities, every element type and hasher',
 'tests compare a few literals of equal capacity; coherence of Eq, Ord, Hash and Borrow is a relation over all pairs',
 [SS + '/cmp.rs', STR + '/cmp.rs', SLOT], [('comparison', 'PartialEq, PartialOrd, Ord in ' + SS + ', ' + STR), ('hashing', 'Hash in ' + SS + ', ' + STR), ('borrowing', 'Borrow, AsRef in ' + SS + ', ' + STR)],
 AI + '; comparison of slices of an abstract element type is an uninterpreted relation, hasher states are terms over what was fed', AIN)

prop('C18', 'Memory safety: no stale, foreign or invalid memory is ever touched',
 'No safe operation reads or drops memory that holds no live value, leaves the bounds of its object, overflows in unchecked arithmetic, reaches code that is declared unreachable, or creates a string that is not UTF-8 or a character that is not a scalar value; lengths never exceed capacities, and every slice that is handed out covers initialised elements of one object only.',
 ['inputs', 'histories', 'programs'], 'every call of the safe interface with every state of its containers, capacity, length, element type and input bytes',
 'undefined behaviour does not fail a test reliably, and tests sample a handful of lengths; the obligations hold for all of them',
 [SS + '/mod.rs', SS + '/conv.rs', STR + '/mod.rs', STR + '/conv.rs', SLOT, IT, OUT, INP, ENC, DEC], [('uninitialised storage', 'MaybeUninit buffers in ' + SS + '/mod.rs, ' + IT + ', ' + SLOT), ('unchecked operations', 'unsafe blocks of ' + OUT + ', ' + INP + ', ' + STR), ('unchecked strings and characters', 'from_utf8_unchecked, from_u32_unchecked in ' + STR + ', ' + DEC)],
 AI + '; every unsafe operation met on any path of any contract is an obligation of the abstract memory (bounds, initialisation, liveness, validity)', AIN + 'Obligations of unsafe functions that the interface exposes as unsafe are assumed. Leaks are not unsafe and belong to another property.')

prop('C08', 'Every element has exactly one owner: it is kept, handed out or dropped once',
 'Constructing, converting, cloning, iterating, truncating, overwriting and decoding containers never drop an element that is still reachable, never drop one twice and never lose one silently: what goes in comes out, stays in, or is dropped exactly once. When decoding fails, everything that was decoded until then is dropped. Dropping a container or an iterator drops what is left in it.',
 ['inputs', 'histories', 'programs'], 'every operation on every state of its container, every element type, length and capacity, every point at which decoding an element fails',
 'tests use elements without destructors and do not count drops; double drops and leaks show only for particular lengths and failure points',
 [SS + '/mod.rs', SS + '/conv.rs', IT, DEC], [('transfer of ownership', 'ManuallyDrop and ptr::copy in ' + SS + '/conv.rs'), ('partially built arrays', 'Decode for [T; N], SizedSlice in ' + DEC + ', ' + SS), ('windows', 'SizedIter in ' + IT)],
 AI + '; destructors of an abstract element type are recorded as they run, and compared, as multisets, with what was there before and what is reachable afterwards', AIN + 'Unwinding out of a panicking element operation is not covered.')

ERRD = 'oct/src/error'
prop('C13', 'Errors keep their cause when they are converted, and impossible errors stay impossible',
 'Converting the error of any built-in codec into the generic decode or encode error keeps the innermost cause with all its details: a length stays a length with the same capacity, an unassigned discriminant is reported with its representation zero-extended, a wrapper becomes what its cause becomes. Everything that can be encoded or decoded can be a field of a derived type, because its error converts. The source of a wrapping error is the wrapped error. Only errors that cannot occur convert into Infallible, and that conversion never panics.',
 ['inputs', 'programs'], 'every error type of the crate with every cause, every details, and arbitrary nested error types',
 'tests convert no errors; whether every combination of codecs composes under derive is a question about all types, not about samples',
 [ERRD + '/generic_decode_error.rs', ERRD + '/generic_encode_error.rs', 'oct/src/primitive_discriminant/mod.rs', ERRD + '/collection_decode_error.rs', ERRD + '/enum_decode_error.rs'], [('conversion', 'From for GenericDecodeError, GenericEncodeError, Infallible in ' + ERRD), ('discriminants', 'PrimitiveDiscriminant::to_u128'), ('sources', 'Error::source in ' + ERRD)],
 AI + ' for the conversions, with uninterpreted conversions for arbitrary nested errors; type-level witnesses (bounds that must hold, bounds that must not) for composition', AIN)

prop('C26', 'What is shown is what is there',
 'Formatting a sized slice or sized string is formatting its live contents with the options of the caller (padding, alternate form); the debug form of a slot shows exactly its used part. The message of every error shows each of its details, in order: InputError and OutputError the count, the position and the capacity; LengthError the capacity and the length; item errors the index and then the cause; string errors the octet or hextet and then its index; wrapping errors their cause.',
 ['inputs', 'programs'], 'every error value with every details and nested error type; every content, capacity and formatting option of the containers',
 'tests compare no messages; the claim is over every value and every nested error type',
 [ERRD + '/input_error.rs', ERRD + '/output_error.rs', ERRD + '/length_error.rs', ERRD + '/item_decode_error.rs', SS + '/mod.rs', STR + '/mod.rs', SLOT], [('messages', 'Display in ' + ERRD), ('containers', 'Debug, Display in ' + SS + '/mod.rs, ' + STR + '/mod.rs, ' + SLOT)],
 AI + '; a formatter is the sequence of values that it was given to show', AIN + 'The wording of messages is not judged.')

TY = 'type-level witnesses: programs that the compiler must accept and twins, one construct away, that it must refuse, judged against the current source'
TYN = 'Decided by the type checker and borrow checker of the compiler for all values and all instantiations that a witness quantifies over; the witnesses are a catalogue, and a construct outside of it is not judged.'
prop('C12', 'The crate works with every combination of its features',
 'With every combination of the features alloc, proc-macro and std the crate type-checks and offers exactly what the documentation assigns to them: codecs of core types, sized containers, streams and errors always; slots and codecs of boxes, vectors, strings and shared pointers with alloc; codecs of hash containers, locks and system time with std; derives with proc-macro alone. Without std nothing depends on the standard library, and without alloc nothing depends on an allocator. Functions declared to be usable in constants are.',
 ['programs'], 'every combination of features, every built-in codec, every public item',
 'tests run with the default features only',
 ['oct/src/lib.rs', ENC, DEC, SZ, 'oct/src/error/mod.rs', STR + '/conv.rs'], [('feature gates', 'cfg(feature = ...) in oct/src')],
 TY + ', once for each of the eight combinations; the crates that the metadata depends on are listed', TYN)
prop('C22', 'No view outlives or aliases what it views',
 'Whatever is borrowed from a container, an iterator, a slot or a stream cannot be used after its owner was moved, dropped or changed; what can be written through is borrowed exclusively, so two writers never see the same memory and a shared reference never allows to write. Bytes that were read from an input stream live as long as the buffer, independently of the stream; an output stream has its buffer for itself; decoded values do not depend on the buffer at all.',
 ['programs', 'histories'], 'every program that uses the safe interface, every element type, capacity and lifetime',
 'a program that must not compile cannot be part of a test suite, and the tests use views only correctly',
 [SS + '/conv.rs', STR + '/conv.rs', IT, SLOT, OUT, INP], [('views', 'as_slice, as_mut_slice, as_str, each_ref, each_mut, Deref, Index in ' + SS + ', ' + STR + ', ' + SLOT), ('streams', OUT + ', ' + INP)],
 TY, TYN)
prop('C24', 'Safe code cannot break the invariants of a type',
 'What trusts its caller is unsafe to call; the parts of a type that must agree are private; the bytes of a sized string cannot be written by safe code; conversions that may not fit are fallible; containers are cloned, sent and shared between threads exactly when their elements may be; lifetimes of elements are never lengthened; a slot is read only as the type it was written for; only primitive integers are discriminants; a largest size is declared only for bounded types; only matching schemes are declared to decode each other; and composite codecs exist exactly when the codecs of their parts do.',
 ['programs'], 'every program that uses the safe interface, every element type',
 'a program that must not compile cannot be part of a test suite',
 [SS + '/mod.rs', STR + '/conv.rs', IT, SLOT, 'oct/src/primitive_discriminant/mod.rs', SZ, 'oct/src/decode/decode_borrowed/mod.rs'], [('unsafe constructors', SS + '/conv.rs, ' + STR + '/conv.rs, ' + SLOT), ('sealed trait', 'oct/src/primitive_discriminant/mod.rs'), ('marker types', 'Slot in ' + SLOT)],
 TY, TYN)
prop('C25', 'Every structure and enumeration whose fields have codecs can derive them',
 'The derive macros accept every structure and enumeration with encodable fields, in every program: any number and kind of fields and variants, any names, lifetimes, type and constant parameters with bounds and defaults, attributes, every representation with positive and negative discriminants over its whole range, types defined by macros or inside functions, and programs that take the names of the prelude. They refuse unions, fields without codec, unbounded fields for a largest size, and discriminants that do not fit.',
 ['programs'], 'every shape of type and every surrounding program in the catalogue, for arbitrary field types',
 'tests derive codecs for two plain types; what matters is which programs compile',
 ['oct-macros/src/impl_derive_macro.rs', MAC + '/encode_struct.rs', MAC + '/encode_enum.rs', MAC + '/decode_struct.rs', MAC + '/decode_enum.rs', MAC + '/sized_encode_struct.rs', MAC + '/sized_encode_enum.rs', 'oct-macros/src/discriminants/mod.rs', 'oct-macros/src/generic_name/mod.rs', 'oct-macros/src/repr/mod.rs'], [('expansion', 'oct-macros/src'), ('generics', 'oct-macros/src/generic_name/mod.rs')],
 TY, TYN)

prop('C20', 'Encoding observes and changes nothing',
 'Encoding reads its value through shared access only: it never writes to it, and takes shared borrows and read locks where there is a choice, so that readers elsewhere do not hinder it. When it returns, whether it succeeded or failed, every borrow and lock it took has been given back. Encoding the same value again has the same outcome: the same bytes, or the same error.',
 ['inputs', 'histories', 'programs'], 'every value of every built-in and derived type, every borrow and lock state, every point at which encoding an element fails',
 'tests encode a value once and drop it; leaked guards and exclusive locks only show in what happens elsewhere or later',
 [ENC, 'oct/src/encode/output/mod.rs', SS + '/code.rs', STR + '/code.rs', 'oct/src/error/ref_cell_encode_error.rs'], [('locks', 'Encode for Mutex, RwLock, RefCell in ' + ENC), ('interior mutability', 'Encode for Cell and atomics in ' + ENC)],
 AI + '; borrows and locks are resources (typestate), stores are effects', AIN)
prop('C21', 'Types with the same scheme decode each other',
 'Whenever a type declares that it decodes in place of another (DecodeBorrowed), or has the documented scheme of another, then decoding it from the encoding of the other succeeds, consumes exactly what was written, and yields the same contents: owned forms for borrowed ones (vectors for slices, strings for str, boxes, reference-counted pointers, Cow), values for references and pointers to them, cells for plain values, vectors for sized slices and for the octets of strings, arrays for tuples of equal elements.',
 ['inputs', 'programs'], 'every value of every pair of such types, every element type that encodes itself faithfully',
 'tests encode and decode with one and the same type',
 ['oct/src/decode/decode_borrowed/mod.rs', DEC, ENC, SS + '/mod.rs', STR + '/mod.rs'], [('DecodeBorrowed', 'oct/src/decode/decode_borrowed/mod.rs'), ('Cow', DEC)],
 AI, AIN)

prop('C27', 'Debug and release builds behave alike',
 'Whether debug assertions and overflow checks are on or off makes no difference to a program that keeps to the documentation: for every value, input, capacity and state, no arithmetic of the crate overflows and none of its debug assertions fails, in encoding, decoding (also of malformed inputs), containers, iterators, slots, conversions and errors.',
 ['inputs', 'histories'], 'every argument and reachable state of every function of the crate, for arbitrary element types',
 'tests run in one profile, on sizes at which nothing overflows',
 ['oct/src/sized_slice/mod.rs', 'oct/src/sized_slice/conv.rs', 'oct/src/sized_str/conv.rs', IT, SLOT, DEC, ENC, 'oct/src/decode/input/mod.rs', 'oct/src/encode/output/mod.rs'], [('debug assertions', 'from_raw_parts, set_len_unchecked and friends'), ('plain arithmetic', 'all of oct/src')],
 AI + '; the crate is compiled with its debug assertions, each of which is an obligation, as is every plain arithmetic operation', AIN)
prop('C28', 'Memory is allocated only for what is owned',
 'No value, input, capacity or state makes the crate allocate heap memory for anything but what the result owns: encoding allocates nothing, whatever is encoded; decoding a type that owns no heap memory allocates nothing, and decoding one that does never asks for room for more items than its length prefix announces; fixed-capacity slices and strings, iterators and streams never allocate; a slot is written and read in the memory it was created with; and moving contents to the heap takes room for those contents only.',
 ['inputs', 'histories'], 'every value of every encodable type (arbitrary element types), every input of every decodable type, every container state and capacity',
 'an allocation changes no result that a test compares; which inputs cause it is open',
 [DEC, ENC, SLOT, IT, 'oct/src/sized_slice/conv.rs', 'oct/src/sized_str/conv.rs', 'oct-macros/src/impls/encode_struct.rs'], [('stack-allocated containers', 'sized_slice, sized_str'), ('streams over borrowed buffers', 'encode/output, decode/input'), ('capacity from the length prefix', 'decode/decode/mod.rs')],
 AI + '; every construct that takes heap memory (box, vector, string, list, map, raw allocation) is an obligation against the limit of the contract', AIN)
prop('C29', 'Encodings do not depend on the platform',
 'On every platform - big-endian or little-endian, with pointers of 64 or of 32 bits - every value is encoded into the same octets, decoded from the same octets to the same value, and refused for the same reason: numbers are little-endian whatever the platform prefers, lengths, discriminants and pointer-sized integers take the documented width whatever the width of a pointer, and no value passes through an integer that is narrower on some platforms.',
 ['inputs', 'configurations'], 'every value and input, on platforms of either order of bytes and of either width of pointers',
 'tests run on the platform of the developer, where native order is little-endian and pointers are wide',
 [ENC, DEC, 'oct/src/encode/sized_encode/mod.rs', SLOT, 'oct-macros/src/impls/encode_enum.rs', 'oct/src/decode/input/mod.rs', 'oct/src/encode/output/mod.rs'], [('to_le_bytes, from_le_bytes', 'impl_numeric'), ('usize as u16, isize as i16', 'encode/encode/mod.rs, decode/decode/mod.rs')],
 AI + '; the contracts of layout, round trip, decoding, refusal, maximum size, streams, slots and derives are analysed once more for a big-endian platform of 64 bits and for a little-endian one of 32 bits, against a standard library of that platform', AIN)
prop('C30', 'The crate builds for every kind of processor, with what it supports',
 'The crate type-checks with every feature set that a platform can have, for platforms with pointers of 16, 32 and 64 bits, of either order of bytes, with and without atomics, with and without an allocator or the standard library; and on each of them it offers every codec, container, stream and error of the enabled features, including codecs for exactly the atomic types that the platform has.',
 ['configurations', 'programs'], 'platforms of every width of pointers and of every support of atomics, every feature set available there',
 'tests are built for one platform, which has all atomics and wide pointers',
 [ENC, DEC, 'oct/src/encode/sized_encode/mod.rs', 'oct/src/decode/decode_borrowed/mod.rs', 'oct/src/lib.rs'], [('cfg(target_has_atomic)', 'impl_atomic, Arc'), ('no_std', 'oct/src/lib.rs')],
 TY, TYN)

NA = []
def na(id, reason): NA.append({'property': id, 'reason': reason})

def main():
    sys.path.insert(0, os.path.join(ROOT, 'engine')); sys.path.insert(0, os.path.join(ROOT, 'rules')); sys.path.insert(0, ROOT)
    import props
    naids = {x['property'] for x in NA}
    ps = [p for p in P if p['id'] in props.CHECKS or p['id'] in naids]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in ps:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 engine/facts.py', 'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in ps if p['id'] in props.CHECKS],
        'not_applicable': NA, 'notes': 'All checks share engine/ (abstract interpreter), driver/ (rustc driver exporting MIR) and w/ (contract functions). See DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(man, f, indent=1); f.write('\n')
    missing = [k for k in props.CHECKS if k not in {p['id'] for p in P}]
    if missing: print('no catalogue entry for', missing)
    print(len(ps), 'properties')
main()
