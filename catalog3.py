from catalog import prop

prop("C22", "enum_set and flag operators are exact bit algebra on the enum's values",
     "Every operator of enum_set and of enums opted into enum_traits (~ & | ^ << >> ++ unary + and their assigning forms, check_mask, mixed set/enumerator operands, comparison, has_any, has_all, test, conversion to bool, value and underlying_value) "
     "computes exactly the result of the same operation on the underlying type, for signed and unsigned underlying types of every width, including operands with bits no enumerator names. Assigning operators change and return their left operand "
     "and nothing else; for_each_enum visits every value of [first, last) exactly once, in increasing order.",
     ["inputs", "histories"], "every pair of 8-bit operands, boundary operands of wider types, every short program of operations",
     "The tests try a handful of named masks; sign extension, high bits, unnamed bits and mixed operand orders only show for particular operands.",
     ["include/kl/enum_set.hpp", "include/kl/enum_traits.hpp", "include/kl/reflect_enum.hpp"],
     [("bit operations on the underlying value", "enum_set operators in include/kl/enum_set.hpp"), ("enumeration of members", "for_each_enum")],
     "exhaustive enumeration of operand pairs and operation programs against reference bit arithmetic, on the real code",
     "For enums with 8 underlying types (8 to 64 bits, signed and unsigned) every pair of operands goes through every operator in every operand order and is compared with arithmetic done in unsigned __int128 and reduced; programs of assigning operators run against a reference value.",
     "all 65536 pairs for 8-bit types, all pairs of boundary and single-bit patterns for wider ones; programs of up to 4 (5) operations",
     "Bounded-exhaustive; exhaustive for 8-bit enums.", observe=["results and left operands of every operator"])

prop("C23", "Reflected enums convert to and from strings one-to-one with their declaration",
     "For every reflected enum, to_string of a declared enumerator gives exactly its declared (or renamed) name, and of any other underlying value the fallback passed to it or declared for the enum; from_string accepts exactly the declared names, byte for byte, "
     "and gives the enumerator that carries it, with an empty optional for every other text (prefixes, extensions, case variants, embedded NULs, empty). count, values and constexpr_values list the enumerators in "
     "declaration order and agree with the conversions; namespaces, gaps, duplicates, negative and extreme values, and 1 to 100+ enumerators make no difference.",
     ["inputs"], "every underlying value of 8/16-bit enums and boundaries of wider ones, every short text over the names' letters and every edit of every name",
     "Tests convert a few enumerators of three enums; near-miss texts, unnamed values and large enums form the space in which lookups go wrong.",
     ["include/kl/reflect_enum.hpp", "include/kl/enum_reflector.hpp"],
     [("name tables", "KL_REFLECT_ENUM / enum_reflector"), ("lookup", "to_string / from_string")],
     "exhaustive enumeration of values and texts against declared tables, on the real code",
     "22 enums (scoped, unscoped, nested, renamed, duplicate values, every underlying type, 1 to 120 enumerators); for each, every value in its sweep and every text in the edit neighbourhood of each name plus all short texts.",
     "all values for 8- and 16-bit underlying types, boundary neighbourhoods otherwise; all texts up to 4 (5) letters, all single edits of each name",
     "Bounded-exhaustive on the real headers.", observe=["returned names, enumerators, optionals and listings"])

prop("C24", "Enum ranges and iterators visit exactly the declared range, as random access",
     "Iterating an enum_range yields, for a range declared open or closed by its traits, every value from the first to the last exactly once, in increasing order; min, max and count agree with it. The iterators obey the random-access laws: ++ and -- and += and -= "
     "and + and - are inverse and compose, the difference of two iterators is the number of steps between them with the right sign, comparisons agree with that difference, and [] agrees with + and *. The same laws hold for user-defined iterators built on iterator_facade. "
     "in_range is true exactly for the values inside the declared range, whatever integral type the argument has.",
     ["inputs", "histories"], "every position pair and every short program of iterator operations for every declared range; every argument of every integral type",
     "Tests loop over two ranges and check one or two offsets; sign and boundary errors appear at particular pairs of positions and argument types.",
     ["include/kl/enum_range.hpp", "include/kl/enum_traits.hpp", "include/kl/iterator_facade.hpp", "include/kl/range.hpp"],
     [("iterator arithmetic", "iterator_facade.hpp operators"), ("range bounds", "enum_traits::in_range, min_value, max_value")],
     "exhaustive enumeration of iterator programs and arguments against an index model, on the real code",
     "Each iterator program runs beside a plain integer index; after every step the value, differences to all other iterators, and all comparisons are checked. in_range is called with every value of the 8- and 16-bit types and boundary values of the 32- and 64-bit ones, in each of the ten integral types.",
     "ranges of up to 256 values, programs of up to 4 (5) operations, all position pairs",
     "Bounded-exhaustive. Closed ranges that end at the underlying type's maximum are not supported by the library and not judged.", observe=["values, differences, comparisons, in_range results"])

prop("C25", "split and join: tokens are exactly the text between delimiters; joins inverse",
     "split and for_each_token yield, in order, exactly the maximal pieces of the text that contain no delimiter: nothing lost, duplicated, merged or reordered; with skip_empty empty pieces are left out, without it they are kept (a trailing empty piece is "
     "not reported). Any byte may be a delimiter or text, and any container of characters may hold them. stream_join writes the elements in order with the delimiter exactly between neighbours and the empty-string text exactly when there are none; "
     "outstream_joiner and make_outstream_joiner write the same sequence for every way it is fed, including interleaved joiners and copies.",
     ["inputs", "histories"], "every short text over letters and delimiters, every delimiter set, every short sequence and every interleaving of joiners",
     "Tests split a few sentences; runs of delimiters at the start, the end and in the middle, multiple delimiters and empty inputs are a combinatorial space.",
     ["include/kl/split.hpp", "include/kl/stream_join.hpp"], [("token loop", "for_each_token"), ("first-element flag", "outstream_joiner::operator=")],
     "exhaustive enumeration of texts, sequences and feed orders against a reference splitter/joiner, on the real code",
     "All texts over an alphabet of letters and delimiters times delimiter sets, string types and skip_empty; all byte pairs; all short sequences through every way of joining.",
     "texts up to 5 (6) characters over 5 symbols, up to 14 over 2; all 256 x 256 delimiter/text byte pairs; sequences up to 5 (6) elements, interleavings of 6 (8) writes",
     "Bounded-exhaustive on the real headers.", observe=["token vectors, written streams"])

prop("C26", "zipped, enumerated, iota, tuple helpers and range walk sequences exactly",
     "kl::zipped pairs the i-th elements of all its sequences, by reference, for exactly as many positions as the shortest has; it reads no element past that and never dereferences or advances an end iterator beyond need. enumerated numbers the elements from zero. iota_range yields exactly the "
     "half-open interval it was given, for every integral type, up to the type's limits. Iterators compare, copy and advance as their category says. range reproduces the begin, end and size of what it was built from, and the tuple helpers apply "
     "the function to every element exactly once, in order, passing references through.",
     ["inputs", "histories"], "every combination of sequence kinds and lengths, every interval, every short program of reads and increments",
     "Tests zip two or three sequences of fixed lengths; which is shortest, emptiness, and iterator copies are a product space.",
     ["include/kl/zip.hpp", "include/kl/tuple.hpp", "include/kl/range.hpp", "include/kl/iterator_facade.hpp"],
     [("end detection: any sequence exhausted", "zipped_sentinel::not_equal, tuple::not_equal_fn"), ("for_each / transform helpers", "include/kl/tuple.hpp")],
     "exhaustive enumeration of sequences and iterator programs against an index model, on the real code (ASan)",
     "Every pair of sequence kinds (vector, list, deque) and lengths, C arrays and unusual sequences; up to four sequences; instrumented sequences report reads past the end; every iota interval of the 8-bit types and boundary intervals of wider ones.",
     "lengths up to 6 (9) for pairs, 4 (5) for up to four sequences; all 8-bit iota intervals",
     "Bounded-exhaustive on the real headers.", observe=["visited tuples, addresses, number of dereferences and increments"])

prop("C27", "exception_info carries exactly what was set, through copies, throws and failures",
     "An exception_info returns for each tag exactly the value last set and not unset (unset takes back the latest value of its tag and nothing else), whatever was set or unset on other tags or on other infos: copies see the values present when they were made, and setting or unsetting on one never changes "
     "the other. throw_with_info throws an object catchable as the original type (and as exception_info) with its state intact and carrying the info and its location; get_exception_info finds it through any polymorphic base. diagnostic_info and exception_diagnostic_info list the location, the dynamic type, what() and each value, newest first. When an "
     "allocation or a copy of a value fails, the exception propagates, the info keeps its previous values and nothing leaks or is freed twice.",
     ["inputs", "histories", "faults"], "every short program of set/unset/copy/assign/swap/get on two infos, every failing allocation or copy in them, every way of throwing and catching",
     "Tests set two or three tags once; sharing between copies, unset in the middle of the list, and failing allocations need a history or a fault at a particular point.",
     ["include/kl/exception_info.hpp"], [("linked list of nodes shared between copies", "exception_info"), ("wrapping exception", "throw_with_info / exception_info::location")],
     "exhaustive enumeration of operation histories with fault injection at every allocation and copy, against a map model, on the real code",
     "Every program over 3 tags and two infos; each one re-run once per allocation/copy with that one failing; leak and double-free accounting by counted values and ASan.",
     "programs of up to 4 (5) operations, deep lists of up to 5 (6) operations on prefilled infos; 4 kinds of thrown type",
     "Bounded-exhaustive. Values are shared between copies by design, so in-place mutation through a non-const get is only judged on unshared infos; the state of virtual bases of a thrown type is not judged (wrapping copies them by C++ rules).",
     observe=["values of all tags on all infos, diagnostic texts, caught objects, live value counts"])

prop("C28", "file_view shows exactly the file's bytes or throws, and never leaks or overlaps",
     "A constructed file_view presents exactly the bytes of the file at that time, for every size (including empty and around page boundaries), and keeps doing so after the descriptor is closed and other views come and go. If any system call on the way fails, the constructor throws "
     "instead of presenting wrong memory. On every path, success or failure, each descriptor is closed exactly once and each mapping unmapped exactly once with its full length; moving or copying never leads to a second release.",
     ["inputs", "faults", "histories"], "every file size around the boundaries, a failure of each system call, every short program of opening, dropping and moving views",
     "Tests map one existing file; failures of fstat or mmap and the releases on those paths are never exercised.",
     ["include/kl/file_view.hpp", "src/file_view_unix.cpp"], [("open, fstat, mmap and their cleanup", "file_view::file_view in src/file_view_unix.cpp")],
     "exhaustive fault injection at every system call (link-time wrappers) and enumeration of view histories, on the real code",
     "open, openat, fstat, stat, read, lseek, mmap, munmap and close are wrapped; the n-th call fails for every n and several errnos; the wrapper's ledger of live descriptors and mappings must be empty at the end and is checked at each release.",
     "programs of up to 5 (6) steps over 3 views; sizes 0, 1, around 1 to 3 pages and 64 KiB; all single faults",
     "Bounded-exhaustive, POSIX implementation only (the Win32 file cannot be compiled here).", observe=["presented bytes, exceptions, live descriptors and mappings"])

prop("C29", "Hashes equal their published definitions for every byte string",
     "fnv1a is the 32-bit FNV-1a and hsieh the SuperFastHash of exactly the given bytes, for every length and alignment and every byte value, embedded NULs included, on every path (pointer and length, literal, std::string, the _h literal), at run time as at compile time. "
     "No call reads outside the given bytes or has undefined behaviour.",
     ["inputs"], "every byte string up to the bound, every byte at every position of longer ones",
     "Tests compare a few ASCII words; bytes above 0x7f, tail lengths and alignment are where such code goes wrong.",
     ["include/kl/hash.hpp"], [("main loop and tail switch", "fnv1a, hsieh")],
     "exhaustive enumeration of byte strings against independent reference implementations, on the real code (ASan, UBSan)",
     "All strings up to length 2 (3 for every last/first byte), all strings over six boundary bytes, an odd byte at each position of each length up to the bound, unaligned starts in exact-size heap blocks.",
     "all 1- and 2-byte strings, 3-byte strings (thorough: all), six-byte alphabet up to length 8 (9), lengths up to 40",
     "Bounded-exhaustive on the real headers.", observe=["hash values"])

prop("C30", "KL_DEFER runs every action exactly once, in reverse order, on every exit path",
     "Every KL_DEFER statement that was reached runs its action exactly once when its scope is left, by falling off the end, return, break, continue, goto or an exception, in reverse order of the statements, before anything declared earlier in the scope is destroyed; "
     "one that was not reached never runs. The action sees the current values of the variables it names, several on one line or in nested scopes do not interfere, and the value being returned or the exception in flight is unaffected.",
     ["histories", "faults"], "every program of nested scopes, loops and exits with deferred actions up to the bound",
     "Tests leave one scope normally; the order and number of runs on early exits and unwinding depend on where the exit is.",
     ["include/kl/defer.hpp"], [("scope guard", "KL_DEFER / scope_exit_t")],
     "exhaustive enumeration of control-flow programs against an interpreter of the same program, on the real macro",
     "Programs (nested blocks, loops, deferred actions, and one of the exits at each point) are executed with real KL_DEFER statements and compared event for event with a reference interpreter.",
     "programs of up to 5 (6) statements", "Bounded-exhaustive. Actions that themselves throw terminate by C++ rules and are not judged.", observe=["order and count of actions, values seen, exceptions"])

prop("C31", "Struct reflection visits every declared field once, in order, by reference",
     "For every reflected struct, ctti::reflect_object and reflect_type visit exactly the declared fields, base class fields first, each exactly once, in declaration order, under its declared name, giving access to the object's own member (a write through it changes that member and nothing else, "
     "const objects give const access). num_fields and the names agree with it; attributes attached to a field are found exactly by their type and order and no others; fields declared by accessors read and write through them; visitors may be any callable and see the same fields.",
     ["inputs"], "every reflected type shape (empty, one to many fields, inheritance, private, nested, templates), every subset of fields written, every attribute query",
     "Tests print a few structs; that every subset of writes lands in exactly those members, and that every attribute query answers exactly, needs the product.",
     ["include/kl/ctti.hpp", "include/kl/reflect_struct.hpp"], [("field visitation", "ctti::reflect_object, reflect_type"), ("attribute lookup", "field_data::visit_attributes, has_any_attribute")],
     "exhaustive enumeration of field subsets, attribute sets and visitors against the declared layout, on the real code",
     "For each shape every subset of fields is written through reflection and the object compared member by member with direct writes; every attribute type is queried on every field.",
     "structs of up to 12 fields (all subsets), three inheritance levels", "Bounded-exhaustive over the type shapes in harness/ctti.cpp.", observe=["visited names, addresses, object contents"])

prop("C32", "match calls exactly the best handler for the held alternative, once",
     "kl::match on any variant calls exactly one handler, exactly once: the one C++ overload resolution selects among the given handlers for the alternative the variant holds, with that very object (not a copy when the handler takes a reference), and returns its result. "
     "Exceptions thrown by the handler pass through unchanged, a valueless variant throws bad_variant_access, the order of handlers does not matter, and plain functions wrapped in func_overload act like the equivalent lambdas.",
     ["inputs"], "every alternative of every variant, every order and set of handlers (exact, reference, const, generic, function)",
     "Tests match two variants with one handler list each; which handler wins depends on order, constness and generic handlers together.",
     ["include/kl/match.hpp"], [("overload set", "overloader, func_overload, match")],
     "exhaustive enumeration of held alternatives and handler sets against an overload table, on the real code",
     "Every alternative of 1- to 4-way variants times every permutation and subset of handlers that compiles, const and non-const variants, handlers that write, throw, or are functions.",
     "variants of up to 4 alternatives, handler lists of up to 5", "Bounded-exhaustive on the real header.", observe=["handler called, address received, result, exception"])

prop("C33", "Type lists, callable traits and value-preserving casts are exact",
     "For every list of types, type_pack and at_type give back exactly its length and members, filter keeps exactly the types that satisfy the predicate, in order (given as a list or as a pack), push_front adds in front, and the variadic is_same is true exactly when all types of the list are the same, qualifiers included. "
     "func_traits of any function, function pointer, member function, lambda or function object, const or not, by value or by reference, names exactly its return type, signature, argument count and argument types; member_pointer_traits names the member's own type and class; remove_cvref strips exactly references and top-level qualifiers. "
     "KL_HAS_TYPEDEF_HELPER and KL_VALID_EXPR_HELPER detect exactly the types that have the typedef or accept the expression, priority_tag selects the highest ranked overload available, and bit_cast and underlying_cast keep every bit of every value.",
     ["inputs"], "every type list up to the bound, every kind of callable with it, every subset of ranked overloads, every bit pattern of up to 16 (thorough: 32) bits",
     "Tests look at one or two lists; a rule for lists has to hold for the odd one out at every position, for each kind of callable and each qualifier.",
     ["include/kl/meta.hpp", "include/kl/type_traits.hpp", "include/kl/utility.hpp"],
     [("type lists", "type_pack, at_type, filter, push_front, is_same"), ("callables and members", "func_traits, member_pointer_traits"), ("casts", "bit_cast, underlying_cast")],
     "exhaustive enumeration of type lists (instantiated at compile time) and of bit patterns against an independent description of each, on the real headers",
     "Every list of up to three of five types is instantiated and what the library says about it compared member by member with the list; the same for lists of 2 to 10 types with one odd type at every position, 12 kinds of callable per list, 16 class shapes, 32 overload sets with 5 ranks, and every 16-bit pattern at every byte of a word.",
     "lists up to 3 of 5 types exhaustively, up to 10 with one odd type; 8- and 16-bit values completely, 32-bit values as floats completely in the thorough tier", "Bounded-exhaustive on the real headers. Functions declared noexcept, volatile or ref-qualified are not supported by func_traits and not judged.", observe=["types computed, values cast"])

prop("C34", "Path access reaches exactly the addressed part of an object, or nothing",
     "For every object built of reflected structures, optionals, maps and sequences and every path, visit_at_path calls the visitor exactly once, with the very part of the object the path names (the last stop_remaining segments left over) and with access flags that are read-only exactly when the attributes on the way say so, and returns its result; "
     "dump_at_path and serialize_at_path give the document of exactly that part, and deserialize_at_path replaces exactly that part and nothing else. A path that names nothing throws path_segment_not_found_error, or path_not_traversable_error when it goes on below a value that has no parts, "
     "and one that is refused writes nothing, changes nothing and calls no visitor. This holds for JSON and YAML, for const and mutable objects, for any root type and for paths given as parts of longer ones.",
     ["inputs", "histories"], "every address of the trees and every near miss (other indices, look-alike keys, field names instead of wire names, extensions and truncations), with every stop_remaining, kind of view and document",
     "Tests reach four addresses of one structure; which node is reached, with which flags, depends on every kind of container along the path.",
     ["include/kl/resource_op.hpp", "include/kl/path.hpp"], [("path-directed visitor", "resources::detail::visit_node, visit_at_path"), ("documents at a path", "dump_at_path, serialize_at_path, deserialize_at_path")],
     "exhaustive enumeration of addresses, views and documents against a model with its own addressing, on the real code (ASan, UBSan)",
     "Seven root types (nested keyed collections, maps of maps, optionals of optionals among them), up to three trees each; every address and near miss, visited with every stop_remaining through four kinds of views, dumped and serialized by both backends with and without null skipping, written with 20 documents, and pairs of writes.",
     "2300 addresses of a structure with 21 fields, 20 documents each; pairs of writes over 42 addresses", "Bounded-exhaustive; the schema is fixed in harness/access_app.hpp.", observe=["values, flags and remaining path seen by the visitor", "documents", "object contents", "exception types"])

prop("C35", "A customised type is serialized its own way wherever and however it occurs",
     "When a user customises how a type is dumped, serialized, deserialized or patched, that customisation, and no other rule, decides how every value of the type is written and read, wherever it occurs (on its own, as a field, renamed, aliased or extra, in sequences, maps, optionals, tuples, pairs, arrays and nested structures, in builders and extractors) "
     "and through every entry point (kl::json, kl::yaml, kl::serialization, with or without a context): a member of serializer<T> is used before an ADL overload of the same operation, an ADL overload before the library's own rule, each of the four operations on its own, and patching a type without a patch of its own reads a complete value unless it is reflected. "
     "Every customisation is called exactly once per value, with the caller's own context object, be it the library's, one derived from it or one written from scratch; the context decides which values are skipped, optional_traits decides what is null and empty_traits what is empty. Errors thrown by a customisation reach the caller.",
     ["inputs"], "every set of customised operations, every position, entry point, kind of context and skip rule, every form of document in every position",
     "Tests customise two types one way each; which rule wins depends on the set of customisations, the kind of type, the operation, the position and the context together.",
     ["include/kl/serialization.hpp", "include/kl/json.hpp", "include/kl/yaml.hpp", "include/kl/detail/serialization.hpp"],
     [("priority of customisations", "serialization::detail::dump, serialize, deserialize, patch"), ("backends", "backend_traits, json_tree_backend, yaml_tree_backend"), ("null and empty", "optional_traits, empty_traits")],
     "exhaustive enumeration of customisation sets, positions, contexts and documents against a table of the documented contract, on the real code (ASan)",
     "54 sets of customisations of a plain type, 72 of a reflected one, 20 each of a range and a map, 9 of enums, through every entry point of both backends; 19 of them in 18 positions of a structure, with null, empty, missing and foreign forms in each, written, read and patched with three kinds of context; a customisation that throws in every position and operation.",
     "one value, or 18 at once with one of them special; three skip rules", "Bounded-exhaustive. Left out because the documentation leaves them open: flattened fields of customised types, a customised deserialize_adl of a reflected type without patch_adl, a serializer with deserialize but no patch (does not compile, by design).", observe=["documents", "which customisation read a value, with which context, how often", "refusals"])

prop("C36", "Views, element access and literals give the very part of a document named",
     "Reading any document (null and absent parts included) into a json::view or yaml::view always succeeds and gives the very node that was read, wherever the view stands in a structure; dumping or serializing the view gives an equal document, for JSON a copy that does not depend on the source, and reading a type from the view gives what reading it from the document gives. "
     "json::at and yaml::at give the element a key or index names and null for every other, without changing the document. A document literal is what parse makes of the same text.",
     ["inputs"], "every document up to the bound in every position of a structure, every key and index present, absent, look-alike or huge, every text up to the bound",
     "Tests read one view of one document.",
     ["include/kl/json.hpp", "include/kl/yaml.hpp"], [("views", "json::view, yaml::view and their adl functions"), ("element access", "json::at, yaml::at"), ("literals", "operator\"\"_json, operator\"\"_yaml")],
     "exhaustive enumeration of documents, positions, keys and indices against a document model, on the real code (ASan, UBSan)",
     "All documents of depth 2 (thorough: 3) from a grammar of ten forms as one view; all of depth 1 (2) in nine positions of a structure; all keys and indices around containers of up to five elements; all texts of up to four (five) pieces as literals.",
     "documents of depth 2 (3), containers of up to 5 elements", "Bounded-exhaustive. A default constructed view views nothing and is not judged beyond saying so; a YAML node serialized from a view shares its data with the source, as YAML nodes do.", observe=["documents", "node identity", "refusals"])

prop("C37", "Ambiguous or meaningless field declarations never compile; all others do",
     "A program that dumps or serializes a reflected type compiles exactly when no two of the members it would write have the same name, and one that deserializes or patches it exactly when no name (own, renamed or alias) is claimed twice among the fields it would read: inherited fields and the fields of flattened structures count like the type's own, "
     "fields skipped in that direction and extra_fields do not count, at any depth and wherever the type occurs. Likewise flatten on a field that is not a reflected structure, extra_fields on one that is not a map, default values that cannot be assigned and validators that cannot be called do not compile, nor do operations on a type with no rule for them or a patch of a type whose serializer reads it but cannot patch it. "
     "A type with more than one extra_fields field, flattened and inherited ones included, is refused with std::logic_error by every operation, every time.",
     ["inputs"], "every declaration of up to two fields with every name, alias list and skip attribute, every structure of three parts, every place of a collision among up to 12 (30) names",
     "Tests assert this for a handful of declarations; no test can fail to compile, so nothing notices when an operation loses its check.",
     ["include/kl/detail/serialization.hpp", "include/kl/serialization.hpp", "include/kl/serialization_attributes.hpp"],
     [("name checks", "serialize_field_names_validator, deserialize_field_names_validator and the static_asserts using them"), ("attribute checks", "check_field_attributes, apply_default_value, validate_field"), ("one extra_fields", "collect_field_reserved_names")],
     "exhaustive enumeration of declarations, each judged by the compiler for each operation, against a model of the claimed names; run-time refusals executed",
     "All declarations of the seven groups in harness/names.py, each operation of JSON and YAML in a translation unit of its own; a refusal is any compile error inside the use of that type.",
     "two fields with 4-5 (7) alias lists and 3-4 skip attributes, 15 look-alike names, ten kinds of part in threes, up to 12 (30) names and 8 aliases, 15 positions; YAML on part of the declarations in the quick tier",
     "Bounded-exhaustive; the compiler executes the code under test. Not judged: run-time refusals of flattening types whose skipped names collide.", observe=["compiler verdicts", "exceptions"])

# Bounds added by the crowded, long and deep scenarios.
for _ids, _text in [
    ("C01 C03", "any two actions performed by any two slots (for 40 and 130 slots: the first, middle and last) of 5, 9, 17, 40 or 130, and of 1-3 slots in emissions nested 3-6 deep, at every level"),
    ("C02 C03 C04", "handles to shared slots dropped by several threads at once, slots bound to objects that die meanwhile"),
    ("C05 C06 C07 C08 C09", "a third schema with 12 elements per collection, look-alike keys and a recursive tree addressed by up to 25 segments"),
    ("C17 C18 C19 C20", "28 lengths up to 1000 of sequences, maps and trees, one wrong element at every position of them, and patches at every position"),
    ("C25", "up to 400 tokens of up to 300 characters"), ("C26", "14 lengths up to 1000"), ("C29", "330 lengths up to 131073"),
    ("C30", "up to 70 nested scopes with the exception in every one, loops of 280 rounds, actions inside actions"),
    ("C04", "up to 131072 blockers or copies of a connection on one slot, released in three orders"),
    ("C15 C16", "two (three) requests of up to 2^32+256 bytes in a buffer of 200000"),
    ("C22", "for_each_enum over sets of 8- to 64-bit enums with values at every bit"), ("C28", "sparse files of up to 5 GiB, around 2^16, 2^24, 2^31 and 2^32 bytes"),
    ("C31", "40 fields, six bases, nine attributes per field"),
    ("C32", "20 alternatives, move-only handlers and results"),
]:
    for _i in _ids.split():
        PROPS[_i]["bounds"] += "; " + _text
