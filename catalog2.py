SER = ["include/kl/detail/serialization.hpp", "include/kl/serialization.hpp"]
ZOO = "scalars of every width, strings, enums, enum sets, optionals, sequences, arrays, tuples, maps, custom-serialized types, structs and their nestings"

prop("C17", "JSON output is faithful: every way of writing a value agrees and reads back",
     "For every supported value, dump, pretty_dump and serialize produce the same document: well-formed JSON whose members are the reflected fields in declaration order with "
     "null-valued fields and map entries left out exactly when null skipping is on. Parsing and deserializing that document, from text or from the tree, gives the value back exactly, "
     "including extreme integers, every finite double, arbitrary string bytes and embedded NULs.",
     ["inputs"], "every value of every supported type and nesting, both null-skipping modes, every output path",
     "The tests compare a few dozen hand-written documents; they never cross output paths with nestings, null skipping and extreme scalars.",
     SER + ["include/kl/json.hpp", "src/json.cpp"],
     [("stream and tree backends driven by one reflection walk", "dump_adl / serialize_adl in detail/serialization.hpp")],
     "exhaustive enumeration of values of 63 types against a reference document model, on the real code",
     "Every value generated for each type (boundary integers, doubles, 70 strings, all small containers, all field combinations) is written by every path in both modes; the parsed output must equal "
     "the reference model's document including member order, and must read back to the value.",
     "containers up to 3 elements, 5 map keys, struct nesting depth 3, representative scalars inside containers and the full alphabets at top level; structs: all values with at most 4 (5) deviations from the smallest and the largest value; every 8- and 16-bit integer, every floating-point exponent with 9 mantissas, every code point of the BMP (thorough: all) and every ASCII pair as value and as key; builder programs of up to 3 (4) steps",
     "Bounded-exhaustive on the real headers; trusts rapidjson and the reference model in harness/serial_model.hpp.",
     observe=["written text and trees", "values read back"], assumptions=["finite doubles (JSON has no NaN or infinity)", "text read back by kl::json::parse: doubles within 3 ULPs (known finding, rapidjson default number parsing); the written text itself is checked exactly"])

prop("C18", "JSON deserialization is strict: the exact value or a deserialize_error",
     "Deserializing any document into any supported type either produces exactly the value the document denotes for that type or throws deserialize_error naming the path to the offending member; "
     "it never truncates or wraps a number, confuses types, reads past a sequence, ignores an unknown enum name, or throws anything else. Members missing from an object or array count as null, "
     "longer arrays than the type holds are refused, containers are replaced rather than merged, and malformed text makes parse throw parse_error.",
     ["inputs"], "every document near each type's grammar (right, wrong, missing, null, surplus members at every position), every small text for parse",
     "Tests check single wrong documents; which check fails first, what is read after a missing member, and every width's boundary need the cross product.",
     SER + ["include/kl/json.hpp", "src/json.cpp", "src/serialization_error.cpp"],
     [("range-checked integral narrowing", "deserialize_adl<Integral> / narrow"), ("expect_* type checks", "src/json.cpp"), ("missing members read as null", "json::at")],
     "exhaustive enumeration of documents per type against a reference model, on the real code",
     "For each of 63 types every document of the type-directed grammar (about 70 scalar documents at top level; per member: good, good, null, wrong kind; wrong lengths; unknown members; positional struct form) is "
     "deserialized into a fresh and into a used object; result, error type and error path must match the model. All JSON-like texts up to the length bound go through parse with an independent validator. "
     "Extractors (from_object, from_array) and at() run all short programs.",
     "documents nested to depth 3, sequences up to 3 elements, structs: all documents with at most 3 (4) deviations from a valid one; every integer in [-66000, 66000) and around every power of two into all 8 integer types; parse: every text of up to 5 (6) of 17 tokens and every one-character edit of 5 documents; extractor programs of up to 3 steps",
     "Bounded-exhaustive; partial results left by a failed deserialization are unspecified and not judged.",
     observe=["resulting value, exception type, error message path"])

prop("C19", "JSON patch changes exactly what the patch names and nothing else",
     "Patching a value with a document changes exactly the members the document names: members that are absent keep their values at every nesting level, present ones are patched recursively, null resets an optional "
     "(or assigns the declared default), an empty optional is created and then patched, sequences and maps are replaced as a whole, and a non-object patch replaces the whole struct. A document that does not fit "
     "is refused with deserialize_error.",
     ["inputs"], "every initial value variant and every patch document near the type's grammar",
     "The tests patch a few structs with a few documents; which members survive depends on the combination of present, absent, null and nested members.",
     SER + ["include/kl/json.hpp"], [("recursive merge", "patch_adl for reflectables and optionals")],
     "exhaustive enumeration of (value, patch document) pairs against a reference model, on the real code",
     "For each type, three initial values (blank, populated, partly populated) times every document of the type-directed grammar; all fields of the patched value are compared with the model.",
     "as C18", "Bounded-exhaustive on the real headers.", observe=["all fields after the patch, exceptions"])

prop("C20", "YAML writes, reads and patches the same values by the same rules",
     "The YAML backend gives the same guarantees as JSON: dump and serialize agree and read back to exactly the value written (8-bit integers as numbers, strings that look like other scalars still as strings, string views as strings), "
     "deserialization yields exactly the denoted value or a deserialize_error naming the path, and patch changes exactly what it names. Scalars are interpreted by the requested type; "
     "malformed text makes parse throw parse_error.",
     ["inputs"], "every value, document and patch of the JSON properties, through the YAML backend",
     "The YAML backend is not even compiled by the test build used here; its own tests sample a few documents.",
     SER + ["include/kl/yaml.hpp", "src/yaml.cpp"], [("yaml_stream_backend / yaml_tree_backend", "include/kl/yaml.hpp")],
     "exhaustive enumeration of values, documents and patches against a reference model, on the real code",
     "The enumerations of C17, C18 and C19 through kl::yaml; yaml-cpp parses what dump wrote; the same model with YAML's untyped scalars decides; plus documents only YAML has (non-scalar keys, null spellings, quoted scalars).",
     "as C17-C19", "src/yaml.cpp is compiled with a shim for yaml-cpp 0.8's NodeType declaration (harness/shim); trusts yaml-cpp.",
     observe=["written text and trees", "values, exceptions"], assumptions=["valid UTF-8 strings; the strings '---' and '...' (which yaml-cpp 0.8 writes as document markers) are left out"])

prop("C21", "Field attributes mean what they say, alone and combined, in every direction",
     "rename and aliases decide the names written and accepted (canonical name first, then aliases in order); skip attributes remove a field from exactly the stated directions; emit_null, skip_if_null and skip_if_empty override "
     "null skipping as stated; default_value, allow_missing and validators (range, greater_equal, less_equal, validate) apply exactly when a member is missing, null or present. flatten and extra_fields place and collect members in the "
     "enclosing object so that writing and reading are inverse, no member is both reflected and extra, and a colliding extra key is refused instead of written. This holds on dump, serialize, deserialize and patch, for JSON and YAML.",
     ["inputs"], "every value and document of 18 attribute-bearing types (including nested flatten, extras inside flattened structs, inheritance) in every direction",
     "Tests take attributes mostly one at a time on one document each; their interaction (alias plus default, extras below flatten, validator on a missing optional) is a product space.",
     SER + ["include/kl/serialization_attributes.hpp", "include/kl/ctti.hpp", "include/kl/reflect_struct.hpp"],
     [("reserved name set shared by flatten and extra_fields", "reserved_field_names / collect_field_reserved_names"), ("missing/null policies", "apply_missing_field_policy, apply_null_field_policy, validate_field")],
     "exhaustive enumeration of values, documents and patches of attribute-bearing types against a reference model, JSON and YAML",
     "As C17-C19 over types using every attribute alone and combined; every field takes each of: absent, each accepted name, the C++ name when renamed, canonical and alias together, with good, null, wrong and limit values.",
     "up to 5 fields per struct, 3 levels", "Bounded-exhaustive on the real headers. Positional (sequence) input for fields with missing/null policies is unspecified and not judged.",
     observe=["written documents, resulting fields, exceptions"])
