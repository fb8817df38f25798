#!/usr/bin/env python3
"""Source of properties.jsonl: run `python3 tools/props.py > properties.jsonl`."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

WIP = "facet-reflect/src/wip/mod.rs"
p("W01", "Every builder history is memory safe: each value dropped once, none leaked",
  "Whatever sequence of builder (Wip) operations is performed on a partially built value - in any order, with any of them failing, abandoned at any point, or built and then materialized or dropped - every value handed to the builder is dropped exactly once (by the builder or by whoever received it), no memory is freed twice or used after being freed, and no memory is leaked. This includes re-setting an already set place, selecting another enum variant, putting a whole struct over individually set fields, and failing in the middle of list elements, map keys, map values and options.",
  ["histories", "fault_sequences"],
  "all histories of builder operations up to a depth bound, on root types covering structs, nested structs, enums, options, lists, maps, arrays and tuples of droppable values, with abandonment after every operation and every failing operation as a fault point",
  "Leak and double-free behaviour depends on the order of operations and on which one fails; the tests run a few dozen fixed, mostly successful sequences and only some of them under a leak check.",
  [WIP, "facet-reflect/src/wip/enum_.rs", "facet-reflect/src/wip/heap_value.rs", "facet-reflect/src/wip/iset.rs", "facet-reflect/src/wip/flat_map.rs"],
  [("per-value initialization records (istates) and moved/allocated flags", WIP + " IState, FrameFlags"),
   ("Drop for Wip walks frames and left-over records", WIP + " impl Drop for Wip"),
   ("guard of the root allocation", "facet-reflect/src/wip/heap_value.rs")],
  ["drop counts of instrumented values", "live allocations at the end of a history"],
  [("istates", "which fields of which address are initialized", WIP), ("frames", "path from the root to the value being built", WIP)])
p("W02", "The builder yields exactly the value that was put, and only when complete",
  "Building succeeds if and only if every part of the value has been set by the operations performed so far (for an enum: a variant has been selected and all of its fields are set), and the value obtained equals the one described by those operations, the last write to a place winning. Whether a field is reported as set, which variant is reported as selected, and the path reported by the builder agree with that same history. (Structs of at most 64 fields; a zero-sized struct with several fields, whose fields share one address, is left out.)",
  ["histories"],
  "all histories of builder operations up to a depth bound over struct, nested struct, enum, option, list, map, tuple and array roots, visiting fields in every order and re-entering them",
  "A field wrongly considered set (or unset) shows only for particular orders of visits and re-visits; the tests check a handful of orders.",
  [WIP, "facet-reflect/src/wip/enum_.rs", "facet-reflect/src/wip/iset.rs"],
  [("initialized set per struct/variant", "facet-reflect/src/wip/iset.rs"), ("build() checks", WIP + " build"), ("pop() marks the parent's field", WIP + " pop")],
  ["result of build()", "materialized value", "is_field_set, selected_variant, path"])
p("W03", "Builder misuse is reported as an error, never a panic or an ill-typed value",
  "Every builder operation applied where it does not make sense (wrong kind of shape, wrong value type, unknown or out-of-range field or variant, key or value without its counterpart, materializing as another type, going on after the last frame was popped) returns an error. It neither panics nor stores a value of another type than the place it is stored in, and the types accepted for a place are exactly that place's type, plus the inner type where the place is an option. (Structs of at most 64 fields. The root frame may be popped once, after which every operation but building is refused.)",
  ["histories", "inputs"],
  "every operation x every target shape in the universe (with a fresh, partially set, and fully set target), and every (value type, place type) pair for put, parse and default",
  "The tests try a few error cases by hand; the operation x shape x state matrix is far larger.",
  [WIP, "facet-reflect/src/wip/enum_.rs", "facet-reflect/src/error.rs"],
  [("shape comparison in put/put_shape", WIP), ("Def matching in each operation", WIP)],
  ["Result of each operation"])
p("W04", "Types with invariants can only be built when the invariants hold",
  "Building a value of a type (the root type being built) that declares invariants returns the value if all of its declared invariant functions accept it, and otherwise returns an error and releases everything the builder held. This holds however the fields were set, and for values built by deserializing.",
  ["histories", "inputs"],
  "all field value combinations from a small domain, all set/put/parse/default ways and orders of setting them, for types with one and several invariants",
  "The tests check one accepting and one rejecting value.",
  [WIP, "facet-derive-emit/src/process_struct.rs", "facet-core/src/types/value.rs"],
  [("invariants vtable entry", "facet-core/src/types/value.rs"), ("check in build", WIP), ("generated invariants fn", "facet-derive-emit/src/process_struct.rs")])
p("W05", "Storing a float into a numeric place keeps the number or is refused",
  "Putting a floating-point number (try_put_f64) into an integer, non-zero integer or float place either stores that very number, converted the way the destination type represents it, or is refused with an error; it is accepted exactly when the destination can represent it: finite whole numbers in range for integers (non-zero for non-zero integers), numbers within the finite range of f32, rounded to the nearest, for f32, and any number for f64. Places that hold no number refuse all of them.",
  ["inputs"],
  "every numeric destination type, at the root, in a field, a list element and an option, x every boundary value (all powers of two and their neighbours, type limits and neighbours, halves, infinities, NaN, signed zeros); exhaustive over all half-integers of magnitude up to 2^16",
  "Range and rounding edges at type limits are not sampled by the tests, which store small positive numbers.",
  ["facet-reflect/src/wip/put_f64.rs", WIP],
  [("range checks per type", "facet-reflect/src/wip/put_f64.rs")])
p("W06", "Rebuilding any value part by part gives back an equal value",
  "Taking any value of any supported type apart and setting its parts one by one through the builder (fields by index or name in any order, variants, elements, map entries, option contents; each part put whole, put by reference, parsed, defaulted or itself built from parts; over other contents; in one visit or several) is accepted, and the value built equals the original; all memory is released.",
  ["inputs", "histories"],
  "all values over small domains of every type of K01's universe x all combinations of ways of setting the parts (order, addressing, nesting depth from which parts are put whole, leaf method, overwriting, unfinished visits)",
  "Tests build a handful of values in one way each; offsets, alignments, representations and container protocols only fail for particular layouts, orders or values.",
  [WIP, "facet-core/src/types", "facet-core/src/impls_core", "facet-core/src/impls_alloc", "facet-core/src/impls_std"],
  [("frame protocol of the builder", WIP), ("container vtables", "facet-core/src/impls_alloc, impls_std")])
p("W07", "Errors of the builder name the real culprit",
  "When building or materializing a value fails, or an operation of the builder is refused, the error is of the kind that fits, and the type, field, variant or expected and actual types it names are those really concerned (a field said to be missing is missing, a variant said not to exist does not), and its text names them.",
  ["histories"],
  "all histories of builder operations up to a depth over a universe of types, each error compared with the state of the abstract builder",
  "Tests look at a few errors, each in one situation; users and the format crates act on the type and field named.",
  [WIP, "facet-reflect/src/error.rs"],
  [("completeness checks in build()", "facet-reflect/src/wip/mod.rs"), ("errors of refused operations", WIP)])
p("K01", "Inspecting a value shows exactly that value",
  "For every value of every supported shape, reflection reads (fields by index and name, active variant and its fields, list elements by index and iteration, map lookups and iteration, option contents, smart-pointer targets, typed reads) return exactly what the native value holds, in order, and nothing for indices, names, keys or types that do not match.",
  ["inputs"],
  "all values over small domains of a universe of derived structs, enums of every supported representation, tuples, arrays, lists, maps, options and smart pointers, composed to depth two",
  "The tests read one or two values per shape; wrong offsets, discriminants or index handling only show for particular layouts and values.",
  ["facet-reflect/src/peek/value.rs", "facet-reflect/src/peek/struct_.rs", "facet-reflect/src/peek/enum_.rs", "facet-reflect/src/peek/list.rs", "facet-reflect/src/peek/map.rs", "facet-reflect/src/peek/option.rs", "facet-core/src/types/mod.rs"],
  [("field offset arithmetic", "facet-core/src/types/mod.rs Field/ptr.rs"), ("discriminant decoding", "facet-reflect/src/peek/enum_.rs"), ("container vtables", "facet-core/src/impls_alloc, impls_std, impls_core")])
p("K02", "A built value behaves like the native value",
  "A value coming out of the builder, still type-erased, shows exactly what was built when inspected; displays, debug-prints, equals and orders as the native value does (an erased value of another type is never equal nor ordered); turns into its own type and no other; and is released exactly once, whether turned into a value, refused as another type, or dropped.",
  ["inputs"],
  "all ordered pairs of values over small domains of every type of K01's universe, all pairs of types",
  "Tests materialize each built value as its own type; comparing, showing, refusing and dropping erased values is hardly exercised.",
  ["facet-reflect/src/wip/heap_value.rs"],
  [("ownership of the erased value", "facet-reflect/src/wip/heap_value.rs")])
p("C01", "Shape operations agree with the type's own trait implementations",
  "For every supported type, each operation its shape offers (display, debug, equality, partial and total order, hash, default, clone, parse, drop, with plain formatting) gives the same result as the type's own implementation of that trait, is offered only if the type implements the trait, and a value created through it (default, clone, parse) is a valid, independent value of that type. Scalars and derived types offer every one of these traits they implement, and their marker traits are exactly theirs. Equal values have equal hashes and order as equal. Three operations exist on shapes only: arrays display as their elements in brackets, hash maps have a hash that depends on their contents alone, and an option parses what its content parses. Operations on values of two different shapes are refused.",
  ["inputs"],
  "all pairs of values over small domains of every scalar, string, network, path, collection, option, array, slice, tuple (all arities) and smart pointer type implementing Facet, and derived types over them",
  "Tests check selected characteristics and one or two values per type; the operations are hand-written per type and arity, and most are never exercised.",
  ["facet-core/src/macros.rs", "facet-core/src/spez/mod.rs", "facet-core/src/impls_core/tuple.rs", "facet-core/src/impls_core/array.rs", "facet-core/src/impls_core/slice.rs", "facet-core/src/impls_core/scalar.rs", "facet-core/src/impls_core/option.rs", "facet-core/src/impls_alloc/vec.rs", "facet-core/src/impls_alloc/btreemap.rs", "facet-core/src/impls_std/hashmap.rs", "facet-core/src/impls_alloc/smartptr.rs", "facet-core/src/impls_core/smartptr.rs"],
  [("value_vtable! specialization", "facet-core/src/macros.rs"), ("hand-written container vtables", "facet-core/src/impls_*")])
p("C02", "Container operations through shapes behave like the native containers",
  "Any sequence of operations performed through a list, map, option, array, slice or smart-pointer shape (create empty or with capacity, push, insert, get, lookup, length, iterate, replace, init some/none, borrow, upgrade/downgrade, drop) leaves the container in the state the native container would be in after the same operations and returns the same results, transferring ownership of each moved-in value exactly once.",
  ["histories"],
  "all operation sequences up to a length bound per container type and element type, compared step by step with the native container",
  "Tests call each container operation once or twice in fixed order.",
  ["facet-core/src/types/list.rs", "facet-core/src/types/map.rs", "facet-core/src/types/option.rs", "facet-core/src/types/smartptr.rs", "facet-core/src/impls_alloc/vec.rs", "facet-core/src/impls_alloc/btreemap.rs", "facet-core/src/impls_std/hashmap.rs", "facet-core/src/impls_core/option.rs", "facet-core/src/impls_alloc/smartptr.rs"],
  [("ListVTable/MapVTable/OptionVTable/SmartPointerVTable implementations", "facet-core/src/impls_*")])
p("C03", "A derived shape describes the type's real memory layout",
  "For every type definition the derive accepts, the derived shape gives the type's true size, alignment, kind, and for each field its true name, type and byte offset; for enums also each variant's true name, kind, discriminant and representation, so that reading or building a value through the shape touches exactly the memory the compiler uses. Generic parameters, where clauses, representations and explicit discriminants are all honoured.",
  ["programs", "inputs"],
  "every program in an enumerated family of type definitions: struct kinds x field type sequences x generics, and enum representations x variant kind sequences x discriminant styles",
  "Layout mistakes depend on the combination of representation, field alignment and discriminant; tests define a few dozen types, mostly with lucky layouts, and compare none of the offsets with the compiler's.",
  ["facet-derive-emit/src/lib.rs", "facet-derive-emit/src/process_struct.rs", "facet-derive-emit/src/process_enum.rs", "facet-derive-parse/src/lib.rs", "facet-core/src/types/enum_.rs", "facet-core/src/types/struct_.rs"],
  [("shadow structs and offset_of!", "facet-derive-emit/src/process_enum.rs"), ("discriminant counting", "facet-derive-emit/src/process_enum.rs"), ("gen_struct_field", "facet-derive-emit/src/lib.rs")])
p("C04", "Attributes and docs written on a type reach its shape unchanged",
  "Every combination of recognised attributes and doc comments on a type, field or variant shows up in the derived shape on the item it was written on and on no other: rename, sensitive, default (with or without function), deny-unknown-fields, transparent, any other text on a field, opaque fields, and doc lines in order. No attribute on one field changes the shape of another. (Other text on a container, and attributes on a variant itself, have no place in a shape.)",
  ["programs"],
  "every program in an enumerated family of attribute placements over fields, containers and variants",
  "Tests check one or two attributes on single fields.",
  ["facet-derive-emit/src/lib.rs", "facet-derive-parse/src/lib.rs", "facet-core/src/types/field.rs", "facet-core/src/types/mod.rs"],
  [("gen_struct_field, build_container_attributes, build_maybe_doc", "facet-derive-emit/src/lib.rs")])
p("C05", "Two shapes are equal exactly when they describe the same type",
  "Shape equality, type identity checks and typed reads distinguish any two different types (including different instantiations of the same generic type, wrappers of one type, and same-named types) and identify a type with itself wherever it is reached from; equal shapes hash equal. Type names printed for a shape name its type, with type parameters (a map's hasher aside) shown to the requested depth.",
  ["inputs"],
  "all ordered pairs of a universe of over one hundred types, and each type reached directly, as field, element, key, value and pointee",
  "Tests compare a few pairs.",
  ["facet-core/src/typeid.rs", "facet-core/src/types/mod.rs", "facet-reflect/src/scalar.rs"],
  [("ConstTypeId", "facet-core/src/typeid.rs"), ("Shape PartialEq/Hash", "facet-core/src/types/mod.rs"), ("ScalarType::try_from_shape", "facet-reflect/src/scalar.rs")])
p("C06", "Scalar shapes describe the kind and number format of the type",
  "The shape of a scalar says what kind of scalar the type is (number, text, boolean, character, empty, network address, path, opaque), and which known scalar type it is exactly when it is that type. For a number the shape's description is the format its bytes really have: reading any bit pattern with the given width, signedness, exponent and mantissa gives the number the value is; every value of the type lies between the given least and greatest value, which are values of the type; the given infinities, NaN, zeros and epsilon are what they are called; and nothing is given that the type does not have. Text described with an inline length is stored inside the value exactly up to that length.",
  ["inputs"],
  "every integer, non-zero integer and float type x every bit pattern of the 8- and 16-bit types, (thorough) of f32, and all runs of ones with their neighbours of the wider types; every scalar type and types that are none",
  "The tables of limits and formats are written by hand for 26 numeric types and no test reads them.",
  ["facet-core/src/impls_core/scalar.rs", "facet-core/src/types/scalar.rs", "facet-core/src/impls_std/path.rs", "facet-reflect/src/scalar.rs"],
  [("limits and formats per numeric type", "facet-core/src/impls_core/scalar.rs"), ("NumberAffinityBuilder", "facet-core/src/types/scalar.rs"), ("ScalarType::try_from_shape", "facet-reflect/src/scalar.rs")])
p("J01", "JSON written for a value is valid JSON that denotes that value",
  "For every value of a supported type, the serializer's output is a single valid JSON text (RFC 8259) whose parse is the expected document: object members under the (renamed) field names in declaration order, strings intact for every character, numbers exact, options as value or null, sequences and maps complete. Floats that are not finite are written as null. Other values that cannot be represented in JSON are refused, never written as invalid JSON, and a failing writer's error is passed on.",
  ["inputs"],
  "all values over small domains (strings over every control and special character, number boundaries, every option/list/map/enum shape combination to depth two)",
  "Escaping, separators and number formatting fail for particular characters, sizes and nestings; tests serialize a few friendly values and compare text.",
  ["facet-json/src/serialize.rs"],
  [("string escaping", "facet-json/src/serialize.rs"), ("separator handling", "facet-json/src/serialize.rs")])
p("J02", "JSON serialization followed by deserialization returns the same value",
  "For every value of a type supported in both directions (booleans, integers of every width, finite floats, strings, structs, options, vectors, nested; not options within options, whose inner None has no notation of its own), serializing it to JSON and deserializing the text gives back an equal value.",
  ["inputs"],
  "all values over small domains of a universe of round-trippable types, incl. every single character U+0000..U+10FFFF in strings, integer boundaries of all widths, and float bit-pattern boundaries",
  "The tests round-trip hardly any value; escapes and large integers are the classic misses.",
  ["facet-json/src/serialize.rs", "facet-json/src/deserialize.rs"],
  [("string escape decoding", "facet-json/src/deserialize.rs"), ("number parsing via f64", "facet-json/src/deserialize.rs, facet-reflect/src/wip/put_f64.rs")])
p("J03", "The JSON deserializer accepts exactly well-formed, well-typed documents",
  "For every input text, deserializing into a type succeeds with the value the document denotes if the text is valid JSON that fits the type (all required members present, none of the wrong kind, unknown ones only where allowed), and otherwise fails with an error. It never succeeds with a value the document does not denote. (Strings also fit scalar types that parse from text; when a member occurs several times the last one counts.)",
  ["inputs"],
  "all token sequences up to a length bound over a JSON token alphabet, and all mutations of valid documents, into a set of target types, against an independent JSON parser plus a type-directed reference",
  "The set of malformed and mistyped documents is unbounded; tests cover a few dozen valid documents and a few errors.",
  ["facet-json/src/deserialize.rs", "facet-json/src/deserialize/error.rs"],
  [("instruction stack parser", "facet-json/src/deserialize.rs")])
p("J04", "No JSON input can make deserialization panic, hang, leak or corrupt memory",
  "For every input byte sequence and target type, JSON deserialization terminates and returns a value or an error; it never panics, never leaks or double-frees what it had built so far, and the error can be displayed and points inside the input.",
  ["inputs", "fault_sequences"],
  "all byte strings up to a length bound over a JSON-relevant byte alphabet, every truncation and single-byte substitution of a set of valid documents, into every target type of the universe",
  "Panics and leaks sit on error paths reached only by malformed input at particular parser states; tests contain few malformed inputs.",
  ["facet-json/src/deserialize.rs", "facet-json/src/deserialize/error.rs", WIP],
  [("error returns from the parser loop", "facet-json/src/deserialize.rs"), ("Drop for Wip", WIP), ("error rendering", "facet-json/src/deserialize/error.rs")])
p("J05", "JSON object members reach exactly the fields they name",
  "When deserializing an object into a struct, each member sets the field whose name (or rename) it bears, in any order; unknown members are skipped whole, however nested, unless the type denies them, in which case they are an error; missing members take their default if the field or type declares one and are otherwise an error; and skipping never disturbs the members that follow.",
  ["inputs"],
  "all member sequences up to a length bound over known, renamed, defaulted and unknown names with values of every JSON kind and nesting, into structs with every combination of attributes",
  "Member order, position of unknown members and their nesting multiply; tests have one or two orders.",
  ["facet-json/src/deserialize.rs"],
  [("field lookup and rename", "facet-json/src/deserialize.rs"), ("skip_over_value", "facet-json/src/deserialize.rs"), ("default filling", "facet-json/src/deserialize.rs")])
p("J06", "JSON errors say what is wrong and where",
  "When a text can't be read as JSON for a type, the error concerns the first thing wrong with it: it points into the offending value, member or byte, names the path leading there, and is of the kind that fits: a field said to be missing is one the object lacks and must have, a member said to be unknown is the one not allowed there, a number said not to fit is the number written, a character said to be unexpected is there, and input is only said to end early where it ends.",
  ["inputs"],
  "all documents that differ in one place from the documents of all values over small domains of the target types, in three spellings; all truncations and single-byte changes of them",
  "The tests snapshot the error of nine texts; the place and path are kept by hand along every branch of the reader.",
  ["facet-json/src/deserialize.rs", "facet-json/src/deserialize/error.rs", WIP],
  [("position and path at every bail!", "facet-json/src/deserialize.rs"), ("Wip::path", WIP), ("Display", "facet-json/src/deserialize/error.rs")])
p("E01", "Errors of refused TOML, YAML, form and MessagePack documents tell what is at fault",
  "When a TOML, YAML or form-urlencoded document is refused, the error names one of the faults the document has for the type: the member that is missing or unknown, the unknown enum variant, the number that doesn't fit, the text that isn't a number, the kind of value found or wanted where another one stands, the type that isn't supported, or that the text is malformed. The MessagePack decoder's error is the variant that fits the first fault in the bytes: too few bytes, a type that doesn't belong there, an integer out of range, a field that is missing, and so on, naming the field. A document is never refused with an error about something that is in order.",
  ["inputs"],
  "documents of all values over small domains of every target type, with every member left out, renamed, replaced by every kind of value, or added, and pairs of these; all single-byte changes and truncations of encodings; all byte strings to a length",
  "The tests look at a handful of errors; which fault is reported depends on the order of checks along every branch, for every type and document.",
  ["facet-toml/src/lib.rs", "facet-yaml/src/lib.rs", "facet-urlencoded/src/lib.rs", "facet-msgpack/src/from_msgpack.rs", "facet-msgpack/src/errors.rs"],
  [("AnyErr messages", "facet-toml/src/lib.rs"), ("AnyErr messages", "facet-yaml/src/lib.rs"), ("UrlEncodedError", "facet-urlencoded/src/lib.rs"), ("DecodeError", "facet-msgpack/src/errors.rs")])
p("M01", "MessagePack encoding is the shortest valid encoding and decodes to the same value",
  "For every value of a supported type (booleans, integers of up to 64 bits, strings, and structs of them), the MessagePack serializer emits one well-formed MessagePack value denoting it, using the most compact format family for every integer, string and map, and decoding those bytes into the same type gives back an equal value.",
  ["inputs"],
  "all integers around every format boundary of every width, all string lengths around format boundaries, all struct sizes around map-size boundaries, nested structs",
  "Format boundaries (fix/8/16/32/64) are checked by tests for a few integers only.",
  ["facet-msgpack/src/to_msgpack.rs", "facet-msgpack/src/from_msgpack.rs", "facet-msgpack/src/constants.rs"],
  [("width selection", "facet-msgpack/src/to_msgpack.rs"), ("marker dispatch", "facet-msgpack/src/from_msgpack.rs")])
p("M02", "The MessagePack decoder accepts exactly the encodings of its target type",
  "For every byte string, decoding into a type either returns the value those bytes encode (any valid width, members in any order, unknown members of any kind skipped whole, the last of several of one name, nothing after it regarded) or an error; malformed, truncated, mistyped, out-of-range and incomplete inputs are errors. It never panics, hangs, leaks or reads outside the input.",
  ["inputs", "fault_sequences"],
  "all byte strings up to a length bound over marker-class representatives, all truncations and substitutions of valid encodings, unknown members of every MessagePack kind, against an independent decoder",
  "Tests decode a few well-formed messages.",
  ["facet-msgpack/src/from_msgpack.rs", "facet-msgpack/src/errors.rs"],
  [("decoder bounds checks", "facet-msgpack/src/from_msgpack.rs"), ("skip_value", "facet-msgpack/src/from_msgpack.rs")])
p("T01", "TOML documents decode to the value they denote or to an error",
  "For every TOML document, decoding into a type succeeds with exactly the value the document denotes when the document fits the type, and fails with an error (never a panic, leak or wrong value) when it is malformed, mistyped, out of range or incomplete. Tables, inline tables, dotted keys, arrays and arrays of tables, options (absent is None), maps, and unit, tuple and struct enum variants are all honoured in every position. Members go by the Rust names of fields and variants (by index in tuple variants); a single value may stand for the only field of a struct or variant; unknown members are ignored; floats without a fraction fit integers, and integers become the nearest float.",
  ["inputs", "fault_sequences"],
  "all documents generated from small value trees in every TOML spelling (tables, inline, dotted), into every target type of a universe including mistyped pairs, plus all truncations and token substitutions",
  "Tests decode one friendly document per feature; nesting of features and mistyped documents are not covered.",
  ["facet-toml/src/lib.rs", "facet-toml/src/to_scalar.rs"],
  [("deserialize_item dispatch", "facet-toml/src/lib.rs"), ("scalar conversion and range checks", "facet-toml/src/to_scalar.rs")])
p("Y01", "YAML documents decode to the value they denote or to an error",
  "For every YAML document, decoding into a supported type (u64, String, and structs of them, nested) succeeds with exactly the value the document denotes when it fits the type (booleans count as 1 and 0, and texts of digits as numbers), and otherwise (malformed, mistyped, negative or out of range, fields unknown or missing, not exactly one document, a type that is not supported) fails with an error: never a panic, a leak, or a wrapped or truncated number.",
  ["inputs", "fault_sequences"],
  "all documents over a small grammar of mappings, scalars and nesting, into every target type, including mistyped, missing, unknown and duplicate keys",
  "Tests decode two documents.",
  ["facet-yaml/src/lib.rs"], [("deserialize_value dispatch", "facet-yaml/src/lib.rs")])
p("U01", "URL-encoded forms decode to the value they denote or to an error",
  "For every form string, decoding into a struct sets each named (possibly bracket-nested) field from the percent-decoded value bearing its name (the last one, if there are several), ignores unknown keys (a key whose brackets are not of the form a[b][c] is a name of its own), and reports missing or unparsable ones, and nested keys for plain fields, as errors. The result does not depend on the order of unrelated pairs or on anything but the input, and no input makes it panic or leak.",
  ["inputs", "fault_sequences"],
  "all pair sequences up to a length bound over known, nested, malformed-bracket and unknown keys and values needing decoding",
  "Tests decode a dozen forms; internal hash-map iteration order makes some outcomes vary per run.",
  ["facet-urlencoded/src/lib.rs"], [("nested value tree", "facet-urlencoded/src/lib.rs NestedValues"), ("deserialize_value", "facet-urlencoded/src/lib.rs")])
p("A01", "Command-line arguments fill exactly the fields they name",
  "For every argument vector made of named, short and positional arguments of a target struct, parsing assigns to each field the value given for it by the argument syntax (long name, short alias, boolean flag, or position: each positional argument goes to the first positional field not given yet), independently of the order of unrelated named arguments, and booleans not mentioned are false. Vectors with unknown names, missing or surplus arguments, or values that do not parse as the type of their field are refused (by a panic, as documented).",
  ["inputs"],
  "all argument vectors up to a length bound over the flags, aliases, values and positionals of a set of argument structs",
  "Tests parse one vector.",
  ["facet-args/src/lib.rs"], [("argument loop", "facet-args/src/lib.rs from_slice")])
p("P01", "Pretty-printing never reveals a field marked sensitive",
  "For every value, the pretty-printed text (with or without colours, at any indentation and depth limit) contains no trace of the contents of a field marked sensitive, wherever that field sits - in structs, in enum variants, nested in lists, options or other structs - and shows a redaction marker in its place (an array or pointer whose contents may hold such a field is redacted as a whole).",
  ["inputs", "configurations"],
  "all placements of a sensitive field in a universe of nested shapes x printer settings, two-run comparison with different secret contents",
  "Tests check one struct with one sensitive field.",
  ["facet-pretty/src/printer.rs"], [("sensitive check before formatting a field", "facet-pretty/src/printer.rs")])
p("P02", "Pretty-printing is complete, balanced and always terminates",
  "For every value of structs, tuples, enums, lists, options, bytes and scalars, and every printer setting, pretty-printing terminates without panicking, is deterministic, and prints every field name, variant name, doc line and scalar that is not redacted or below the depth limit, in order, one field or item to a line, indented by its depth, with every delimiter closed; a map is shown as a placeholder. What lies below the depth limit is shown as [...]. Turning colours on adds escape codes and nothing else, and each colour is reset before the next begins. If the writer fails, the failure is reported.",
  ["inputs", "configurations"],
  "all values over small domains of nested structs, enums, lists, options, byte lists and maps x indent sizes x depth limits x colour on/off, against a reference renderer",
  "Tests compare a few snapshots.",
  ["facet-pretty/src/printer.rs", "facet-pretty/src/color.rs"], [("explicit stack traversal", "facet-pretty/src/printer.rs"), ("visited map for cycles", "facet-pretty/src/printer.rs")])
p("P03", "Colours depend on nothing but the hash and the settings, and are the right ones",
  "The colour generated for a hash is, within rounding, the colour of hue (base hue + hash modulo 360) at the saturation and lightness set, both limited to 0..=1; it is the same each time; the colour of a hashable value is that of its hash; the escape codes written name exactly that colour, and a failing writer is reported; a byte printed in a byte list is always shown in the colour of its value.",
  ["inputs", "configurations"],
  "every hue offset x base hues x saturations x lightnesses, hashes congruent modulo 360 up to u64::MAX, every component value, every pair of bytes, against an independent conversion",
  "Tests look at the defaults and at whether two colours differ; edges of hue sectors are not sampled.",
  ["facet-pretty/src/color.rs", "facet-pretty/src/printer.rs"], [("hue sectors", "facet-pretty/src/color.rs hsl_to_rgb"), ("colour of a byte", "facet-pretty/src/printer.rs ProcessBytesItem")])
if __name__ == "__main__":
    for x in P: print(json.dumps(x, ensure_ascii=False))
