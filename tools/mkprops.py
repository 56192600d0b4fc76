#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

R, W, V, M = "value/src/reader.rs", "value/src/writer.rs", "value/src/values.rs", "value/src/macros.rs"
L, D, E, MA = "src/lib.rs", "src/decode.rs", "src/encode.rs", "src/macros.rs"
DD, DE, DC = "derive/src/decode.rs", "derive/src/encode.rs", "derive/src/common.rs"
SD, SS, SM, SE = "src/serde/de.rs", "src/serde/ser.rs", "src/serde/mod.rs", "src/serde/error.rs"

p("C01", "Strict decoding accepts exactly the canonical encodings",
  "For every byte string, strict decoding succeeds if and only if the bytes are the canonical encoding of exactly one supported data item within the nesting limit: definite lengths, shortest-form heads, map keys strictly ascending in the bytewise order of their encodings, valid UTF-8 text, no simple values other than false, true, null and undefined, no floats, nothing left over. When it succeeds, the result is exactly the data item those bytes denote, and encoding that result gives back the same bytes. No two different byte strings therefore decode strictly to the same data item.",
  ["inputs"], "all byte strings; every rule at every position (top level, array element, map key, map value, tag content), every head size and length class",
  "Unit tests list a few dozen accepted and rejected strings, mostly at the top level; the fuzz target only samples and is not run. The guarantee is an equivalence over all byte strings.",
  [R, V], [("head parsing and minimality check", R), ("map key order check while reading", R), ("left-over check", R)],
  [("remaining input", "bytes not consumed yet", R)], ["generic strict decode", "generic encode"])
p("C02", "Encoding then strict decoding returns the same value",
  "For every value that CBOR can represent, whose maps have no two equal keys and whose nesting is within the limit, encoding succeeds and strict decoding of the output returns the same value, with map entries in canonical order. This holds at every integer magnitude, string or container length, tag number and nesting position, including containers used as map keys.",
  ["inputs"], "all representable values: integers from -2^64 to 2^64-1, all lengths, all tags, all nestings within the limit, maps in any entry order",
  "The tests encode and decode separately on hand-picked values; no test ranges over nested shapes, unsorted container keys or all head-size boundaries.",
  [W, R, V], [("encoder", W), ("decoder", R), ("value comparison used for map keys", V)], None, ["generic encode", "generic strict decode"])
p("C03", "Encoder output is canonical whatever order maps were built in",
  "Encoding a value produces the canonical bytes: shortest-form heads, definite lengths, and map entries in strictly ascending bytewise order of their encoded keys at every level, also inside map keys; the bytes do not depend on the order in which map entries were supplied. A map holding two keys with the same encoding is refused with an error and is never emitted. The encoding is appended to the output buffer and leaves what was there before untouched.",
  ["inputs", "histories"], "all values, all permutations of map entries at all levels, all prior buffer contents",
  "Tests sort a handful of flat maps; permutations of nested maps, maps used as keys and large maps are not reached.",
  [W, V], [("sort and duplicate detection before emitting a map", W), ("head writer", W), ("value order", V)], None, ["generic encode"])
p("C04", "Decoding untrusted bytes never crashes, hangs or over-allocates",
  "For every byte string, decoding it as a generic value (strict or lenient), as any supported target type (standard or derived), or through the serde layer returns a value or an error: it never panics, never overflows the stack and always terminates. Memory used while decoding is bounded by a constant multiple of the input length, so a declared length never causes allocation ahead of the data that backs it.",
  ["inputs", "fault_sequences"], "all byte strings (every truncation, every declared length, every nesting) and all target types",
  "The tests try two oversized length heads and no short or mistyped input for most target types; absence of panics and bounded memory are universal claims.",
  [R, D, DD, SD, L], [("bounds check on every read", R), ("growth of containers element by element", R), ("nesting limit", R), ("length checks in typed decoders", D)], None, ["all decode entry points"])
p("C05", "Nesting limits are enforced exactly, and alike by encoder and decoder",
  "For every limit L and every data item whose nesting depth is D (counted through arrays, map keys, map values and tags in any mix, a scalar having depth 0), strict decoding, lenient decoding and encoding with limit L all succeed when D is at most L and all fail with the too-much-nesting error when D exceeds L; without a limit depth is never a reason to fail. The default limit is 127 for generic decoding and encoding, and 64 for typed and serde decoding.",
  ["inputs", "configurations"], "all limits from below zero to 127 and none; all chains and mixtures of container kinds around every limit",
  "One test uses limits 0, 1 and 2 on one map; the default limits 127 and 64 and tags, keys and mixtures are never exercised at the boundary.",
  [R, W, L, SM], [("remaining-depth parameter of the recursive reader", R), ("remaining-depth parameter of the recursive writer", W), ("typed decode limit", L)],
  [("remaining depth", "levels still allowed", R)], ["decode with limit", "encode with limit", "typed decode"])
p("C06", "Malformed input is rejected with the reason of its first fault",
  "Strict decoding of malformed bytes reports the reason for the first fault met reading left to right: every proper prefix of a valid encoding is incomplete, bytes after a complete item are extraneous, reserved or indefinite lengths are unknown additional information, longer-than-needed heads are non-minimal, bad text is invalid UTF-8, a map key not greater than its predecessor is out of order (reported as soon as that key has been read), and floats and other simple values are unsupported. No malformed input is ever reported as a success, and a fault in a nested item is reported just like one at the top level.",
  ["inputs"], "all byte strings; every fault kind at every nesting position, and every combination of two faults in one input",
  "Tests check each reason on a few top-level inputs; combinations of faults and nested faults are mostly untested.",
  [R], [("error returns of the reader", R)], None, ["generic strict decode"])
p("C07", "Lenient decoding extends strict decoding and never distorts data",
  "Lenient decoding accepts everything strict decoding accepts, with the same result, and also accepts every item made of definite-length heads (of any width), in-bounds strings, valid UTF-8 text and nesting within the limit, with map entries kept in the order given, duplicates included, and ignoring bytes after the first item. Integers, lengths, tags and strings decode to their exact value whatever head width is used; floats and unknown simple values become undefined, never some other value. Truncated input, reserved or indefinite lengths, invalid UTF-8 and too deep nesting are still rejected.",
  ["inputs"], "all byte strings; all head widths, key orders, floats and simple values at every position",
  "Lenient mode is tested on one reordered struct and five fuzzer findings; the differential fuzzer against Go samples and is not run by the tests.",
  [R, L], [("lenient flag in the reader", R), ("float and simple value handling", R)], None, ["lenient decode"])
p("C08", "Value comparison is the canonical key order",
  "Comparing two canonical values (maps sorted) gives the same result as comparing their canonical encodings bytewise, so equality means equal encodings. The comparison is a total order over all values: antisymmetric, transitive, total and consistent with equality.",
  ["inputs"], "all pairs and triples of values",
  "The order test is a fixed chain of about 70 comparisons; transitivity and agreement with the encoding quantify over all pairs and triples.",
  [V], [("comparison of values", V)], None, ["comparison operators of the value type"])
p("C09", "Standard types round-trip through their encoding",
  "For every value of a supported standard type (unsigned and signed integers up to 64 bits, u128, bool, char, strings, byte vectors and byte arrays, vectors and arrays, tuples, options, sets, ordered and hashed maps, unit, and any composition of these) encoding it and strictly decoding the bytes as the same type yields an equal value. The encoding has the documented shape: integers as CBOR integers, u128 as a minimal big-endian byte string, char as its code point, byte vectors and arrays as byte strings, other sequences, sets and tuples as arrays, absent options and unit as null, and maps as maps.",
  ["inputs", "programs"], "all values of all compositions of the supported types (an option directly around a type that itself encodes as null excepted)",
  "Tests round-trip one or two values per type and few compositions.",
  [D, E, L], [("standard type decoders", D), ("standard type encoders", E)], None, ["typed encode", "typed decode"])
p("C10", "Typed decoding yields exactly the encoded value or an error",
  "Decoding a data item as a standard type succeeds only if the item has the kind that type is encoded as and its value lies in the type's range, and then the result equals the item's value exactly: integers are never wrapped, truncated or sign-changed, big integers longer than 16 bytes, code points that are not characters, and arrays or tuples with too few or too many elements are rejected. A wrong kind is reported as an unexpected type and an out-of-range integer as an unexpected integer size.",
  ["inputs", "programs"], "all data items against all standard target types and compositions",
  "Tests cover a few out-of-range cases (one bad char, one wrong array length); boundaries of every width against every item kind are not covered.",
  [D], [("range conversions", D), ("fixed length checks", D)], None, ["decode from value", "typed decode"])
p("C11", "Equal values always encode to identical bytes",
  "Typed encoding is a function of the value: two equal values of any supported type encode to identical bytes, independent of insertion order, capacity, hash seeds or iteration order of hashed maps and sets, and of the form in which the value is held (owned or borrowed). Unequal values of one type encode to different bytes (options directly around a type that itself encodes as null excepted).",
  ["inputs", "histories"], "all values, all insertion histories and all iteration orders of hashed collections",
  "One test encodes one two-entry hash map; iteration order is randomised per instance, so tests see an arbitrary order.",
  [E, W], [("encoders of hashed collections", E), ("map sorting", W)], [("iteration order", "order in which a hashed collection yields its elements", "std HashMap/HashSet")], ["typed encode"])
p("C12", "Derived structs encode as declared and decode back to the same value",
  "For every struct with derived encoding and decoding, whatever its fields and attributes (rename to text or number, optional, skip-if predicate, skip, custom encode and decode functions, array layout, transparent, tuple or unit struct), the encoding has exactly the declared layout: a map from the declared keys to the encoded fields, or an array of the fields in declaration order, or the bare inner value, with skipped fields left out and optional ones left out exactly when empty. Decoding the encoding yields the original value, with skipped fields at their default.",
  ["programs", "inputs"], "all combinations of struct shapes and attributes, and all field values",
  "The tests declare about twenty structs, each with one or two attributes; combinations of attributes and field values at their empty boundary are not covered.",
  [DD, DE, DC, MA], [("struct code generation for encoding", DE), ("struct code generation for decoding", DD), ("key computation", DC)], None, ["derived encode", "derived decode"])
p("C13", "Derived structs reject unknown, missing and ill-typed data",
  "Decoding a derived struct succeeds only if the data item is of the declared kind and every entry corresponds to a declared field with a value acceptable to its type; an entry whose key is not declared is rejected as unknown wherever it sorts among the others, unless unknown fields are allowed, in which case it is ignored wherever it sorts. A missing field is treated as null: it takes the field type's default if there is one and is otherwise rejected as missing; an array layout must have exactly as many elements as there are encoded fields. The order in which a map's entries are supplied does not matter.",
  ["programs", "inputs"], "all struct shapes and attributes against all data items, in particular everything obtained from a valid encoding by adding, removing, replacing or reordering entries",
  "Tests try one struct with an extra key in three positions and allowed unknown keys only after the last field.",
  [DD, MA], [("merge of sorted entries with sorted fields", MA), ("struct code generation for decoding", DD)], None, ["derived decode"])
p("C14", "Derived enums encode as declared and decode back to the same value",
  "For every enum with derived encoding and decoding, each variant encodes in the declared form: unit variants as their name, new name or explicit discriminant, others as a single-entry map from the variant key to the content, embedded variants as the inner enum's own encoding, and internally tagged ones as a map with the tag entry added (left out for the variant declared as the missing-tag one). Encoding never fails for any variant and decoding the encoding yields the same variant with the same content, except variants declared as skipped, which encode as undefined.",
  ["programs", "inputs"], "all combinations of variant kinds and attributes and all contents",
  "The tests declare about ten enums; combinations such as unit variants in internally tagged enums or embedding a tagged enum are not covered.",
  [DE, DD, DC], [("enum code generation for encoding", DE), ("enum code generation for decoding", DD)], None, ["derived encode", "derived decode"])
p("C15", "Derived enums decode only well-formed data, to the right variant",
  "Decoding a derived enum yields a variant only if the data item is that variant's declared form: any other key, name, discriminant or tag, a map with other than one entry for externally keyed variants, content of the wrong kind, or unknown entries in a struct variant that does not allow them is rejected with an error. Skipped variants are never produced, the parent's own variants take precedence over an embedded enum's, and a missing tag selects only the variant declared for it.",
  ["programs", "inputs"], "all enum declarations against all data items, in particular everything near a valid encoding",
  "Tests contain three negative cases for enums.",
  [DD], [("variant dispatch generated for decoding", DD)], None, ["derived decode"])
p("C16", "Null, undefined and missing data decode to the default, or are rejected",
  "At the top level and as a struct field, null and undefined (and for a field also absence) decode to the target type's default value when the type has one (numbers, bool, char, strings, byte arrays, vectors, sets, maps, options, unit, tuples of such, the generic value as null, structs unless declared without default, enums declared with one) and are rejected as missing otherwise. A field declared optional is left out of the encoding exactly when it is empty, and then decodes back to the empty value.",
  ["inputs", "programs"], "all supported types, in every position, against null, undefined and absence",
  "Tests check null and undefined at the top level for about twenty types, and emptiness for one field; positions and compositions are not covered.",
  [D, E, DD, DE], [("default decoding", D), ("emptiness test", E), ("omission of empty optional fields", DE)], None, ["typed decode", "derived encode"])
p("C17", "Values round-trip through the serde layer",
  "For every value of a type that serde can describe and this layer supports (integers up to 64 bits, u128, bool, char, strings, bytes, options, unit, sequences, tuples, maps, structs and enums of every variant kind, in any composition), serializing to bytes succeeds and strictly deserializing them as the same type yields an equal value. The bytes are the canonical encoding: structs and maps as maps, sequences, tuples, tuple structs and newtype structs as arrays, unit variants as their name, and other variants as a single-entry map.",
  ["inputs", "programs"], "all values of all compositions of the serde data model",
  "Tests round-trip one value per kind.",
  [SS, SD, SM], [("serializer", SS), ("deserializer", SD)], None, ["serde to bytes", "serde from bytes"])
p("C18", "The serde layer never alters data: it returns the exact value or an error",
  "Deserializing a data item through serde yields the item's exact value or an error: integers outside the target's range, in particular negative ones below the 64-bit signed range, are rejected or delivered at full width and never wrapped, and data of another kind is rejected. Floats are rejected in both directions and tags are rejected, each with an error and never a panic.",
  ["inputs", "programs"], "all data items against all serde target kinds",
  "Tests check that one float is refused; no test reads an integer at or beyond a boundary through serde.",
  [SD, SE, SS], [("dispatch on the data item kind", SD), ("rejection of floats and tags", SD)], None, ["serde from value", "serde from bytes", "serde to value"])
p("C19", "The serde layer and the native layer agree on shared types",
  "For types whose native and serde forms coincide (integers, u128, bool, char, strings, options, unit, non-byte sequences, tuples, maps, and plain derived structs and enums without codec attributes or explicit discriminants), both layers produce identical bytes for equal values, and each decodes what the other encoded to an equal value.",
  ["inputs", "programs"], "all values of the shared types",
  "Tests compare the two layers on one value per type.",
  [SS, SD, E, D, DE], [("delegation of primitives to the native encoders", SS), ("native encoders", E)], None, ["typed encode/decode", "serde encode/decode"])
p("C20", "Value constructors and map destructuring preserve what they are given",
  "Building a value from a native integer, boolean, string, bytes, vector or list of pairs (by conversion, constructor or construction macro) yields the value denoting exactly that datum, integers being unsigned or negative by sign, and optional map entries appearing exactly when present. Destructuring a sorted map by a sorted list of keys binds each variable to the value stored under its key, or to nothing if the key is absent, whatever other entries the map has; the strict variant used by derived decoding reports an entry with an unrequested smaller key as unknown.",
  ["inputs", "histories"], "all native integers, all sorted maps and all sorted key lists over a key set",
  "Tests use a few literals and one or two maps.",
  [V, M, MA], [("conversions into values", V), ("construction and destructuring macros", M), ("strict peek", MA)], None, ["conversions", "macros"])
p("C21", "Types marked as encoding to maps always do",
  "Every value of a type that carries the encodes-as-a-map marker (ordered and hashed maps, derived structs with map layout, derived enums all of whose variants encode as maps) encodes to a map, and the entries obtained through the marker are exactly the entries of that map.",
  ["programs", "inputs"], "all types carrying the marker and all their values",
  "One test checks that one enum carries the marker; nothing checks that marked values encode to maps.",
  [E, DE], [("marker trait", E), ("marker generation", DE)], None, ["map encoding marker"])
p("C22", "The foreign-function decoder reports exactly lenient decodability",
  "The exported C function used by the differential fuzzer returns 0 for exactly those byte buffers that lenient typed decoding accepts as a generic value, and 1 for all others, reading no byte outside the buffer it is given.",
  ["inputs"], "all byte buffers",
  "The Go side is not built or run here, and the Rust test of that crate bypasses the exported function.",
  ["difffuzz/src/lib.rs", L, R], [("exported decode function", "difffuzz/src/lib.rs")], None, ["exported C function"])
p("C23", "Typed entry points are the composition of parsing and value conversion",
  "For every byte string and type, typed decoding from bytes gives the same outcome as generic decoding (strict or lenient, limit 64) followed by decoding from the value, with every parse failure reported as parsing failed; typed encoding to bytes gives the bytes obtained by converting to a value and encoding that value. Encoding a value that cannot be encoded canonically (equal keys, nesting beyond 127) never yields bytes.",
  ["inputs", "programs"], "all byte strings, values and types",
  "No test relates the byte-level and value-level entry points.",
  [L, SM], [("typed entry points", L), ("serde entry points", SM)], None, ["typed decode/encode from bytes and values"])
p("C24", "Results depend only on the input, never on earlier calls",
  "Every encode or decode operation returns the same result whatever operations ran before it, on the same thread or another, including ones that failed half-way, hit the nesting limit or panicked in user code. A failed encode or decode leaves no effect on later ones.",
  ["histories", "schedules", "fault_sequences"], "all sequences of operations up to a bound over an alphabet including failing ones, placed on two threads in every way",
  "Each unit test performs its few calls in a fixed order and mostly successful ones.",
  [R, W, L, D, E], [("all state is local to a call", R), ("writer owns no state beyond the output buffer", W)], None, ["all entry points"])
p("C25", "Serde entry points compose parsing and conversion and say which one failed",
  "For every byte string and type, serde decoding from bytes gives the same outcome as strict generic decoding with limit 64 followed by serde decoding of the value, malformed bytes always being reported as a byte decoding error carrying the reason of the first fault, and well-formed data that does not fit the type never; for every value, serde encoding to bytes gives exactly the bytes of the value it converts to; equal map keys or nesting beyond 127 are refused with a byte encoding error naming that reason. An error raised by user code at any point while encoding or decoding comes back as an error carrying its message, never as bytes, a value or a panic.",
  ["inputs", "programs", "fault_sequences"], "all byte strings, values and types; all places at which user code may fail",
  "Tests of the serde layer match on success only, at the top level, with well-formed bytes.",
  [SM, SE, SD, SS], [("serde entry points", SM), ("error conversions", SE)], None, ["serde decode/encode from bytes and values"])
p("C26", "Contradictory derive declarations are refused, declared ones accepted",
  "Deriving encoding or decoding for a declaration compiles if its attributes exist where they are given, have values of the right kind and do not contradict each other, its fields can be encoded or decoded, and is refused at compile time otherwise: default behaviour both required and forbidden, untagged together with a tag, transparent on anything but a newtype struct, a decoder for an untagged enum, embedding of a variant other than a newtype one or in an internally tagged enum, content other than a map in an internally tagged enum, several variants for a missing tag, a skip predicate in an array layout, and unknown, misplaced or repeated attributes. This holds for every combination of shapes, attributes and derived traits, wherever the declaration stands, also beside a Result, Vec or Value of the user's own, and under whatever name the crate has the library; no contradictory declaration silently gets some encoding.",
  ["programs"], "all declarations over the attributes and shapes the macros know, up to a bound",
  "The tests derive for a few dozen legal declarations; nothing checks that a contradictory one is refused.",
  [DE, DD, DC, "derive/src/util.rs"], [("naming the library", "derive/src/util.rs"), ("refusals while encoding", DE), ("refusals while decoding", DD), ("attribute parsing and validation", DC)], None, ["derive macros"])
p("C27", "Hand-written serde implementations are served faithfully, call by call",
  "Whatever legal sequence of calls a type's own implementation makes to write itself through the serde layer (any nesting of scalars, options, sequences with or without known length, tuples, maps entry-wise or in parts, structs and variants with or without skipped fields, text built from formatting), the value produced holds exactly what was passed, in the layout derived types of that form have, and the matching calls read exactly that back. Whatever is requested when reading (any method, elements taken all or in part, entries whole, in parts or ignored, variants as each form), the visitor sees exactly the data, remaining lengths if reported are right, nothing is reported after the end, and array elements or variant content nobody took are an error instead of being dropped. The format describes itself as human readable or not in the same way at every point of writing and reading, so types choosing their form by it come back unchanged.",
  ["programs", "inputs"], "all sequences of serde interface calls up to a bound, on all data up to a bound",
  "Tests only use types with derived or standard implementations, each of which makes one fixed sequence of calls.",
  [SS, SD], [("serializer and its compound states", SS), ("deserializer and its access objects", SD)], None, ["serde serializer and deserializer interface"])

p("C28", "Hand-written implementations of Encode and Decode are honoured everywhere",
  "A type with its own implementation of the encoding and decoding traits behaves inside every container, tuple, derived struct or enum and generic type exactly as on its own: each of its values contributes exactly what it encodes to, an optional field of it is left out exactly when the type itself says so, null and undefined where a default applies give the type's own default or its own refusal, and each data item in its place is handed to it unchanged, and once. An error it returns is the error the caller gets (embedded variants, which are only tried, aside); failing part-way through never yields a value or a panic.",
  ["programs", "inputs", "fault_sequences"], "all containers and declarations around types overriding any of the trait methods, all their values, all data items up to a bound, all calls at which such a type may fail",
  "The tests nest standard and derived types only; no test type overrides emptiness, omission, defaults or null handling, or fails with an error of its own.",
  [E, D, DE, DD], [("trait methods and their provided bodies", E), ("default and null handling", D), ("field encoding and omission", DE), ("field decoding", DD)], None, ["typed encode/decode entry points"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
