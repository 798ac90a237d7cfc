#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["miniserde::json::from_str"],
                          "hook_needed": hook}})

DE = "src/json/de.rs"; SER = "src/json/ser.rs"; IMPL = "src/de/impls.rs"; SIMPL = "src/ser/impls.rs"
VAL = "src/json/value.rs"; OBJ = "src/json/object.rs"; ARR = "src/json/array.rs"; NUM = "src/json/number.rs"

p("C01", "Deserializing any text is total and memory-safe",
  "For every string and every supported target type, json::from_str returns either a value or an error: it never panics, never overflows an integer, never reads or writes outside live memory, never frees memory twice, and always terminates. Whatever it returns, once the result is dropped no memory it allocated is left behind.",
  ["inputs"], "every UTF-8 string, for each of the library's target types (untyped value, primitives, strings, sequences, arrays, tuples, maps, options, boxes, derived structs and enums)",
  "The tests parse a dozen well-formed documents and a handful of malformed ones; the parser keeps raw self-referential pointers whose validity depends on where an arbitrary document goes wrong.",
  [DE, IMPL, "src/ptr.rs", "src/careful.rs", "src/ignore.rs", VAL, OBJ, ARR, "derive/src/de.rs"],
  [("stack of heap layers dropped in reverse order", DE), ("lifetime extension of visitors", "src/careful.rs"), ("builder ownership", IMPL)])

p("C02", "Accepted documents are exactly the JSON texts",
  "Parsing a string as an untyped JSON value succeeds exactly when the whole string is one RFC 8259 JSON text (surrounding whitespace allowed) whose unicode escapes form valid scalar values and whose numbers do not overflow a double. Every other string is rejected: trailing data, missing or doubled separators, trailing commas, mismatched or unclosed brackets, leading zeros, bare signs, malformed literals, raw control characters and so on.",
  ["inputs"], "every UTF-8 string",
  "Acceptance is a language-equality statement over all strings; tests try one malformed document (' true && false ') and a few valid ones.",
  [DE, VAL], [("iterative event loop and bracket/comma handling", DE), ("token scanners", DE)])

p("C03", "An untyped parse denotes exactly the document's tree",
  "When a JSON text is parsed as an untyped value, the result has exactly the document's structure: the same kinds, literals, numbers and strings, array elements in document order and none lost or duplicated, object members under their decoded keys. If a key occurs more than once in an object the last occurrence wins. The dedicated array, object and number types accept exactly the documents of their kind and yield the same contents.",
  ["inputs"], "every valid JSON text",
  "Tests compare two fixed documents; the flattened element/frame stack has to reassemble every nesting shape.",
  [DE, VAL, OBJ, ARR, NUM], [("builders for arrays and objects", VAL), ("frame stack", DE)])

p("C04", "String literals decode to exactly the text they denote",
  "Every JSON string literal, as a value or as a key, decodes to exactly the characters it denotes: unescaped characters verbatim, each two-character escape and each \\uXXXX escape (either hex case) to its scalar value, surrogate pairs combined, everything in order and nothing dropped. The result is always valid UTF-8; unpaired or reversed surrogates, unknown or truncated escapes, raw control characters and unterminated literals are rejected.",
  ["inputs"], "every string literal over all code units and escapes",
  "No test contains an escape or a non-ASCII character in its input; 65536 escapes, 1M surrogate pairs and their combinations with copied runs cannot be sampled.",
  [DE], [("string scanner with scratch buffer and borrowed fast path", DE), ("escape decoding", DE)])

p("C05", "Integer literals are kept exactly",
  "An integer literal (no fraction, no exponent) that fits the unsigned or signed 64-bit range is delivered exactly, non-negative ones as unsigned and those with a minus sign as signed. Any larger magnitude is delivered as the floating point number nearest to it up to a relative error of 1e-15, never as a wrapped integer. A target of double or single precision gets that same number, rounded once to its precision.",
  ["inputs"], "every integer literal up to and beyond 20 digits, with and without sign",
  "Tests parse three small integers; the interesting inputs are the few at the edges of 2^63 and 2^64.",
  [DE, VAL, NUM], [("overflow-checked digit accumulation", DE), ("sign handling", DE)])

p("C06", "Decimal literals parse to an accurate finite double",
  "A number literal with a fraction or an exponent is delivered as a floating point number that is never NaN or infinite, carries the literal's sign (including negative zero), and differs from the exact decimal value by a relative error of at most 1e-15 or one subnormal step. A literal whose magnitude exceeds the double range is an error; one too small to represent becomes zero, whatever the length of its exponent. A target of double precision gets exactly that number, one of single precision that number rounded once.",
  ["inputs"], "every literal with fraction and/or exponent, including exponents that exceed 32 bits",
  "No test parses a number with a fraction or an exponent.",
  [DE], [("significand/exponent accumulation", DE), ("power-of-ten table and scaling loop", DE), ("exponent overflow path", DE)])

p("C07", "Fixed-width integers accept exactly their range",
  "For each built-in integer type, deserializing an integer literal succeeds exactly when its value lies within the type's range, and then yields exactly that value; no literal is ever wrapped, truncated or saturated. Literals with a fraction or an exponent are rejected.",
  ["inputs"], "all ten integer types and every literal",
  "Tests deserialize a u32 of 1 and 2; range checks matter at the bounds of ten types.",
  [IMPL, DE], [("signed! and unsigned! range checks", IMPL)])

p("C08", "Each type accepts only its own kind of JSON value",
  "Unit accepts only null, booleans only true and false (yielding that boolean), strings only string literals, integers only integer literals, floats any number, sequences, arrays and tuples only JSON arrays, maps and structs only JSON objects, enums only strings; a top-level value of any other kind, or a nested one in the place of such a type, makes the whole parse fail.",
  ["inputs"], "every JSON text against every built-in type",
  "Tests only feed matching documents apart from array lengths.",
  [IMPL, "src/de/mod.rs", OBJ, ARR, NUM, "derive/src/de.rs"], [("default visitor methods return an error", "src/de/mod.rs"), ("per-type visitor methods", IMPL)])

p("C09", "Arrays and tuples take exactly their length, in order",
  "Deserializing a fixed-length array or a pair succeeds exactly when the JSON array has exactly that many elements, each valid for the element type, and yields them in order. On any failure, and when the same slot is filled more than once, every element that was already built is released exactly once.",
  ["inputs"], "every JSON text, lengths 0 and up, element types that own memory",
  "Tests cover length 3 with one element missing or extra and never observe what is released.",
  [IMPL], [("partially initialised array builder with manual drop", IMPL), ("tuple builder", IMPL)])

p("C10", "Derived structs match members by name",
  "A derived struct is produced exactly when the document is an object that gives a valid value to every field: members may come in any order, are matched by the field's (possibly renamed, raw-prefix-stripped) name, the last occurrence of a repeated name wins, and members with any other name are skipped. A missing member makes the parse fail, except for optional fields, which become absent.",
  ["inputs", "programs"], "every JSON text against representative derived structs (plain, generic, renamed, raw identifiers, optional, nested)",
  "Tests deserialize three documents with members in declaration order and none repeated or (but for one optional) missing.",
  ["derive/src/de.rs", "derive/src/attr.rs", "src/de/mod.rs", IMPL], [("generated key dispatch and finish", "derive/src/de.rs"), ("rename and raw identifier handling", "derive/src/attr.rs")])

p("C11", "Derived enums map to exactly their variant names",
  "A derived enum deserializes from exactly the string equal to one of its variants' (possibly renamed, raw-prefix-stripped) names, yielding that variant, and from nothing else: not from other strings, prefixes, extensions or case variants, nor from any other JSON value. Serializing a variant gives exactly that name as a JSON string.",
  ["inputs", "programs"], "every JSON text against representative derived enums",
  "Tests read three matching names; rejection is never exercised.",
  ["derive/src/de.rs", "derive/src/ser.rs", "derive/src/attr.rs"], [("generated name match", "derive/src/de.rs"), ("generated name table", "derive/src/ser.rs")], ["miniserde::json::from_str", "miniserde::json::to_string"])

p("C12", "Typed maps hold exactly the object's members",
  "Deserializing a JSON object into an ordered or hashed map yields exactly one entry for each distinct key value, holding the last value given for it, with keys parsed from the decoded member names. If any key does not parse as the key type or any value is invalid, the whole parse fails. Serializing such a map writes every entry exactly once under its key's text.",
  ["inputs"], "every JSON object, string and numeric keys",
  "No test uses a typed map at all.",
  [IMPL, SIMPL], [("map builders holding a pending key and value", IMPL), ("map streams", SIMPL)], ["miniserde::json::from_str", "miniserde::json::to_string"])

p("C13", "Optional and boxed types are transparent",
  "A boxed type accepts exactly the documents its content type accepts and yields the same value, and serializes to the same text. An optional type accepts exactly null (absent) plus the documents its content type accepts (present, with the same value), and serializes to null or to its content's text.",
  ["inputs"], "every JSON text against options and boxes of primitives, sequences, maps, structs and recursive types",
  "Tests box one enum and one struct and use one option.",
  [IMPL, SIMPL, "src/ptr.rs"], [("forwarding visitor with self-referential builder", IMPL), ("in-place option visitor", IMPL)], ["miniserde::json::from_str", "miniserde::json::to_string"])

p("C14", "Serialized text is compact JSON denoting the value",
  "Serializing any value succeeds and gives a valid JSON text without insignificant whitespace whose structure is exactly the value's: every element and member exactly once, in iteration order, with brackets, commas and colons placed accordingly for any nesting of arrays, objects, scalars and empty containers, and struct members in declaration order under their names.",
  ["inputs", "programs"], "every value tree, including empty containers at every position",
  "Tests serialize two fixed documents and one fixed struct.",
  [SER, SIMPL, VAL, OBJ, ARR, "derive/src/ser.rs"], [("iterative fragment loop with explicit stack", SER), ("derived member stream", "derive/src/ser.rs")], ["miniserde::json::to_string"])

p("C15", "Serialized strings are valid literals that decode back",
  "For every string, used as value or as member name, the serialized form is a JSON string literal that decodes to exactly that string: quotes, backslashes and all control characters below U+0020 are escaped, everything else appears unchanged, and the output is valid UTF-8.",
  ["inputs"], "every Unicode string",
  "Tests serialize plain ASCII words only.",
  [SER], [("escape table and run copying", SER)], ["miniserde::json::to_string"])

p("C16", "Serialized numbers denote the number exactly",
  "Every built-in integer serializes to its exact decimal value for all widths and signs. A finite floating point number serializes to a JSON number denoting it (single precision as the equal double), and NaN and the infinities serialize to null, so number output is always valid JSON; untyped numbers do the same and display the same text when finite.",
  ["inputs"], "every value of every integer and float type",
  "Tests serialize 1.0, NaN and the infinities and no integer but small ones.",
  [SER, SIMPL, NUM], [("widening casts to 64 bits", SIMPL), ("finite check", SER)], ["miniserde::json::to_string"])

p("C17", "Serialize then deserialize gives back an equal value",
  "For every value free of floating point numbers and of doubly optional or unit-optional types, serializing it and deserializing the text as the same type succeeds and gives an equal value. The same holds for untyped values, up to non-negative signed integers coming back as unsigned ones.",
  ["inputs"], "values of primitives, strings, sequences, arrays, tuples, maps, options, boxes, derived structs and enums, and untyped trees",
  "Tests round-trip one nested document and one string array.",
  [DE, SER, IMPL, SIMPL, VAL, "derive/src/de.rs", "derive/src/ser.rs"], [("matching pairs of impls", "src/{de,ser}/impls.rs")], ["miniserde::json::from_str", "miniserde::json::to_string"])

p("C18", "Stack use does not grow with nesting depth",
  "Parsing a document, serializing a value and dropping an untyped value, successfully or on an error path, use an amount of call stack that does not depend on how deeply the data is nested, for any mixture of arrays and objects. Nesting depth alone is never a reason to reject a document.",
  ["inputs"], "every mixture of container kinds, any nesting depth, success and failure",
  "One test goes 100000 deep along one fixed alternation of object and array, on the success path only.",
  [DE, SER, "src/json/drop.rs", ARR, OBJ, IMPL], [("explicit heap stacks in parser and serializer", "src/json"), ("iterative drop of untyped values", "src/json/drop.rs")], ["miniserde::json::from_str", "miniserde::json::to_string", "dropping a json::Value"])

p("C19", "Untyped containers own their children exactly once",
  "Through any sequence of building, indexing, cloning, replacing, removing, iterating (by value, fully or partly, or by reference), collecting, overwriting and dropping, an untyped array or object hands out each child exactly once and in order, clones are equal and independent, and when everything is dropped every child has been released exactly once.",
  ["histories"], "every short history of container operations on untyped arrays and objects",
  "Tests only build values by parsing and drop them; by-value iteration and moving out of types with a custom destructor are never checked for leaks or double release.",
  [ARR, OBJ, "src/json/drop.rs", VAL], [("raw move out of a type with a destructor", ARR), ("raw move out of a type with a destructor", OBJ), ("explicit drop stack", "src/json/drop.rs")], ["json::Array", "json::Object", "json::Value"])

p("C20", "User-written deserializers see the document's event stream",
  "A user-written visitor is driven by exactly the document's events: one call of the matching kind with the decoded scalar, or one request for a sequence or map builder; the builder then gets one call per element or decoded key, in order, each followed by that element's complete events before the next call, and one finish call after its last element. After an error from the input or from any user call, no further call is made, finish is not called for the open builders, and everything handed out is dropped innermost first.",
  ["inputs", "fault_sequences"], "every document and every choice of which user call reports an error",
  "No test implements the deserialization traits; error returns from user code are never injected.",
  [DE, "src/de/mod.rs"], [("event loop and layer stack", DE), ("reverse-order drop of layers", DE)])

p("C21", "User-written serializers are streamed exactly once",
  "Serializing user-written values asks each value for its fragment exactly once, pulls every sequence or map stream in order until it first reports its end and never again, completes each element (all of its nested streams included) before pulling the next, and never uses an element after its stream has moved on or been dropped; the text written is the one these answers spell out, and all streams are released.",
  ["inputs", "histories"], "every shape of user-written fragment tree",
  "No test implements the serialization traits.",
  [SER, "src/ser/mod.rs"], [("stack of live streams, extended borrows", SER)], ["miniserde::json::to_string"])

p("C22", "Skipped members change nothing but must be valid",
  "A member a derived struct does not know, whatever JSON value it holds and wherever it stands, leaves the result equal to the one for the document without it; but an ignored value must still be well-formed JSON, otherwise the whole parse fails.",
  ["inputs"], "every ignored value, nested to any shape, at every position",
  "One test ignores a single trailing integer member.",
  ["src/ignore.rs", "derive/src/de.rs", DE], [("stateless ignore visitor, sequence and map", "src/ignore.rs")])

p("C23", "Whitespace between tokens never matters",
  "Inserting or removing any amount of space, tab, line feed or carriage return between two tokens, before the first or after the last changes neither acceptance nor the result; inside a literal, number or string it is never skipped, and no other character counts as whitespace.",
  ["inputs"], "every token boundary and every whitespace string",
  "Tests contain a few single spaces and line breaks.",
  [DE], [("whitespace skipping before each token", DE)])

p("C24", "A failed parse releases everything and yields nothing",
  "When a document is cut off or turns invalid at any point, or a typed conversion fails at any depth, the call reports an error, no value is produced, and everything built so far, at every nesting level and in every container kind, is released exactly once.",
  ["inputs", "crash_points"], "every cut point and every corrupted position of documents over all typed containers",
  "Three tests take an error path; none checks what is released.",
  [DE, IMPL, "src/ptr.rs", "derive/src/de.rs"], [("early return with live layers", DE), ("ManuallyDrop ordering in boxed builders", IMPL)])

p("C25", "Builds with and without the standard library agree",
  "The build without the standard library accepts the same documents, yields the same values and writes the same text as the default build.",
  ["configurations", "inputs"], "both feature configurations, every document",
  "The suite runs in both configurations but on the same few documents.",
  ["src/lib.rs", IMPL, SIMPL, DE, SER], [("std feature gate", "src/lib.rs")], ["miniserde::json::from_str", "miniserde::json::to_string"])

p("C26", "A panic in user code leaves no dangling or double drop",
  "If user code called during deserialization or serialization panics (a visitor or builder method, a key parser, an element's destructor, a stream), the unwinding releases every live object exactly once (at most once if the panic started in a destructor) and touches no released memory, in every built-in container around it.",
  ["fault_sequences", "inputs"], "every document shape and every user call at which a panic can start",
  "No test panics from user code.",
  [IMPL, DE, SER, ARR, OBJ], [("array builder resets before dropping", IMPL), ("reverse-order drop of layers", DE)], ["miniserde::json::from_str", "miniserde::json::to_string"])

p("C27", "Calls do not influence one another",
  "What json::from_str and json::to_string return depends on their argument alone: not on calls made before, whether those succeeded, failed or were cut short by a panic of user code; not on calls still in progress further up the stack, when a user-written visitor, map key, destructor or serializer calls the crate again; and what an earlier call returned is not changed by a later one.",
  ["histories", "inputs", "fault_sequences"], "every sequence of calls and every nesting of calls through user code, with any texts and outcomes",
  "Every test makes calls that succeed, on one fixed text each; no test calls the crate from user code that the crate called.",
  [DE, SER, IMPL, "src/ignore.rs"], [("per-call state of the parser: layer stack and scratch buffer", DE), ("per-call state of the writer", SER)], ["miniserde::json::from_str", "miniserde::json::to_string"])

p("C28", "Calls on several threads at once do not interfere",
  "Any number of threads may call json::from_str and json::to_string at the same time, also on the same text or the same shared value, and clone and drop values of their own: each call gives exactly what it would give alone, whatever the threads' steps come to be interleaved like, and no memory is corrupted.",
  ["schedules", "inputs"], "every interleaving of the steps of concurrent calls, with any texts and values",
  "Tests run in parallel but look at nothing shared, and an interleaving that goes wrong can be a window of one instruction that no run hits.",
  [DE, SER, IMPL, SIMPL, VAL, "src/ignore.rs"], [("per-call state of the parser: layer stack and scratch buffer", DE), ("per-call state of the writer", SER), ("shared unit value of the ignoring visitor", "src/ignore.rs")], ["miniserde::json::from_str", "miniserde::json::to_string"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
