#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

JD="json/src/deserialize/text.rs"; JS="json/src/serialize/text.rs"; JN="json/src/deserialize/number.rs"
JM="json/src/deserialize/mod.rs"; JH="json/src/helper.rs"; CH="core/src/helper.rs"; CD="core/src/deserialize.rs"
CS="core/src/serialize.rs"; CR="core/src/text_reader.rs"; CW="core/src/text_writer.rs"; CN="core/src/name_map.rs"

prop("C01","JSON round trip of every supported value",
 "For every value of every type with a codec (bool, all integer widths and their NonZero forms, finite floats, char, String, (), tuples, arrays, Vec, Option at any nesting, derived structs and enums), writing it as JSON (compact or indented, to a string or a byte stream) and reading the text back as the same type yields an equal value, with floats bit-identical. This holds equally when the text is read through a reader over a byte stream, and when the value sits inside a container whose entries are read out of order.",
 ["inputs","configurations"],"all supported types and all their values, both indentation modes, string and byte-stream transports",
 "Tests round-trip a handful of hand-written values; the claim ranges over every nesting of types (where null niches, empty containers and struct fallbacks interact) and every leaf value.",
 [CS,CD,CH,JS,JD,JN,"derive/src/serialize.rs","derive/src/deserialize.rs"],
 [("paired Serialize/Deserialize impls","core/src/serialize.rs, core/src/deserialize.rs"),("Option null niche vs struct fallback","impl for Option<T>")],
 observe=["serdere_json::to_str / from_str","serdere_json::to_writer / from_reader","TextSerializer with indent"])

prop("C02","Serializer output is exactly the described document, well-formed JSON",
 "For every legal sequence of serializer calls, in compact mode and with every whitespace indentation string, the text produced is a single well-formed JSON document whose tree (values, entry order, keys, list items) is exactly the one described by the calls. The layout is exactly the documented one: compact (the default, and what to_str and to_writer write) uses `[1, 2]`, `{ \"a\": 1 }`, `[]`, `{}`; indented puts each item or entry on its own line at its nesting depth, with empty containers staying `[]` and `{}`; strings come out with every quote, backslash and control character escaped.",
 ["histories","inputs","configurations"],"all legal serializer call sequences (all nestings of lists, tuples, structs, objects, strings, scalars), all characters, all indentation settings",
 "Tests check a few documents; comma, separator, indentation and escaping state is carried across calls, so every position of every nesting shape and every character has to be considered.",
 [JS,"json/src/serialize/mod.rs",CS],
 [("separator/first-item state machine","push_item, add_entry, close_list, close_object in json/src/serialize/text.rs"),("character escaping","append_char")],
 state=[("first-item flag","whether the next item is the first of its container",JS),("depth","open containers, for indentation",JS),("in-key flag","whether the open string is an entry key",JS)],
 observe=["text written to the TextWriter"])

prop("C03","Strict parser accepts exactly RFC 8259 and decodes faithfully",
 "In the strict configuration (the default one, and that of from_str and from_reader) a document is accepted in full (value consumed, then closed) if and only if it is a single RFC 8259 JSON text (\\u escapes of unpaired surrogates, which denote no character, and exponents beyond 32 bits being rejected), every other text being reported as an error. An accepted document is decoded to exactly the tree it denotes: same value types, keys, order and scalars. Both hold for every way of consuming the document: walking it as a tree, skipping values, and having entries buffered while other keys are looked up.",
 ["inputs","histories"],"all texts; all consumption modes (full walk, skip, out-of-order look-up that buffers entries, deserialization to typed values)",
 "Tests use a few well-formed documents; acceptance is a language-equality claim over all texts and the buffered path is a second, separate parser.",
 [JD,JM],
 [("streaming tokenizer","TextReaderExt in json/src/deserialize/text.rs"),("buffered-value parser","read_lookback_value")],
 observe=["TextDeserializer methods' results","TextDeserializer::close"])

prop("C04","Object content does not depend on the order entries are accessed",
 "Whatever sequence of key look-ups (including keys that are absent or requested repeatedly), virtual nulls, next-entry calls, item reads, skips and closes is applied to a JSON document, each entry of an object is delivered exactly once, with its own key and value; a look-up succeeds exactly when an unread entry with that key remains; and next-entry delivers the remaining entries in document order. This holds at every nesting depth, for values reached directly and values buffered earlier, for any number of entries and any key and value lengths, and for repeated keys (each occurrence delivered once).",
 ["histories","inputs"],"all documents and all sequences of look-up / next-entry / item / skip / close operations on them",
 "Tests read a few objects in two or three orders; the buffered state (items, keys, nested containers, partially read siblings) is reached only by particular operation histories.",
 [JD,JM,JH],
 [("look-ahead buffering of entries","try_push_entry / read_lookback_value"),("draining buffered entries","next_entry / first_unread_child"),("re-opening buffered containers","open_object / open_list on buffered values")],
 state=[("buffered items, keys and data","entries read past while looking for another key",JD),("streaming depth","which open containers still have unread input",JD)],
 observe=["try_push_entry, push_entry, next_entry, next_item, skip_value, skip_object, close_object results"])

prop("C05","Number literals decode to exactly the denoted value or are rejected",
 "Every JSON number literal whose effective decimal exponent fits in 32 bits, read as an integer type, yields exactly the mathematical value it denotes if that value is an integer of the type, and an error otherwise, whatever its spelling (leading minus, fraction, exponent, trailing zeros, any number of digits). Read as f32 or f64 it yields the correctly rounded value, with the sign of zero kept. The result is the same whether the literal is read directly or from a buffered entry.",
 ["inputs"],"all number literals, all integer and float target types, direct and buffered reading",
 "Tests decode a handful of small literals; exactness and overflow are decided at the borders of ten numeric types, by digit count, exponent and trailing zeros, in two code paths.",
 [JN,JD],
 [("digit accumulation with overflow detection","NumBuilder / Num::from_builder in json/src/deserialize/number.rs"),("literal grammar","read_number_into_builder"),("nibble-packed digits of buffered numbers","LookbackNumBuilder")],
 observe=["TextDeserializer::read_number / get_* results"])

prop("C06","Strings, characters and keys decode and encode exactly",
 "Every string of Unicode scalar values, written in JSON as a value or as an object key (directly or with any mix of raw characters, short escapes and \\u escapes including surrogate pairs), is read back as exactly that string, however it is consumed: whole, character by character, as a char, as an enum name, as a key matched by look-up, or from a buffered entry. Every escape sequence that is not a legal JSON escape of a Unicode scalar value is rejected with an error. Reading as a char succeeds exactly for one-character strings.",
 ["inputs"],"all Unicode scalar values, all escape spellings, all mixes of raw and escaped characters, values and keys, direct and buffered",
 "Tests cover a few ASCII strings; the claim is about every scalar value and every escape spelling in several separate decoding loops (value, key, key match, buffered value).",
 [JD,JS,CD],
 [("escape decoding","read_escape_sequence"),("incremental key matching","read_str_bytes_into_or_match"),("buffered string iteration","next_char on buffered strings"),("escape encoding","append_char")],
 observe=["read_str, next_char, get_char, get_name, try_push_entry, next_entry + flush_str"])

prop("C07","Byte input is decoded as exact UTF-8, whatever the chunking and faults",
 "A byte-stream reader yields exactly the characters of a well-formed UTF-8 input, independent of how the source splits its reads and of interrupted reads that succeed on retry. Ill-formed or truncated UTF-8 (overlong forms, surrogates, values past U+10FFFF, stray or missing continuation bytes) and failing reads are reported as an error, never decoded to some character and never taken for end of input.",
 ["inputs","fault_sequences"],"all byte sequences, all placements of short, interrupted and failing reads",
 "One unit test decodes one valid string; the claim is over all byte sequences and every placement of faults in the byte source.",
 [CR],[("UTF-8 decoding","read_utf8"),("one-character look-ahead","Utf8Reader::new / next")],
 observe=["read_utf8 results","Utf8Reader::next / peek"])

prop("C08","Decoding does not depend on the kind of text source",
 "For every document and every way of reading it, deserializing from a string slice, from a UTF-8 byte-stream reader, or from any other conforming text source gives the same values or the same error message at the same place in the text. Readers of the library agree with the plain character sequence of the text on next, peek, exact-match and read-until, and the line and column reported for a byte stream are those of the corresponding character (lines and columns from 0, printed from 1, a tab counting four columns, a carriage return none). The positions of one reader compare in the order of the text.",
 ["inputs","histories","configurations"],"all texts, all read scripts, all reader implementations",
 "Tests use only string slices for most documents; equality of two reader implementations over all texts is not sampled at all.",
 [CR,JD],[("reader interface","TextReader and its impls"),("line/column tracking","Utf8Reader::next"),("slice-based overrides","TextReader for &str")],
 observe=["decoded values, DeserializeError::message and position per reader"])

prop("C09","Name look-up is exact string matching",
 "For every set of distinct names, listed in any order, and every query, looking the query up in the name table returns the value of the name equal to the query and nothing otherwise. The answer is the same however the query is fed in (whole, by characters, in arbitrary byte chunks including empty ones), and the table reports exactly the entries it was given.",
 ["inputs","histories"],"all finite sets of distinct names in all listing orders, all queries and all ways of splitting them",
 "Two tests use one fixed set of eleven names; sorting and narrowing depend on the order, shared prefixes and size of the set and on the chunking of the query.",
 [CN],[("compile-time sort","FixedNameMap::new"),("narrowing binary search","NameMapLookup::write_bytes")],
 state=[("candidate range and input length","entries still matching the prefix fed so far",CN)],
 observe=["NameMap::get / lookup / entries / size"])

prop("C10","The wrappers enforce the stack discipline",
 "Through the Value, Struct, Tuple, List, Object, Entry and Collection wrappers every call sequence the types allow either issues to the underlying serializer or deserializer exactly the stack calls the sequence describes, leaving done flags and remaining lengths true to what was actually completed, or is a misuse (a container used or closed while a child is incomplete or has failed, a wrapper used again after completion, a known list length exceeded or not reached) and panics before the next conflicting call is issued. A correct use never panics, and an error of the underlying format is returned unchanged and does not count as completion.",
 ["histories","fault_sequences"],"all call sequences through the wrappers, correct and incorrect, with an error injected at every underlying call",
 "Tests only use the wrappers correctly and on success paths; misuse detection and error paths are claims over all call histories.",
 [CH,JH],[("done/ready flags","Value, Struct, Tuple, List in core/src/helper.rs; Object, Entry in json/src/helper.rs"),("list length accounting","List::push / next / close")],
 state=[("done flag","the wrapped item was completed",CH),("ready flag","no child is open",CH),("remaining length","items still expected in a list of known length",CH)],
 observe=["calls received by a recording outliner","panics","rem_len and done flags"])

prop("C11","Derived codecs implement the declared wire format",
 "For every struct with named fields and every enum of unit, named-field or transparent variants, with any combination of field (rename, default, flatten, proxy), variant (rename, reindex, transparent, explicit discriminant) and enum (tag, rename) attributes, the derived serializer produces exactly the declared representation: fields under their wire names in declaration order, flattened and transparent content inlined, unit-only enums as their variant name, other enums as a struct with the tag first. The derived deserializer accepts exactly that representation (variants by name or by index), applies defaults for absent or null fields, converts proxies, and rejects unknown names and indices.",
 ["programs","inputs"],"all type definitions over the supported attributes, all their values, all documents",
 "The repository's tests define about ten types; the claim is over all definitions (attribute combinations, variant index layouts, field names) and all inputs for each.",
 ["derive/src/lib.rs","derive/src/serialize.rs","derive/src/deserialize.rs"],
 [("attribute parsing and index assignment","VariantRepr / FieldRepr / EnumRepr"),("code generation","expand in derive/src/serialize.rs, derive/src/deserialize.rs")],
 observe=["to_str and from_str of derived types","calls made on a recording serializer"])

prop("C12","Struct and tuple decoding rules: any order, unknown ignored, exact arity",
 "A struct is decoded from a JSON object whatever the order of its entries and with unknown entries of any content (anywhere, at any size) ignored; an absent field behaves exactly as a null for nullable or defaulted fields and is a missing-key error naming the field otherwise. A struct is also decoded positionally from a JSON array, and structs-from-arrays, tuples and fixed-size arrays require exactly the right number of items: fewer and more are both errors. The document after the struct is unaffected by how the struct was decoded.",
 ["inputs"],"all permutations, omissions, duplications-free insertions of unknown entries, nestings; all array lengths; all struct shapes including nested and flattened ones",
 "Tests try a few orders of small structs; the guarantee is over all orders, omissions and unknown content, combined with nesting and buffering.",
 [JM,JD,CD,CH],[("field push with virtual null","push_field / push_null"),("struct closing","close_struct"),("tuple/array arity","push_item / close_list")],
 observe=["from_str results and error messages"])

prop("C13","Output failures surface and never corrupt what was written",
 "If the destination fails at any point, the serialization call in progress returns that very error, nothing is written after it, and what was written before is a prefix of the output of the fault-free run. Without a failure every byte reaches the destination exactly once, even if it accepts only part of a buffer at a time or is interrupted, and the bytes are the UTF-8 encoding of the text produced for a string destination.",
 ["fault_sequences","inputs"],"every failing position, every short-write and interruption pattern, all values",
 "No test injects an output fault; the claim is over every write position of every document.",
 [CW,JS,"json/src/serialize/mod.rs",CS],[("error propagation","`?` on every writer call"),("complete writes","Utf8Writer")],
 observe=["to_writer result","bytes received by the io::Write / TextWriter"])

prop("C14","Errors carry the right position",
 "A syntax error is positioned inside the first offending token: at or after its first character and not beyond the first character that cannot continue any valid document (end of input for a truncated one). Type mismatches, numeric overflows and custom or validation errors are positioned at the first character of the value concerned, missing or extra keys and items at the opening brace or bracket of the container concerned. This is independent of whether the value was read directly or had been buffered by an earlier look-up. The printed form of an error contains its message (naming the key, name or index concerned) and its position, line and column counted from one; a custom or validation error shows the cause it was made from and returns it as its source.",
 ["inputs","histories"],"all malformed and ill-typed documents, all read histories before the error, string and line/column positions",
 "Only a few tests look at positions; a right position has to hold for every error site and for values that were buffered earlier.",
 [JD,JM],[("last-popped-item position","error position updated on each pop"),("positions recorded for buffered items","LookbackItem positions"),("token start positions","TextReaderExt")],
 state=[("error position","start of the most recently popped item",JD)],
 observe=["DeserializeError::position"])

prop("C15","Comments are whitespace when allowed, errors when not",
 "With comments allowed, inserting line comments (ended by a newline or the end of input), block comments or whitespace anywhere between tokens never changes the decoded result, whether values are read directly, skipped or buffered. An unterminated block comment or a lone slash is an error, and a slash inside a string is just a character. In the strict configuration, which is the default one and that of from_str and from_reader, every comment is an error.",
 ["inputs","configurations"],"all documents, all comment contents and all placements between tokens, both configurations",
 "One test has comments in a few places; there are more than a dozen places where a token boundary is scanned, and the claim ranges over all of them and over all comment bodies.",
 [JD],[("whitespace and comment skipping","skip_whitespace, skip_comment and the skip_to_* scanners")],
 observe=["decoded values / errors under TextDeserializerConfig strict and permissive"])

prop("C16","No text makes decoding panic, hang or exhaust the stack",
 "For every text (well-formed or not, however deeply nested, however long) and every target type or correct sequence of deserializer calls, decoding terminates and returns a value or an error: it never panics, aborts, loops forever, or uses call-stack space that grows with the nesting of values that are skipped or buffered rather than decoded into nested user types.",
 ["inputs","histories"],"all texts, all target types, all correct call sequences, nesting depth and length without bound",
 "Tests feed well-behaved documents; absence of panics is a statement about every text and every target, including truncated and hostile ones.",
 [JD,JM,JN,CD,CR],[("error returns on malformed input",JD),("iterative buffering of nested values","read_lookback_value"),("skipping of values","skip_value")],
 observe=["return of from_str and of each deserializer call"])

prop("C17","Floats survive the JSON round trip bit for bit",
 "Every finite f32 and f64 value, including subnormals, both zeros and extreme exponents, is written as a JSON number that reads back as the identical bit pattern, directly or from a buffered entry. The written number is a valid JSON literal and denotes the value itself to within the type's precision (any standard correctly rounding parser returns the same float).",
 ["inputs"],"all 2^32 f32 bit patterns and all finite f64 values",
 "One test round-trips a few constants; rounding and formatting errors show only for particular bit patterns.",
 [JN,JS,JD],[("float formatting","put_f32 / put_f64"),("float parsing through digit buffer","FloatBuilder")],
 observe=["to_str / from_str of f32 and f64"])

prop("C18","The user context reaches every nested value, in document order",
 "When a value is serialized or deserialized with a user-supplied context, every nested value with a user-defined codec (inside options, tuples, arrays, lists, derived structs and enums, flattened and transparent parts, defaulted and proxied fields) receives that same context exactly once, in the order of declaration or of the sequence. A context with mutable state therefore sees a deterministic visit sequence, the same for serialization and for deserialization of the written value.",
 ["inputs","programs"],"all compositions of the standard container codecs and derived types over a context-using leaf type",
 "A single test uses a context in one shape; every container and attribute has its own forwarding code.",
 [CS,CD,CH,"derive/src/serialize.rs","derive/src/deserialize.rs","json/src/serialize/mod.rs",JM],
 [("context forwarding","put_using / get_using / inline_*_using and the derive output")],
 observe=["visit log kept by the context"])

prop("C19","Standard codecs obey the stack protocol of any format",
 "On any conforming format, with or without null support, with or without known list lengths on reading, the standard and derived codecs issue only calls that are legal for the current top of the stack, complete every value they are given exactly once, announce true list lengths, and reading a written value back gives the same value. They never use null on a format without null support, so that nested options and options of nullable types stay distinguishable.",
 ["inputs","configurations","programs"],"all compositions of standard and derived codecs and their values; formats with every combination of capabilities",
 "All tests go through JSON, which always supports null and never announces lengths; the generic contract with other formats is untested.",
 [CS,CD,CH,"core/src/outliner.rs","derive/src/serialize.rs","derive/src/deserialize.rs"],
 [("Outliner/Serializer/Deserializer contract","core/src/outliner.rs"),("null niche decision","Option impls")],
 observe=["calls received by a checking tape format"])

prop("C20","Provided methods and standard implementations serve any JSON format",
 "On any conforming JSON format, not only the text one, the provided methods of the traits (reading, skipping and looking up strings, skipping values and objects, writing strings) and the standard implementations of structs, fields, lists and tags give the encoding and decoding rules of the text format: the same trees are described by the same values, the same documents mean the same values, and faults are of the same kind and attributed to the same value. They issue only calls that are legal for the current top of the stack, consume exactly the value, string or object they are called for, whatever its depth, and return an error of the format unchanged without another call.",
 ["inputs","histories","fault_sequences"],"all documents, target types, values and call histories, every call of the format failing, formats with and without known lengths",
 "All tests use the text format, which tolerates calls that another format need not; the provided methods are a contract with every format.",
 [JM,"json/src/serialize/mod.rs","json/src/outliner.rs",CS,CD,"json/src/helper.rs"],
 [("standard implementations","get_tag, open_struct, push_field, close_struct, push_item, close_list, put_tag"),("provided methods","skip_value, skip_object, flush_str, skip_str, read_str, flush_name, get_name, append_str, put_str")],
 observe=["calls received by, trees written to and values read from a checking tree format"])

prop("C21","Reading and writing are incremental",
 "When an operation of the deserializer or of a wrapper succeeds (or a nested value has been decoded, as a user codec sees it), the source has been looked at no further than one character beyond the text that the operations so far are about: the brackets, strings, scalars, keys and beginnings of items that were delivered, for a look-up the entry found (the whole object only if there is none), and nothing new for what comes from a buffered entry. So a value is available while the rest of the document has yet to arrive, and what follows a value is left alone. Likewise, when an operation of the serializer returns, the text it describes has been handed to the destination.",
 ["inputs","histories","configurations"],"all documents, all sequences of operations (raw calls, wrappers, typed decoding and encoding), character and byte sources and destinations",
 "Tests read whole documents from memory, where reading ahead or holding output back is invisible; every position of every history has to be considered.",
 [JD,JM,JH,CH,CR,CD,JS,CW],[("one character of look-ahead, no internal buffering","Utf8Reader"),("entries buffered only up to the one looked up","try_push_entry"),("items delivered one by one","next_item, next_entry"),("text written as it is described","TextSerializer, Utf8Writer")],
 observe=["characters or bytes taken from the source after each operation","bytes handed to the destination after each operation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
