#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

GOV1 = ["buffer.go", "encode.go", "encoder.go", "decode.go", "decoder.go"]
GOV2 = ["v2/buffer.go", "v2/encode.go", "v2/encoder.go", "v2/decode.go", "v2/decoder.go", "v2/error.go"]
RS = ["encoder.rs", "decoder.rs", "kind.rs"]
CB = ["c_bindings/encoder.rs", "c_bindings/decoder.rs", "c_bindings/types.rs", "polyglot.h"]
TS = ["encoder.ts", "decoder.ts", "kind.ts"]

p("C01", "Go values survive an encode/decode round trip exactly",
  "In both Go modules, and from either one to the other, decoding what was encoded returns the identical value: every nil, bool, integer, float (bit for bit, NaN payloads included), string, byte slice, error message, list header and map header. Decoding consumes exactly the bytes of that value, whatever data follows it, and a byte slice may be decoded into a caller's scratch slice of any length or capacity, nil included, with the same result. A decoded error matches, under errors.Is, any error with the same message.",
  ["inputs", "histories"], "every value of every kind, payloads of every length up to 2^32-1 bytes, any bytes already in the buffer and any bytes after the value",
  "The tests encode a few dozen chosen values; a fault at one varint boundary, one payload length, one scratch-slice size or one bit pattern is invisible to them.",
  GOV1 + GOV2, [("varint/zig-zag/big-endian encoders and the matching decoders", "encode.go, decode.go, v2/encode.go, v2/decode.go"), ("length-prefixed payload copy", "decodeBytes, decodeString, decodeError in both modules")],
  ["Encoder(b).X(v) followed by Decoder(b.Bytes()).X()"])
p("C02", "Go encoders emit exactly the canonical wire format",
  "In both Go modules every encode call appends exactly the documented bytes of its value and nothing else: the kind byte, then a shortest-form little-endian base-128 varint for unsigned integers, the same of the zig-zag form for signed integers, big-endian IEEE-754 bits for floats, 0/1 for bools, a uint32-encoded length and the raw payload for bytes, strings and errors, element kinds and a uint32-encoded size for list and map headers. The bytes are the same for both modules and do not depend on what the buffer held, its length or its capacity.",
  ["inputs", "configurations"], "every value of every kind and every buffer state (any offset, length and capacity, any earlier content), payloads of every length up to 2^32-1 bytes",
  "Interoperation with Rust, TypeScript and C rests on byte equality; the tests compare a handful of constants and mostly check only that Go agrees with itself.",
  GOV1 + GOV2, [("encode* functions", "encode.go, v2/encode.go"), ("unrolled varint writers", "v2/encode.go"), ("kind constants", "encode.go, v2/encode.go")],
  ["Buffer.Bytes() after one encode call"])
p("C03", "Go decoders never panic, whatever bytes they are given",
  "In both Go modules, every decode call on every byte slice returns normally, with a value or an error: it never panics, never reads outside the slice and never modifies it. What remains to be decoded afterwards is always a suffix of what there was before.",
  ["inputs"], "every input byte slice of every length (including empty, truncated and garbage input), every decode call, every expected kind, every scratch slice",
  "The tests decode well-formed buffers and a few with a missing first or last byte; an out-of-range read needs a particular truncated or malformed input.",
  ["decode.go", "decoder.go", "v2/decode.go", "v2/decoder.go"], [("length checks before indexing", "decode.go, v2/decode.go")],
  ["Decoder methods on arbitrary input"])
p("C04", "Go decoders refuse another kind and consume nothing",
  "In both Go modules, a decode call made when the next value has a different kind (or a list or map header with different element kinds) fails, and leaves the decoder exactly where it was, so the caller can try another kind. This includes the nil probe, which consumes one byte if and only if the next byte is the nil kind.",
  ["inputs", "histories"], "every input whose leading kind byte (or element kind bytes) is not the one asked for, every decode call",
  "Generated code probes for nil before every message and relies on failed probes consuming nothing; tests try one wrong kind for some calls and do not look at what is left.",
  ["decode.go", "decoder.go", "v2/decode.go", "v2/decoder.go"], [("kind byte comparison", "decode.go, v2/decode.go")],
  ["the decoder's remaining input after a failed call"])
p("C05", "Go decoders accept only complete, in-range encodings",
  "In both Go modules, when a decode call succeeds, the bytes it consumed are a complete encoding of exactly the value returned: the kind byte was right, the varint ended within the input and its value fits the type, and all of the declared payload was present. Truncated input, a varint longer than the type allows or with bits beyond the type's width, and a length larger than the remaining data all give an error, never a wrong value.",
  ["inputs"], "every input byte slice, every decode call; payload lengths up to the full uint32 range",
  "Silent acceptance of a truncated or overflowing value needs particular malformed bytes; the tests have none with more than one byte missing and no overflowing varint.",
  ["decode.go", "decoder.go", "v2/decode.go", "v2/decoder.go"], [("varint continuation and overflow checks", "decode.go, v2/decode.go"), ("payload length checks", "decodeBytes, decodeString, decodeError")],
  ["Decoder methods on arbitrary input"])
p("C06", "Go buffers keep every byte written, at any size and capacity",
  "In both Go modules a buffer behaves as a growing byte sequence: writing or encoding appends, what was there before stays unchanged, the length reported is the number of bytes held, and reset empties it. This holds for every starting length and capacity, for buffers made with any initial size or from an existing slice, and for writes of every size, and none of these calls panics; growing by n always leaves room for n more bytes without changing the content.",
  ["inputs", "histories", "configurations"], "every reachable buffer state (any offset, length, capacity, content), every write size and every encode call on it",
  "A growth bug already shipped once (short writes when capacity did not grow properly); it shows only at particular ratios of offset, capacity and write size.",
  ["buffer.go", "encode.go", "v2/buffer.go", "v2/encode.go"], [("Grow/Write capacity arithmetic", "v2/buffer.go"), ("append-based Write", "buffer.go")],
  ["Buffer.Bytes, Buffer.Len, Buffer.Cap"], [{"name": "offset/backing slice", "meaning": "bytes held and space available", "where": "v2/buffer.go Buffer"}])
p("C07", "Recycled Go buffers and decoders carry nothing over",
  "A buffer taken from a pool is always empty and usable like a new one, whatever was written to it before it was returned; putting back nil is harmless. A pooled decoder works on exactly the input it was obtained with, whatever it was used for before, and a returned decoder keeps no reference to its input.",
  ["histories"], "every state a buffer or decoder can be in when it is put back, and every choice the pool can make of what to hand out",
  "sync.Pool decides nondeterministically whether and what it hands back; tests see whichever item their run happens to get.",
  ["v2/pool.go", "v2/buffer.go", "decoder.go"], [("Reset in Put", "v2/pool.go"), ("reinitialisation in GetDecoder/ReturnDecoder", "decoder.go")],
  ["Pool.Get/Put, GetBuffer/PutBuffer, GetDecoder/Return"])
p("C08", "Go values decoded or encoded never alias the caller's data",
  "In both Go modules the byte slice, string or error returned by a decode call is independent of the input: changing the input afterwards does not change it, and changing a decoded byte slice does not change the input. Encoding copies the caller's bytes, so changing them after the call does not change the buffer, and encoding and decoding never modify the caller's own values, nor memory beyond the capacity of a scratch slice.",
  ["inputs", "histories"], "every payload of every length, every scratch slice, every later modification",
  "Aliasing shows only when input memory is reused (pooled network buffers) after decoding; tests check one modification of one byte in one direction.",
  ["encode.go", "decode.go", "v2/encode.go", "v2/decode.go"], [("copying of payloads", "decodeBytes, decodeString, encodeBytes, encodeString")],
  ["decoded values after the input is overwritten"])
p("C09", "Independent Go encoders and decoders share no mutable state",
  "In both Go modules, encoding into one buffer or decoding one input reads and writes nothing that another buffer's or input's user could write: no call stores to package-level state, so goroutines working on different buffers and inputs never interfere.",
  ["schedules", "inputs"], "every encode, decode and buffer call with every input, hence every interleaving of such calls on different buffers",
  "Tests run sequentially; a data race on shared scratch space needs a particular interleaving.",
  GOV1 + GOV2, [("no package-level scratch state", "encode.go, decode.go, v2/encode.go, v2/decode.go")],
  ["two buffers or inputs used side by side"])
p("C10", "Rust values survive an encode/decode round trip exactly",
  "In the Rust crate, decoding what was encoded returns the identical value: every none, bool, integer, float (bit for bit), string, byte vector, error message, array header and map header. Decoding consumes exactly the bytes of that value, whatever data follows it.",
  ["inputs", "histories"], "every value of every kind (payloads up to a stated length), any bytes before and after it",
  "The tests use a few values per kind.",
  RS, [("impl Encoder for Cursor<Vec<u8>>", "encoder.rs"), ("impl Decoder for Cursor<T>", "decoder.rs")], ["Encoder/Decoder traits"])
p("C11", "Rust encoders emit exactly the canonical wire format",
  "In the Rust crate every encode call appends exactly the documented bytes of its value and nothing else, the same bytes the Go modules emit: the kind byte, then shortest-form varints (zig-zag for signed), big-endian float bits, 0/1 for bools, uint32-encoded lengths and raw payloads for bytes, strings and errors, and element kinds plus a uint32-encoded size for array and map headers. Bytes already in the cursor's vector are unchanged.",
  ["inputs"], "every value of every kind (payloads up to a stated length)",
  "Interoperation rests on byte equality; the tests compare a handful of constants.",
  RS, [("impl Encoder for Cursor<Vec<u8>>", "encoder.rs"), ("kind numbering", "kind.rs")], ["the cursor's vector after one encode call"])
p("C12", "Rust decoders accept only complete encodings and never panic",
  "In the Rust crate every decode call on every input returns normally, from every cursor position; when it succeeds, the bytes it consumed are a complete encoding of exactly the value returned. Truncated input, a varint longer than the type allows or with bits beyond the type's width, a length larger than the remaining data, and text that is not UTF-8 all give an error.",
  ["inputs"], "every input up to a stated length, every cursor position, every decode call and expected kind",
  "Needs particular malformed bytes; the tests decode well-formed data and drop one byte.",
  ["decoder.rs"], [("impl Decoder for Cursor<T>", "decoder.rs")], ["Decoder trait on arbitrary input"])
p("C13", "Rust decoders refuse another kind and leave the cursor in place",
  "In the Rust crate, a decode call made when the next value has a different kind (or an array or map header with different element kinds) fails and leaves the cursor where it was, so the caller can try another kind. The none probe consumes one byte if and only if the next byte is the none kind.",
  ["inputs", "histories"], "every input whose next kind bytes differ from those asked for, every decode call",
  "Generated decoders probe for none and for an error before every message and rely on the cursor not moving; the tests do not check positions for compound kinds.",
  ["decoder.rs"], [("set_position on a kind mismatch", "decoder.rs")], ["Cursor::position after a failed call"])
p("C14", "Rust decoders never allocate more than the input can hold",
  "In the Rust crate a decode call never requests memory for a payload that is not there: a declared byte, string or error length larger than the remaining input is rejected before anything of that size is allocated.",
  ["inputs"], "every input up to a stated length, with declared lengths over the full u32 range",
  "A few bytes of input must not make a peer allocate gigabytes; tests never declare a length beyond the data.",
  ["decoder.rs"], [("length check before allocation", "decoder.rs decode_bytes/decode_string/decode_error")], ["allocation requests during a decode call"])
p("C15", "The C library encodes and decodes the same values as the Rust crate",
  "Through the C interface every value encoded yields exactly the canonical bytes, and decoding those bytes returns the identical value with a pass status; the encoder's size and buffer calls report and copy exactly the bytes encoded so far. A failed decode reports a failure status and returns the zero value.",
  ["inputs", "histories"], "every value of every kind (payloads up to a stated length) and every input up to a stated length",
  "One C program with one value per kind is all the tests run.",
  CB, [("extern functions forwarding to the Rust crate", "c_bindings/encoder.rs, c_bindings/decoder.rs"), ("kind conversion", "c_bindings/types.rs")], ["polyglot_encode_*, polyglot_decode_*, polyglot_encoder_size, polyglot_encoder_buffer"])
p("C16", "C calls given null pointers report it instead of crashing",
  "Every C call that takes an encoder, decoder, buffer or string pointer, when given a null one and a valid status pointer, sets the null-pointer status and returns the zero value without touching memory. Freeing a null pointer does nothing, and every call other than the free functions always sets the status.",
  ["inputs"], "every call of the C interface and every combination of null and valid pointers, whatever the status held before",
  "The C test passes valid pointers only.",
  CB, [("null checks in each extern function", "c_bindings/encoder.rs, c_bindings/decoder.rs")], ["status after the call"])
p("C17", "The C library is memory safe over whole object lifetimes",
  "No sequence of creating, using and freeing through the matching C functions reads or writes outside live objects, frees with the wrong size or frees twice: this covers every decoded byte buffer (empty ones too), string and error. Copying out the encoded bytes never writes beyond the size the caller gave, and fails if that is too small.",
  ["inputs", "histories"], "every payload up to a stated length (including zero), every caller buffer size, every input up to a stated length",
  "valgrind sees only the one non-empty payload the C test uses.",
  CB, [("Box::into_raw/from_raw pairs", "c_bindings/decoder.rs, c_bindings/types.rs"), ("size check", "c_bindings/encoder.rs polyglot_encoder_buffer")], ["allocation and free pairs, writes to the caller's buffer"])
p("C18", "TypeScript values survive an encode/decode round trip exactly",
  "In the TypeScript package, decoding what was encoded returns the identical value: every null, boolean, uint8/16/32, int32, uint64 and int64 bigint, float32 and float64, byte array, string, error message, array size and map size. Decoding consumes exactly the bytes of that value, whatever data follows it.",
  ["inputs", "histories"], "every value of every kind (payloads up to a stated length), any encoder position and any following bytes",
  "The tests use a few values per kind, and are not part of the build here.",
  TS, [("varint, varintBig and the matching decoders", "encoder.ts, decoder.ts")], ["Encoder.bytes fed to Decoder"])
p("C19", "TypeScript encoders emit exactly the canonical wire format",
  "In the TypeScript package every encode call appends exactly the canonical bytes of its value, the same ones the Go and Rust implementations emit: the kind byte, then shortest-form varints (zig-zag for signed), big-endian float bits, 0/1 for booleans, uint32-encoded lengths and UTF-8 or raw payloads, and element kinds plus a uint32-encoded size for array and map headers.",
  ["inputs"], "every value of every kind (payloads up to a stated length)",
  "Interoperation rests on byte equality; the tests compare a handful of constants.",
  TS, [("Encoder methods", "encoder.ts"), ("kind numbering", "kind.ts")], ["Encoder.bytes"])
p("C20", "The TypeScript encoder grows its buffer without losing data",
  "In the TypeScript package an encoder accepts values of any size at any fill level, whether it started from the default buffer or from one given by the caller (of any length, zero included, or a view into a larger one): no encode call throws or drops bytes for lack of room, earlier bytes stay unchanged, and the result has exactly the bytes encoded.",
  ["inputs", "histories", "configurations"], "every initial buffer length and view offset up to stated sizes, every fill level, every encode call, payloads up to a stated length",
  "Growth faults need a fill level just below the capacity or a payload larger than twice the buffer; typed arrays drop out-of-range writes silently.",
  ["encoder.ts"], [("resize", "encoder.ts")], ["Encoder.bytes"], [{"name": "#pos, #buf", "meaning": "fill level and backing store", "where": "encoder.ts Encoder"}])
p("C21", "TypeScript decoders accept only complete values of the kind asked for",
  "In the TypeScript package a decode call succeeds only if the next bytes are a complete encoding of exactly the value it returns; truncated input, another kind, a varint longer than the type allows or with bits beyond its width, and a length larger than the remaining data all throw. A call that fails because the kind differs leaves the decoder where it was, so another kind can be tried.",
  ["inputs"], "every input up to a stated length, every decode call and expected kind",
  "Reading past a Uint8Array yields undefined rather than an exception, so missing data silently decodes as a value unless every path checks.",
  ["decoder.ts"], [("validateKind, varint, pop", "decoder.ts")], ["Decoder methods on arbitrary input"])
p("C22", "Generated Go messages survive an encode/decode round trip",
  "For every schema the Go generator accepts, the generated code compiles, and decoding what a message's encode method wrote gives an equal message: every scalar, string, bytes and enum field, lists, maps and nested messages (set or not), with following data untouched. A nil message encodes as nil and decodes to an unchanged message without error.",
  ["programs", "inputs"], "a family of schemas covering every field kind, cardinality and nesting form, and every value of their fields (lists and maps up to a stated size)",
  "The generators have no tests at all; a wrong method, kind or field order for one field kind shows only in schemas that use it.",
  ["v2/generator/golang/structs.go", "v2/generator/golang/templates/encode.templ", "v2/generator/golang/templates/decode.templ", "v2/generator/golang/templates/encodeMap.templ", "v2/generator/golang/templates/decodeMap.templ", "v2/generator/golang/templates/structs.templ", "generator/golang/structs.go"],
  [("lookup tables from proto kinds to methods and kinds", "v2/generator/golang/structs.go"), ("templates", "v2/generator/golang/templates")], ["Encode/Decode of generated types"])
p("C23", "Generated Go decoders never panic and report malformed input",
  "A generated Go decode method, given any bytes, returns normally: it reports an error if the input is truncated or a field has the wrong kind, and decoding into a nil message reports an error. When it succeeds, the values stored are the ones encoded by the bytes consumed.",
  ["programs", "inputs"], "a family of schemas covering every field kind, and every input up to a stated length",
  "The generators have no tests at all.",
  ["v2/generator/golang/templates/decode.templ", "v2/generator/golang/templates/decodeMap.templ"], [("error propagation in the templates", "v2/generator/golang/templates")], ["Decode of generated types"])
p("C24", "All generators agree on the wire form of every field kind",
  "For every protobuf field kind, in scalar fields, lists and map keys and values, the code generated for Go by both modules and the code generated for Rust use the same encode call, the matching decode call and the matching element kind, and write fields in the same order, so that a message encoded by one decodes in the other.",
  ["programs", "inputs"], "a family of schemas covering every field kind and cardinality, and every value of their fields",
  "The generators have no tests; agreement between languages is never exercised.",
  ["generator/golang/structs.go", "generator/rust/structs.go", "v2/generator/golang/structs.go", "v2/generator/rust/structs.go", "v2/generator/rust/templates/encode.templ", "v2/generator/rust/templates/decode.templ"], [("lookup tables", "structs.go of each generator")], ["bytes written by generated encode methods"])
p("C25", "Names derived from schema names are valid, stable identifiers",
  "For every legal protobuf name, the camel-case, snake-case and lower-first conversions never panic, keep every letter and digit in order (changing only case, and only adding or dropping separators), and give an exported Go identifier for names that start with a letter or with underscores followed by a letter. Names that need no conversion come back unchanged.",
  ["inputs"], "every legal protobuf name up to a stated length",
  "There are no tests of the naming helpers; a dropped character or wrong case needs a particular pattern of underscores, digits and capitals.",
  ["utils/utils.go", "v2/utils/utils.go"], [("CamelCase, SnakeCase, FirstLowerCase, LowercaseCamelCase", "utils/utils.go, v2/utils/utils.go")], ["utils functions"])
p("C26", "Generated TypeScript messages survive an encode/decode round trip",
  "For every schema the TypeScript generator accepts, the generated classes compile against the TypeScript package and decoding what a class's encode method wrote gives an equal object.",
  ["programs", "inputs"], "a family of schemas covering every field kind, and every value of their fields",
  "The generators have no tests at all.",
  ["generator/typescript/structs.go", "generator/typescript/templates/encode.templ", "generator/typescript/templates/decode.templ"], [("templates", "generator/typescript/templates")], ["encode/decode of generated classes"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
