// C18: what is encoded decodes to the same value and to nothing more
import { Decoder, Encoder, Kind } from "polyglot";
import { BIG, S, cat } from "./ref";

function trip(put: (e: Encoder) => unknown, take: (d: Decoder) => void) {
  const e = new Encoder();
  const pre = S.bytes("pre", 0, BIG);
  e.uint8Array(pre);
  put(e);
  const tail = S.bytes("tail", 0, BIG);
  const d = new Decoder(cat(e.bytes, tail));
  S.checkBytes(d.uint8Array(), pre, "the value before decodes unchanged");
  take(d);
  S.check(d.length === tail.length, "decoding consumes exactly the bytes of the value");
  S.reach("end");
}

export function h_c18_null() {
  trip((e) => e.null(), (d) => S.check(d.null() === true, "null decodes as null"));
}

export function h_c18_any() {
  trip((e) => e.any(), (d) => S.check(d.any() === true, "any decodes as any"));
}

export function h_c18_bool() {
  const v = S.bool("v");
  trip((e) => e.boolean(v), (d) => S.check(d.boolean() === v, "the same boolean"));
}

export function h_c18_u8() {
  const v = S.u8("v");
  trip((e) => e.uint8(v), (d) => S.check(d.uint8() === v, "the same uint8"));
}

export function h_c18_u16() {
  const v = S.u16("v");
  trip((e) => e.uint16(v), (d) => S.check(d.uint16() === v, "the same uint16"));
}

export function h_c18_u32() {
  const v = S.u32("v");
  trip((e) => e.uint32(v), (d) => S.check(d.uint32() === v, "the same uint32"));
}

export function h_c18_i32() {
  const v = S.i32("v");
  trip((e) => e.int32(v), (d) => S.check(d.int32() === v, "the same int32"));
}

export function h_c18_u64() {
  const v = S.u64("v");
  trip((e) => e.uint64(v), (d) => S.check(d.uint64() === v, "the same uint64"));
}

export function h_c18_i64() {
  const v = S.i64("v");
  trip((e) => e.int64(v), (d) => S.check(d.int64() === v, "the same int64"));
}

export function h_c18_f32() {
  const v = S.f32("v");
  trip((e) => e.float32(v), (d) => S.check(S.same(d.float32(), v), "the same float32"));
}

export function h_c18_f32_rounded() {
  const v = S.f64("v");
  trip((e) => e.float32(v), (d) => S.check(S.same(d.float32(), Math.fround(v)), "the nearest float32"));
}

export function h_c18_f64() {
  const v = S.f64("v");
  trip((e) => e.float64(v), (d) => S.check(S.same(d.float64(), v), "the same float64"));
}

export function h_c18_array() {
  const v = S.u32("v");
  const k = S.choose("k", 16) as Kind;
  trip((e) => e.array(v, k), (d) => S.check(d.array(k) === v, "the same array size"));
}

export function h_c18_map() {
  const v = S.u32("v");
  const i = S.choose("i", 16);
  const k = i as Kind;
  const l = (15 - i) as Kind;
  trip((e) => e.map(v, k, l), (d) => S.check(d.map(k, l) === v, "the same map size"));
}

export function h_c18_bytes() {
  const v = S.bytes("v", 0, BIG);
  trip((e) => e.uint8Array(v), (d) => S.checkBytes(d.uint8Array(), v, "the same bytes"));
}

// a value given as a part of a larger buffer
export function h_c18_bytes_view() {
  const all = S.bytes("all", 0, BIG);
  const from = S.size("from", 0, BIG);
  const n = S.size("n", 0, BIG);
  S.assume(from + n <= all.length);
  const v = all.subarray(from, from + n);
  trip((e) => e.uint8Array(v), (d) => S.checkBytes(d.uint8Array(), v, "the same bytes"));
}

export function h_c18_string() {
  const v = S.str("v", 0, BIG);
  trip((e) => e.string(v), (d) => S.checkStr(d.string(), v, "the same string"));
}

export function h_c18_error() {
  const v = S.str("v", 0, BIG);
  trip((e) => e.error(new Error(v)), (d) => {
    const r = d.error();
    S.check(r instanceof Error, "an Error");
    S.checkStr(r.message, v, "the same message");
  });
}

// the decoded value stays what it is when the decoder's buffer is reused
export function h_c18_bytes_own() {
  const v = S.bytes("v", 0, BIG);
  const e = new Encoder();
  e.uint8Array(v);
  const buf = S.clone(e.bytes);
  const r = new Decoder(buf).uint8Array();
  buf.fill(0xa5);
  S.checkBytes(r, v, "a decoded byte array is a copy");
  S.reach("end");
}

// two values after each other, each decoded with its own call
const PUT: ((e: Encoder, n: string) => (d: Decoder) => void)[] = [
  (e, n) => {
    const v = S.u16(n);
    e.uint16(v);
    return (d) => S.check(d.uint16() === v, "the same uint16");
  },
  (e, n) => {
    const v = S.i64(n);
    e.int64(v);
    return (d) => S.check(d.int64() === v, "the same int64");
  },
  (e, n) => {
    const v = S.str(n, 0, BIG);
    e.string(v);
    return (d) => S.checkStr(d.string(), v, "the same string");
  },
  (e, n) => {
    const v = S.bool(n);
    e.boolean(v);
    return (d) => S.check(d.boolean() === v, "the same boolean");
  },
  (e) => {
    e.null();
    return (d) => S.check(d.null() === true, "null");
  },
  (e, n) => {
    const v = S.f64(n);
    e.float64(v);
    return (d) => S.check(S.same(d.float64(), v), "the same float64");
  },
  (e, n) => {
    const v = S.i32(n);
    e.int32(v);
    return (d) => S.check(d.int32() === v, "the same int32");
  },
  (e, n) => {
    const v = S.str(n, 0, BIG);
    e.error(new Error(v));
    return (d) => S.checkStr(d.error().message, v, "the same error message");
  },
];

export function h_c18_pair() {
  const e = new Encoder();
  const i = S.choose("i", 8);
  const a = PUT[i](e, "a");
  const b = PUT[(i + 1) % 8](e, "b");
  const d = new Decoder(e.bytes);
  a(d);
  b(d);
  S.check(d.length === 0, "nothing is left");
  S.reach("end");
}
