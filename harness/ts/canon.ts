// C19: the bytes of every value are the canonical ones
import { Encoder, Kind } from "polyglot";
import { BIG, K, S, be32, be64, cat, of, payload, u32, varint, varintBig, zigzag, zigzagBig } from "./ref";

// what one call adds, after any earlier content
function adds(put: (e: Encoder) => unknown, want: Uint8Array) {
  const e = new Encoder();
  e.uint8Array(S.bytes("pre", 0, BIG));
  const before = S.clone(e.bytes);
  const n = before.length;
  S.check(put(e) === e, "the call returns the encoder");
  const b = e.bytes;
  S.checkBytes(b.subarray(n), want, "the bytes appended are the canonical ones");
  S.checkBytes(b.subarray(0, n), before, "earlier bytes are unchanged");
  S.reach("end");
}

export function h_c19_null() {
  adds((e) => e.null(), of(0));
}

export function h_c19_any() {
  adds((e) => e.any(), of(3));
}

export function h_c19_bool() {
  const v = S.bool("v");
  adds((e) => e.boolean(v), of(7, v ? 1 : 0));
}

export function h_c19_u8() {
  const v = S.u8("v");
  adds((e) => e.uint8(v), of(8, v));
}

export function h_c19_u16() {
  const v = S.u16("v");
  adds((e) => e.uint16(v), cat(of(9), varint(v)));
}

export function h_c19_u32() {
  const v = S.u32("v");
  adds((e) => e.uint32(v), cat(of(10), varint(v)));
}

export function h_c19_u64() {
  const v = S.u64("v");
  adds((e) => e.uint64(v), cat(of(11), varintBig(v)));
}

export function h_c19_i32() {
  const v = S.i32("v");
  adds((e) => e.int32(v), cat(of(12), varint(zigzag(v))));
}

export function h_c19_i64() {
  const v = S.i64("v");
  adds((e) => e.int64(v), cat(of(13), varintBig(zigzagBig(v))));
}

export function h_c19_f32() {
  const v = S.f32("v");
  adds((e) => e.float32(v), cat(of(14), be32(S.bits32(v))));
}

export function h_c19_f64() {
  const v = S.f64("v");
  adds((e) => e.float64(v), cat(of(15), be64(S.bits64(v))));
}

export function h_c19_array() {
  const v = S.u32("v");
  const k = S.choose("k", 16);
  adds((e) => e.array(v, k as Kind), cat(of(1, k), u32(v)));
}

export function h_c19_map() {
  const v = S.u32("v");
  const i = S.choose("i", 16);
  adds((e) => e.map(v, i as Kind, (15 - i) as Kind), cat(of(2, i, 15 - i), u32(v)));
}

export function h_c19_bytes() {
  const v = S.bytes("v", 0, BIG);
  adds((e) => e.uint8Array(v), payload(of(4), v));
}

export function h_c19_string() {
  const v = S.str("v", 0, BIG);
  adds((e) => e.string(v), payload(of(5), S.utf8(v)));
}

export function h_c19_error() {
  const v = S.str("v", 0, BIG);
  adds((e) => e.error(new Error(v)), payload(of(6, 5), S.utf8(v)));
}

// an error of another class, and one without a message
export function h_c19_error_kinds() {
  const v = S.str("v", 0, BIG);
  const i = S.choose("i", 3);
  const err = i === 0 ? new TypeError(v) : i === 1 ? new RangeError(v) : new Error();
  adds((e) => e.error(err), payload(of(6, 5), i === 2 ? of() : S.utf8(v)));
}

// the numbers of the kinds are part of the format
export function h_c19_kinds() {
  const want: [Kind, number][] = [
    [Kind.Null, K.Null], [Kind.Array, K.Array], [Kind.Map, K.Map], [Kind.Any, K.Any], [Kind.Uint8Array, K.Bytes], [Kind.String, K.String],
    [Kind.Error, K.Error], [Kind.Boolean, K.Bool], [Kind.Uint8, K.U8], [Kind.Uint16, K.U16], [Kind.Uint32, K.U32], [Kind.Uint64, K.U64],
    [Kind.Int32, K.I32], [Kind.Int64, K.I64], [Kind.Float32, K.F32], [Kind.Float64, K.F64],
  ];
  const v = S.u32("v");
  for (const [k, n] of want) {
    const e = new Encoder();
    e.array(v, k);
    S.checkBytes(e.bytes, cat(of(1, n), u32(v)), "kind numbers");
  }
  S.reach("end");
}
