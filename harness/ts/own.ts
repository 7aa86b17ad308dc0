// C27: encoders and decoders keep to themselves
import { Decoder, Encoder, Kind } from "polyglot";
import { BIG, S, be32, be64, cat, of, payload, u32, varint, varintBig, zigzag, zigzagBig } from "./ref";

// a value: how it is encoded, what that gives, and how it is read back
interface Val {
  put: (e: Encoder) => unknown;
  wire: Uint8Array;
  take: (d: Decoder) => void;
}

const VALS: Record<string, (n: string) => Val> = {
  bool: (n) => {
    const v = S.bool(n);
    return { put: (e) => e.boolean(v), wire: of(7, v ? 1 : 0), take: (d) => S.check(d.boolean() === v, "the same boolean") };
  },
  u8: (n) => {
    const v = S.u8(n);
    return { put: (e) => e.uint8(v), wire: of(8, v), take: (d) => S.check(d.uint8() === v, "the same uint8") };
  },
  u16: (n) => {
    const v = S.u16(n);
    return { put: (e) => e.uint16(v), wire: cat(of(9), varint(v)), take: (d) => S.check(d.uint16() === v, "the same uint16") };
  },
  u32: (n) => {
    const v = S.u32(n);
    return { put: (e) => e.uint32(v), wire: u32(v), take: (d) => S.check(d.uint32() === v, "the same uint32") };
  },
  i32: (n) => {
    const v = S.i32(n);
    return { put: (e) => e.int32(v), wire: cat(of(12), varint(zigzag(v))), take: (d) => S.check(d.int32() === v, "the same int32") };
  },
  u64: (n) => {
    const v = S.u64(n);
    return { put: (e) => e.uint64(v), wire: cat(of(11), varintBig(v)), take: (d) => S.check(d.uint64() === v, "the same uint64") };
  },
  i64: (n) => {
    const v = S.i64(n);
    return { put: (e) => e.int64(v), wire: cat(of(13), varintBig(zigzagBig(v))), take: (d) => S.check(d.int64() === v, "the same int64") };
  },
  // short ones, beside any other
  s64: (n) => {
    const v = S.i64(n);
    S.assume(v >= -64n && v < 64n);
    return { put: (e) => e.int64(v), wire: of(13, Number(zigzagBig(v))), take: (d) => S.check(d.int64() === v, "the same int64") };
  },
  f32: (n) => {
    const v = S.f32(n);
    S.assume(v === v);
    return { put: (e) => e.float32(v), wire: cat(of(14), be32(S.bits32(v))), take: (d) => S.check(S.same(d.float32(), v), "the same float32") };
  },
  f64: (n) => {
    const v = S.f64(n);
    S.assume(v === v);
    return { put: (e) => e.float64(v), wire: cat(of(15), be64(S.bits64(v))), take: (d) => S.check(S.same(d.float64(), v), "the same float64") };
  },
  array: (n) => {
    const v = S.u32(n);
    return { put: (e) => e.array(v, Kind.Int32), wire: cat(of(1, 12), u32(v)), take: (d) => S.check(d.array(Kind.Int32) === v, "the same size") };
  },
  map: (n) => {
    const v = S.u32(n);
    return {
      put: (e) => e.map(v, Kind.String, Kind.Uint8),
      wire: cat(of(2, 5, 8), u32(v)),
      take: (d) => S.check(d.map(Kind.String, Kind.Uint8) === v, "the same size"),
    };
  },
  bytes: (n) => {
    const v = S.bytes(n, 0, BIG);
    return { put: (e) => e.uint8Array(v), wire: payload(of(4), S.clone(v)), take: (d) => S.checkBytes(d.uint8Array(), v, "the same bytes") };
  },
  string: (n) => {
    const v = S.str(n, 0, BIG);
    return { put: (e) => e.string(v), wire: payload(of(5), S.utf8(v)), take: (d) => S.checkStr(d.string(), v, "the same string") };
  },
  error: (n) => {
    const v = S.str(n, 0, BIG);
    return {
      put: (e) => e.error(new Error(v)),
      wire: payload(of(6, 5), S.utf8(v)),
      take: (d) => S.checkStr(d.error().message, v, "the same message"),
    };
  },
};

// two encoders used in turns; what either wrote stays what it is, also in a view
// obtained earlier
function encoders(kind: string, second = kind) {
  const v = VALS[kind]("v");
  const w = VALS[second]("w");
  const a = new Encoder();
  a.uint8(77);
  const first = a.bytes;
  const pre = S.bytes("pre", 0, BIG);
  a.uint8Array(pre);
  const held = a.bytes;
  const b = new Encoder();
  v.put(b);
  w.put(a);
  const head = cat(of(8, 77), payload(of(4), pre));
  S.checkBytes(first, of(8, 77), "bytes obtained before the buffer grew stay as they were");
  S.checkBytes(held, head, "bytes obtained before stay as they were");
  S.checkBytes(b.bytes, v.wire, "the second encoder has its own bytes");
  S.checkBytes(a.bytes, cat(head, w.wire), "the first encoder has its own bytes");
  S.reach("end");
}

// two decoders used in turns, over inputs they leave alone
function decoders(kind: string, second = kind) {
  const v = VALS[kind]("v");
  const w = VALS[second]("w");
  const one = cat(of(7, 1), v.wire);
  const two = cat(w.wire, of(8, 0));
  const keep = [S.clone(one), S.clone(two)];
  const a = new Decoder(one);
  const b = new Decoder(two);
  S.check(a.boolean() === true, "a boolean first");
  w.take(b);
  v.take(a);
  S.check(a.length === 0, "the first decoder is at the end of its input");
  S.check(b.length === 2, "the second decoder is behind its value");
  S.check(b.uint8() === 0, "and reads what follows");
  S.checkBytes(one, keep[0], "the first input is unchanged");
  S.checkBytes(two, keep[1], "the second input is unchanged");
  S.reach("end");
}

export const h_c27_enc_bool = () => encoders("bool");
export const h_c27_enc_u8 = () => encoders("u8");
export const h_c27_enc_u16 = () => encoders("u16");
export const h_c27_enc_u32 = () => encoders("u32");
export const h_c27_enc_i32 = () => encoders("i32");
export const h_c27_enc_u64 = () => encoders("u64", "s64");
export const h_c27_enc_i64 = () => encoders("i64", "s64");
export const h_c27_enc_f32 = () => encoders("f32");
export const h_c27_enc_f64 = () => encoders("f64");
export const h_c27_enc_array = () => encoders("array");
export const h_c27_enc_map = () => encoders("map");
export const h_c27_enc_bytes = () => encoders("bytes");
export const h_c27_enc_string = () => encoders("string");
export const h_c27_enc_error = () => encoders("error");
export const h_c27_dec_bool = () => decoders("bool");
export const h_c27_dec_u8 = () => decoders("u8");
export const h_c27_dec_u16 = () => decoders("u16");
export const h_c27_dec_u32 = () => decoders("u32");
export const h_c27_dec_i32 = () => decoders("i32");
export const h_c27_dec_u64 = () => decoders("u64", "s64");
export const h_c27_dec_i64 = () => decoders("i64", "s64");
export const h_c27_dec_f32 = () => decoders("f32");
export const h_c27_dec_f64 = () => decoders("f64");
export const h_c27_dec_array = () => decoders("array");
export const h_c27_dec_map = () => decoders("map");
export const h_c27_dec_bytes = () => decoders("bytes");
export const h_c27_dec_string = () => decoders("string");
export const h_c27_dec_error = () => decoders("error");

// a byte array is copied on the way in: a part of a larger buffer, which the caller
// changes afterwards
export function h_c27_own_in() {
  const all = S.bytes("all", 0, BIG);
  const from = S.size("from", 0, BIG);
  const n = S.size("n", 0, BIG);
  S.assume(from + n <= all.length);
  const before = S.clone(all);
  const e = new Encoder();
  e.uint8Array(all.subarray(from, from + n));
  S.checkBytes(all, before, "encoding leaves the caller's buffer alone");
  all.fill(0xa5);
  S.checkBytes(e.bytes, payload(of(4), before.subarray(from, from + n)), "an encoded byte array is a copy");
  S.reach("end");
}

// and on the way out, in both directions, also when it was read from a part of a
// larger buffer
export function h_c27_own_out() {
  const pre = S.bytes("pre", 0, BIG);
  const v = S.bytes("v", 0, BIG);
  const enc = payload(of(4), v);
  const all = cat(pre, cat(enc, of(1, 2)));
  const before = S.clone(all);
  const r = new Decoder(all.subarray(pre.length, pre.length + enc.length)).uint8Array();
  const which = S.choose("which", 2);
  if (which === 0) {
    r.fill(0xa5);
    S.checkBytes(all, before, "changing a decoded byte array leaves the input alone");
  } else {
    all.fill(0xa5);
    S.checkBytes(r, v, "changing the input leaves a decoded byte array alone");
  }
  S.reach("end");
}

// two byte arrays from one input are not related either
export function h_c27_own_two() {
  const v = S.bytes("v", 0, BIG);
  const w = S.bytes("w", 0, BIG);
  const d = new Decoder(cat(payload(of(4), v), payload(of(4), w)));
  const r = d.uint8Array();
  r.fill(0xa5);
  const s = d.uint8Array();
  S.checkBytes(s, w, "changing a decoded byte array does not change the next one");
  s.fill(0x5a);
  const t = S.clone(r);
  t.fill(0xa5);
  S.checkBytes(r, t, "nor the other way round");
  S.reach("end");
}

// a buffer given to one encoder is not another one's
export function h_c27_buffer_given() {
  const all = S.bytes("all", 0, 1 << 20);
  const e = new Encoder(all);
  const v = S.bytes("v", 0, 1 << 20);
  const grow = S.choose("grow", 2);
  if (grow === 1) e.uint8Array(v);
  const before = S.clone(all);
  const other = new Encoder();
  other.uint8Array(v);
  S.checkBytes(all, before, "another encoder does not write into a buffer given to one");
  e.null();
  S.checkBytes(other.bytes, payload(of(4), v), "nor the other way round");
  S.reach("end");
}
