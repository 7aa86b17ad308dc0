// C20: there is always room
import { Encoder, Kind } from "polyglot";
import { BIG, S, be32, be64, cat, of, payload, u32, varint, varintBig, zigzag, zigzagBig } from "./ref";

const LIM = 1 << 20;

function room(put: (e: Encoder) => unknown, want: Uint8Array) {
  const how = S.choose("how", 3);
  let e: Encoder;
  let all = of();
  let from = 0;
  let to = 0;
  if (how === 0) {
    e = new Encoder();
  } else {
    all = S.bytes("all", 0, LIM);
    to = all.length;
    if (how === 2) {
      from = S.size("from", 0, LIM);
      to = S.size("to", 0, LIM);
      S.assume(from <= to && to <= all.length);
    }
    e = new Encoder(how === 1 ? all : all.subarray(from, to));
  }
  const around = S.clone(all);
  const pre = S.bytes("pre", 0, LIM);
  const fill = S.choose("fill", 2);
  if (fill === 1) e.uint8Array(pre);
  put(e);
  S.checkBytes(e.bytes, cat(fill === 1 ? payload(of(4), pre) : of(), want), "exactly what was encoded");
  S.checkBytes(all.subarray(0, from), around.subarray(0, from), "the caller's bytes before the view are untouched");
  S.checkBytes(all.subarray(to), around.subarray(to), "the caller's bytes after the view are untouched");
  S.reach("end");
}

export function h_c20_null() {
  room((e) => e.null(), of(0));
}

export function h_c20_any() {
  room((e) => e.any(), of(3));
}

export function h_c20_bool() {
  const v = S.bool("v");
  room((e) => e.boolean(v), of(7, v ? 1 : 0));
}

export function h_c20_u8() {
  const v = S.u8("v");
  room((e) => e.uint8(v), of(8, v));
}

export function h_c20_u16() {
  const v = S.u16("v");
  room((e) => e.uint16(v), cat(of(9), varint(v)));
}

export function h_c20_u32() {
  const v = S.u32("v");
  room((e) => e.uint32(v), cat(of(10), varint(v)));
}

export function h_c20_u64() {
  const v = S.u64("v");
  room((e) => e.uint64(v), cat(of(11), varintBig(v)));
}

export function h_c20_i32() {
  const v = S.i32("v");
  room((e) => e.int32(v), cat(of(12), varint(zigzag(v))));
}

export function h_c20_i64() {
  const v = S.i64("v");
  room((e) => e.int64(v), cat(of(13), varintBig(zigzagBig(v))));
}

export function h_c20_f32() {
  const v = S.f32("v");
  room((e) => e.float32(v), cat(of(14), be32(S.bits32(v))));
}

export function h_c20_f64() {
  const v = S.f64("v");
  room((e) => e.float64(v), cat(of(15), be64(S.bits64(v))));
}

export function h_c20_array() {
  const v = S.u32("v");
  room((e) => e.array(v, Kind.String), cat(of(1, 5), u32(v)));
}

export function h_c20_map() {
  const v = S.u32("v");
  room((e) => e.map(v, Kind.String, Kind.Uint8), cat(of(2, 5, 8), u32(v)));
}

export function h_c20_bytes() {
  const v = S.bytes("v", 0, BIG);
  room((e) => e.uint8Array(v), payload(of(4), v));
}

export function h_c20_string() {
  const v = S.str("v", 0, BIG);
  room((e) => e.string(v), payload(of(5), S.utf8(v)));
}

export function h_c20_error() {
  const v = S.str("v", 0, BIG);
  room((e) => e.error(new Error(v)), payload(of(6, 5), S.utf8(v)));
}

// reading the result does not end the encoder's use
export function h_c20_read_between() {
  const e = new Encoder();
  const a = S.bytes("a", 0, LIM);
  const v = S.u32("v");
  e.uint8Array(a);
  const first = S.clone(e.bytes);
  S.checkBytes(first, payload(of(4), a), "the first value");
  e.uint32(v);
  e.string(S.str("s", 0, LIM));
  S.checkBytes(e.bytes.subarray(0, first.length), first, "the first value is still there");
  S.reach("end");
}
