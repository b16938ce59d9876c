"use strict";
// C01 TL numbers survive serialization and deserialization unchanged
exports.title = "TL numbers survive serialization and deserialization unchanged";
exports.assumptions = ["numbers passed as JavaScript numbers are integers in [-2^53, 2^53] or one of 0.5, NaN, Infinity, -Infinity", "NaN payload bits are not distinguished"];
function rangeOf(bits, signed) { return signed ? [-(2n ** BigInt(bits - 1)), 2n ** BigInt(bits - 1) - 1n] : [0n, 2n ** BigInt(bits) - 1n]; }
function byteOfValue(x, i) { return Number((x >> BigInt(8 * i)) & 0xFFn); }
function checkBytes(S, bytes, off, x, n, what, big = false) {
  for (let i = 0; i < n; i++) S.assert(bytes[off + (big ? n - 1 - i : i)] === byteOfValue(x, i), what + ": byte " + i + " is not the value's byte");
}
// specification of reading n bytes as an integer
function spec(bytes, off, n, signed, big = false) {
  let v = 0n;
  for (let i = n - 1; i >= 0; i--) v = (v << 8n) | BigInt(bytes[off + (big ? n - 1 - i : i)]);
  return signed && (bytes[off + (big ? 0 : n - 1)] >= 128) ? v - 2n ** BigInt(8 * n) : v;
}
const W = { 24: ["writeInt24", "readInt24"], 32: ["writeInt32", "readInt32"], 64: ["writeInt64", "readInt64"], 128: ["writeInt128", "readInt128"], 256: ["writeInt256", "readInt256"] };
function writerCase(bits, signed) {
  return { name: `write-${bits}-${signed ? "signed" : "unsigned"}`, bounds: `every ${bits <= 32 ? "integer in +-2^53" : "integer in +-2^" + (bits + 2)}, written after 0, 3 or 246..258 earlier bytes (buffer growth), followed by one more item`, run: async (S) => {
    const { TLWriter } = S.load("tl/1_tl_writer.ts"), { TLReader } = S.load("tl/1_tl_reader.ts"), { TLError } = S.load("0_errors.ts");
    const [lo, hi] = rangeOf(bits, signed);
    const pre = S.choose("pre", [0, 3, 246, 248, 252, 253, 254, 255, 256, 257]);
    const x = bits <= 32 ? S.int("x", -(2 ** 53), 2 ** 53) : S.big("x", -(2n ** BigInt(bits + 2)), 2n ** BigInt(bits + 2));
    const w = new TLWriter();
    const head = new Uint8Array(pre).fill(0x5A);
    w.write(head);
    const r = S.attempt(() => w[W[bits][0]](x, signed));
    const inRange = x >= lo && x <= hi;
    if (!r.ok) {
      S.assert(r.error instanceof TLError, "rejection is not the library's error");
      S.assert(!inRange, "a value within the range is rejected");
      S.cover("rejected");
      return;
    }
    S.assert(inRange, "a value outside the range is accepted");
    S.assert(w.length === pre + bits / 8, "the written width is wrong");
    w.writeInt32(0x01020304);
    const b = w.buffer;
    S.assert(b.length === pre + bits / 8 + 4, "the buffer length is wrong");
    for (let i = 0; i < pre; i++) S.assert(b[i] === 0x5A, "earlier bytes changed");
    checkBytes(S, b, pre, BigInt(x), bits / 8, "layout");
    const rd = new TLReader(b);
    rd.read(pre);
    S.assertEq(rd[W[bits][1]](signed), x, "the value read back differs");
    S.assertEq(rd.readInt32(), 0x01020304, "the reader is not at the next item");
    S.assert(rd.buffer.length === 0, "bytes are left over");
    S.note("bytes", b.slice(pre));
    S.cover("accepted");
  } };
}
function readerCase(bits, signed) {
  return { name: `read-${bits}-${signed ? "signed" : "unsigned"}`, bounds: `every ${bits}-bit pattern at every offset 0..9 of a view that itself starts at offset 0..3 of its buffer`, run: async (S) => {
    const { TLReader } = S.load("tl/1_tl_reader.ts");
    const n = bits / 8, off = S.choose("off", [0, 1, 4, 9]), base = S.choose("base", [0, 1, 3]);
    const all = S.bytes("b", base + off + n + 2);
    const view = all.subarray(base);
    const rd = new TLReader(view);
    rd.read(off);
    const v = rd[W[bits][1]](signed);
    S.assertEq(BigInt(v), spec(all, base + off, n, signed), "the value read is not the one the bytes encode");
    S.assert(rd.buffer.length === 2, "the reader did not advance by the type's width");
    S.assertEq(rd.buffer, all.subarray(base + off + n), "the reader is not at the next byte");
    S.note("v", v);
  } };
}
function intBytesCase(sizes, big, signed, asNumber) {
  return { name: `intToBytes-${big ? "big" : "little"}-${signed ? "signed" : "unsigned"}-${asNumber ? "number" : "bigint"}-${sizes[0]}`, bounds: `sizes ${sizes.join(", ")} bytes; every ${asNumber ? "number in +-2^53" : "integer up to four times the size's range"}`, weight: 3, run: async (S) => {
    const { intToBytes, intFromBytes } = S.load("utilities/0_int.ts"), { TLError } = S.load("0_errors.ts");
    const n = S.choose("n", sizes);
    const [lo, hi] = rangeOf(n * 8, signed);
    const x = asNumber ? S.int("x", -(2 ** 53), 2 ** 53) : S.big("x", -(2n ** BigInt(n * 8 + 2)), 2n ** BigInt(n * 8 + 2));
    const opts = { byteOrder: big ? "big" : "little", isSigned: signed };
    const r = S.attempt(() => intToBytes(x, n, opts));
    const inRange = x >= lo && x <= hi;
    if (!r.ok) { S.assert(r.error instanceof TLError, "rejection is not the library's error"); S.assert(!inRange, "a value within the range is rejected"); return; }
    S.assert(inRange, "a value outside the range is accepted");
    S.assert(r.value.length === n, "the width is wrong");
    checkBytes(S, r.value, 0, BigInt(x), n, "layout", big);
    S.assertEq(intFromBytes(r.value, opts), BigInt(x), "the value read back differs");
    S.note("bytes", r.value);
  } };
}
function intFromCase(sizes, big, signed) {
  return { name: `intFromBytes-${big ? "big" : "little"}-${signed ? "signed" : "unsigned"}-${sizes[0]}`, bounds: `sizes ${sizes.join(", ")} bytes, every content, views starting at offset 0 and 3`, weight: 3, run: async (S) => {
    const { intToBytes, intFromBytes } = S.load("utilities/0_int.ts");
    const n = S.choose("n", sizes), base = S.choose("base", [0, 3]);
    const all = S.bytes("b", n + base + 1);
    const b = all.subarray(base, base + n);
    const opts = { byteOrder: big ? "big" : "little", isSigned: signed };
    const v = intFromBytes(b, opts);
    S.assertEq(v, spec(all, base, n, signed, big), "the value is not the one the bytes encode");
    S.assertEq(intToBytes(v, n, opts), b, "re-encoding differs");
    S.note("v", v);
  } };
}
exports.cases = (tier) => {
  const cs = [];
  for (const bits of [24, 32, 64, 128, 256]) for (const signed of [true, false]) { cs.push(writerCase(bits, signed)); cs.push(readerCase(bits, signed)); }
  const small = [1, 2, 3, 4, 5, 6, 7, 8], large = tier === "quick" ? [9, 12, 15, 16, 17, 20, 24, 32] : [9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 31, 32, 33, 40, 64], huge = tier === "quick" ? [64, 256] : [128, 255, 256, 257];
  for (const big of [false, true]) for (const signed of [true, false]) {
    cs.push(intBytesCase(small, big, signed, true), intBytesCase(small, big, signed, false), intBytesCase(large, big, signed, false), intBytesCase(large, big, signed, true));
    cs.push(intFromCase(small, big, signed), intFromCase(large, big, signed));
    cs.push(intBytesCase(huge, big, signed, false), intFromCase(huge, big, signed));
  }
  cs.push({ name: "not-integers", bounds: "0.5, -0.5, 2^31+0.5, NaN, Infinity, -Infinity, to every integer writer; -1 to every unsigned one", run: async (S) => {
    const { TLWriter } = S.load("tl/1_tl_writer.ts"), { TLError } = S.load("0_errors.ts"), { intToBytes } = S.load("utilities/0_int.ts");
    const x = S.choose("x", [0.5, -0.5, 2147483648.5, NaN, Infinity, -Infinity]);
    const signed = S.choose("signed", [true, false]);
    const w = S.choose("w", ["writeInt24", "writeInt32"]);
    const r = S.attempt(() => new TLWriter()[w](x, signed));
    S.assert(!r.ok && r.error instanceof TLError, "a number that is not an integer is accepted");
    const n = S.choose("n", [1, 2, 3, 4, 8, 9]);
    const q = S.attempt(() => intToBytes(x, n, { isSigned: signed }));
    S.assert(!q.ok && q.error instanceof TLError, "a number that is not an integer is accepted by the byte conversion");
  } });
  cs.push({ name: "double", bounds: "every double bit pattern except that all NaNs count as one, at offsets 0, 3, 252 and 256", run: async (S) => {
    const { TLWriter } = S.load("tl/1_tl_writer.ts"), { TLReader } = S.load("tl/1_tl_reader.ts");
    const pre = S.choose("pre", [0, 3, 252, 256]);
    const x = S.f64("x");
    const w = new TLWriter(); w.write(new Uint8Array(pre)); w.writeDouble(x);
    S.assert(w.buffer.length === pre + 8, "a double is eight bytes");
    const r = new TLReader(w.buffer); r.read(pre);
    S.assertEq(r.readDouble(), x, "the double read back differs");
    S.assert(r.buffer.length === 0, "bytes are left over");
    S.note("b", w.buffer.slice(pre));
  } });
  cs.push({ name: "double-layout", bounds: "every eight bytes that are not a NaN, and the constants 1.5, -2, 0.1", run: async (S) => {
    const { TLWriter } = S.load("tl/1_tl_writer.ts"), { TLReader } = S.load("tl/1_tl_reader.ts");
    const b = S.bytes("b", 8);
    S.assume(!((b[7] & 0x7f) === 0x7f && (b[6] & 0xf0) === 0xf0));
    const r = new TLReader(b), v = r.readDouble();
    const w = new TLWriter(); w.writeDouble(v);
    S.assertEq(w.buffer, b, "re-encoding differs");
    const k = new TLWriter(); k.writeDouble(1.5); k.writeDouble(-2); k.writeDouble(0.1);
    S.assertEq(k.buffer, new Uint8Array([0, 0, 0, 0, 0, 0, 0xF8, 0x3F, 0, 0, 0, 0, 0, 0, 0, 0xC0, 0x9A, 0x99, 0x99, 0x99, 0x99, 0x99, 0xB9, 0x3F]), "doubles are not little-endian IEEE 754");
  } });
  cs.push({ name: "sequence", bounds: "every interleaving of three items out of int24, int32, int64, int128, double, each with any value", run: async (S) => {
    const { TLWriter } = S.load("tl/1_tl_writer.ts"), { TLReader } = S.load("tl/1_tl_reader.ts");
    const w = new TLWriter(), items = [];
    for (let i = 0; i < 3; i++) {
      const k = S.choose("k" + i, ["24", "32", "64", "128"]);
      const bits = Number(k), signed = S.choose("s" + i, [true, false]);
      const [lo, hi] = rangeOf(bits, signed);
      const x = bits <= 32 ? S.int("x" + i, lo, hi) : S.big("x" + i, lo, hi);
      w[W[bits][0]](x, signed); items.push([bits, signed, x]);
      if (i === 1) S.assert(w.buffer.length === w.length, "the buffer is longer than what was written");
    }
    const r = new TLReader(w.buffer);
    for (const [bits, signed, x] of items) S.assertEq(r[W[bits][1]](signed), x, "a value in a sequence differs");
    S.assert(r.buffer.length === 0, "bytes are left over");
  } });
  cs.push({ name: "random", bounds: "every random byte string of 1..9, 16, 32 bytes", run: async (S) => {
    const { getRandomInt, getRandomId } = S.load("utilities/0_int.ts");
    const n = S.choose("n", [1, 2, 3, 4, 8, 9, 16, 32]), signed = S.choose("signed", [true, false]);
    const v = getRandomInt(n, signed);
    const [lo, hi] = rangeOf(n * 8, signed);
    S.assert(typeof v === "bigint" && v >= lo && v <= hi, "a random integer is out of its range");
    const i = getRandomId(true), j = getRandomId();
    S.assert(typeof i === "number" && i >= -(2 ** 31) && i < 2 ** 31, "a random number identifier is out of range");
    S.assert(typeof j === "bigint" && j >= -(2n ** 63n) && j < 2n ** 63n, "a random identifier is out of range");
  } });
  return cs;
};
