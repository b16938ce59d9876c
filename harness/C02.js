"use strict";
// C02 TL byte strings and text are framed exactly and recovered exactly
exports.title = "TL byte strings and text are framed exactly and recovered exactly";
exports.assumptions = ["text is well-formed UTF-16 (lone surrogates have no UTF-8 form)"];
function load(S) { return { ...S.load("tl/1_tl_writer.ts"), ...S.load("tl/1_tl_reader.ts"), ...S.load("0_errors.ts") }; }
exports.cases = (tier) => {
  const cs = [];
  for (const [lo, hi] of [[0, 260], [240, 1023], [1000, 66000], [65000, 2 ** 24 + 5]]) cs.push({ name: `bytes-${lo}-${hi}`, bounds: `every length in ${lo}..${hi} and every content, after 0, 1, 2, 3, 251 or 255 earlier bytes, followed by another item`, weight: 2, run: async (S) => {
    const { TLWriter, TLReader, TLError } = load(S);
    const pre = S.choose("pre", [0, 1, 2, 3, 251, 255]);
    const b = S.blob("b", lo, hi);
    const n = b.length;
    const w = new TLWriter(); w.write(new Uint8Array(pre).fill(9));
    const r = S.attempt(() => w.writeBytes(b));
    if (!r.ok) { S.assert(r.error instanceof TLError, "rejection is not the library's error"); S.assert(n >= 2 ** 24, "an encodable length is rejected"); S.cover("rejected"); return; }
    S.assert(n < 2 ** 24, "a byte string too long for the format is accepted");
    w.writeInt32(0x11223344);
    const out = w.buffer;
    const h = n < 254 ? 1 : 4;
    const rem = (h + n) & 3;
    const pad = rem === 0 ? 0 : 4 - rem;
    S.assert(out.length === pre + h + n + pad + 4, "the total length is wrong");
    if (h === 1) S.assert(out[pre] === n, "the one-byte length is wrong");
    else { S.assert(out[pre] === 254, "the long form is not marked by 254"); S.assert(out[pre + 1] + out[pre + 2] * 256 + out[pre + 3] * 65536 === n, "the three-byte length is wrong"); }
    const i = S.int("i", 0, hi);
    if (i < n) S.assert(out[pre + h + i] === b[i], "a content byte is misplaced or altered");
    for (let k = 0; k < 3; k++) if (k < pad) S.assert(out[pre + h + n + k] === 0, "padding is not zero");
    for (let k = 0; k < 3 && k < pre; k++) S.assert(out[k] === 9, "earlier bytes changed");
    const rd = new TLReader(out); rd.read(pre);
    const back = rd.readBytes();
    S.assert(back.length === n, "the length read back differs");
    if (i < n) S.assert(back[i] === b[i], "the content read back differs");
    S.assertEq(rd.readInt32(), 0x11223344, "the reader is not at the next item");
    S.assert(rd.buffer.length === 0, "bytes are left over");
    S.cover("framed");
  } });
  cs.push({ name: "bytes-exact", bounds: "every content of every length 0..20 and 248..260, exact layout", run: async (S) => {
    const { TLWriter, TLReader } = load(S);
    const lens = []; for (let i = 0; i <= 20; i++) lens.push(i); for (let i = 248; i <= 260; i++) lens.push(i);
    const n = S.choose("n", lens);
    const b = S.bytes("b", n);
    const w = new TLWriter(); w.writeBytes(b);
    const head = n < 254 ? [n] : [254, n & 255, n >> 8, 0];
    const total = Math.ceil((head.length + n) / 4) * 4;
    const want = new Uint8Array(total); want.set(head, 0); want.set(b, head.length);
    S.assertEq(w.buffer, want, "the layout is not the prescribed one");
    const copy = w.buffer.slice();
    const rd = new TLReader(w.buffer), back = rd.readBytes();
    S.assertEq(back, b, "the content read back differs");
    S.assert(rd.buffer.length === 0, "padding is not consumed");
    if (n > 0) { back[0] = (back[0] + 1) & 255; S.assertEq(w.buffer, copy, "what was read aliases the input"); }
    S.note("w", copy.slice(0, 8));
  } });
  cs.push({ name: "sequence", bounds: "three byte strings or texts of every length 0..5 each, every content", run: async (S) => {
    const { TLWriter, TLReader } = load(S);
    const w = new TLWriter(), items = [];
    for (let k = 0; k < 3; k++) { const n = S.choose("n" + k, [0, 1, 2, 3, 4, 5]); const t = S.choose("t" + k, [false, true]); const v = t ? S.str("s" + k, n, 1, 127) : S.bytes("b" + k, n); items.push([t, v]); t ? w.writeString(v) : w.writeBytes(v); }
    S.assert(w.length % 4 === 0, "items are not aligned to four bytes");
    const r = new TLReader(w.buffer);
    for (const [t, v] of items) S.assertEq(t ? r.readString() : r.readBytes(), v, "an item of a sequence differs");
    S.assert(r.buffer.length === 0, "bytes are left over");
  } });
  for (const n of tier === "quick" ? [0, 1, 2, 3] : [0, 1, 2, 3, 4]) cs.push({ name: "text-" + n, bounds: `every well-formed text of ${n} UTF-16 units`, weight: n, run: async (S) => {
    const { TLWriter, TLReader } = load(S);
    const s = S.str("s", n);
    for (let i = 0; i < n; i++) {
      const c = s.charCodeAt(i);
      if (c >= 0xD800 && c <= 0xDBFF) { S.assume(i + 1 < n); if (i + 1 < n) { const d = s.charCodeAt(i + 1); S.assume(d >= 0xDC00 && d <= 0xDFFF); i++; } }
      else S.assume(!(c >= 0xDC00 && c <= 0xDFFF));
    }
    const w = new TLWriter(); w.writeString(s); w.writeInt32(7);
    const r = new TLReader(w.buffer);
    S.assertEq(r.readString(), s, "the text read back differs");
    S.assertEq(r.readInt32(), 7, "the reader is not at the next item");
    S.note("w", w.buffer);
  } });
  cs.push({ name: "text-long", bounds: "texts of 83..86 and 126..128 equal characters of 1, 2, 3 and 4 UTF-8 bytes (the prefix switch in bytes, not characters), one of them arbitrary ASCII", run: async (S) => {
    const { TLWriter, TLReader } = load(S);
    const ch = S.choose("ch", ["a", "\u00e9", "\u20ac", "\ud83d\ude00"]);
    const k = S.choose("k", [62, 63, 64, 83, 84, 85, 86, 125, 126, 127, 128, 252, 253, 254, 255]);
    const s = ch.repeat(k) + S.str("tail", 1, 1, 127);
    const w = new TLWriter(); w.writeString(s);
    const nb = k * { a: 1, "\u00e9": 2, "\u20ac": 3, "\ud83d\ude00": 4 }[ch] + 1;
    const h = nb < 254 ? 1 : 4;
    S.assert(w.buffer.length === Math.ceil((h + nb) / 4) * 4, "the length counts something other than bytes");
    const r = new TLReader(w.buffer);
    S.assertEq(r.readString(), s, "the text read back differs");
    S.assert(r.buffer.length === 0, "bytes are left over");
  } });
  return cs;
};
