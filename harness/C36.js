"use strict";
// C36 Text encodings used in identifiers are reversible
exports.title = "Text encodings used in identifiers are reversible";
exports.cases = (tier) => {
  const cs = [];
  const N = tier === "quick" ? 9 : 12;
  for (let n = 0; n <= N; n++) cs.push({ name: "rle-" + n, bounds: `every byte string of length ${n}`, weight: n, run: async (S) => {
    const { rleEncode, rleDecode } = S.load("utilities/0_rle.ts");
    const b = S.bytes("b", n);
    const copy = b.slice();
    const e = rleEncode(b);
    S.assertEq(b, copy, "the input was modified");
    // the reference form: a run of k zero bytes (at most 255 each) becomes 0, k
    const want = [];
    for (let i = 0; i < n;) { if (b[i] !== 0) { want.push(b[i]); i++; } else { let k = 0; while (i < n && b[i] === 0) { k++; i++; } want.push(0, k); } }
    S.assertEq(e, new Uint8Array(want), "the encoding is not the prescribed one");
    S.assertEq(rleDecode(e), b, "decoding does not restore the bytes");
    S.note("e", e);
  } });
  cs.push({ name: "rle-long-runs", bounds: "runs of 1, 2, 127, 128, 253..258, 509..512, 600, 765, 766 zero bytes (and pairs of runs) between arbitrary non-zero bytes", run: async (S) => {
    const { rleEncode, rleDecode } = S.load("utilities/0_rle.ts");
    const runs = [0, 1, 2, 127, 128, 253, 254, 255, 256, 257, 258, 509, 510, 511, 512, 600, 765, 766];
    const k = S.choose("k", runs), k2 = S.choose("k2", [0, 1, 255, 256, 300]);
    const x = S.bytes("x", 3);
    for (let i = 0; i < 3; i++) S.assume(x[i] !== 0);
    const b = new Uint8Array(k + k2 + 3);
    b[0] = x[0]; b[k + 1] = x[1]; b[k + k2 + 2] = x[2];
    const enc = rleEncode(b);
    S.assertEq(rleDecode(enc), b, "decoding does not restore a long run");
    const half = b.subarray(1, k + 1);
    S.assertEq(rleDecode(rleEncode(half)), half, "decoding does not restore only zeros");
    S.note("e", enc);
  } });
  const M = tier === "quick" ? 20 : 48;
  for (let n = 0; n <= M; n++) cs.push({ name: "base64-" + n, bounds: `every byte string of length ${n}`, run: async (S) => {
    const { base64EncodeUrlSafe, base64DecodeUrlSafe } = S.load("utilities/1_base64.ts");
    const all = S.bytes("b", n + 2);
    const b = all.subarray(1, n + 1);
    const s = base64EncodeUrlSafe(b);
    S.assert(s.length === Math.ceil(n * 4 / 3), "the text has the wrong length");
    for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); S.assert((c >= 48 && c <= 57) || (c >= 65 && c <= 90) || (c >= 97 && c <= 122) || c === 45 || c === 95, "the text is not URL-safe"); }
    S.assertEq(base64DecodeUrlSafe(s), b, "decoding does not restore the bytes");
    S.assertEq(base64DecodeUrlSafe(s + "=".repeat((4 - s.length % 4) % 4)), b, "decoding the padded form does not restore the bytes");
    const copy = new Uint8Array(n); copy.set(b);
    S.assertEq(base64EncodeUrlSafe(copy.buffer), s, "an array buffer encodes differently from its bytes");
    S.note("s", s);
  } });
  cs.push({ name: "base64-reference", bounds: "every three bytes, against RFC 4648 section 5", run: async (S) => {
    const { base64EncodeUrlSafe } = S.load("utilities/1_base64.ts");
    const b = S.bytes("b", 3);
    const s = base64EncodeUrlSafe(b);
    const v = b[0] * 65536 + b[1] * 256 + b[2];
    const A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    const code = (d) => d < 26 ? 65 + d : d < 52 ? 97 + d - 26 : d < 62 ? 48 + d - 52 : d === 62 ? 45 : 95;
    S.assert(A.charCodeAt(62) === 45, "table");
    for (let i = 0; i < 4; i++) S.assert(s.charCodeAt(i) === code((v >> (18 - 6 * i)) & 63), "the text is not RFC 4648 base64url");
  } });
  cs.push({ name: "base64-text", bounds: "every ASCII text of length 0..5", run: async (S) => {
    const { base64EncodeUrlSafe, base64DecodeUrlSafe } = S.load("utilities/1_base64.ts");
    const n = S.choose("n", [0, 1, 2, 3, 4, 5]);
    const t = S.str("t", n, 0, 127);
    const back = base64DecodeUrlSafe(base64EncodeUrlSafe(t));
    S.assert(back.length === n, "length");
    for (let i = 0; i < n; i++) S.assert(back[i] === t.charCodeAt(i), "decoding does not restore the text");
  } });
  return cs;
};
