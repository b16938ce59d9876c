"use strict";
// C08 Stream encryption is independent of how the stream is cut
exports.title = "Stream encryption is independent of how the stream is cut";
exports.assumptions = ["AES of one block under one key is an arbitrary function of the block (the counter-mode primitive of the platform encrypts consecutive 128-bit counters)"];
function aesCtr(S, key, counter, data) { return S.load("utilities/1_crypto.ts").CTR.importKey(key).then((k) => crypto.subtle.encrypt({ name: "AES-CTR", counter, length: 128 }, k, data)).then((b) => new Uint8Array(b)); }
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const TOTALS = deep ? [1, 15, 16, 17, 31, 32, 33, 40, 48, 50] : [1, 16, 17, 32, 33, 40];
  for (const total of TOTALS) cs.push({ name: "cuts-" + total, bounds: `a stream of ${total} bytes, every content and key and every initial counter whose carries stay within the last three bytes, cut into up to three calls at every place`, weight: total, run: async (S) => {
    const { CTR } = S.load("utilities/1_crypto.ts");
    const key = S.bytes("key", 32), iv = S.bytes("iv", 16), data = S.bytes("data", total);
    const ivCopy = iv.slice();
    S.assume(iv[13] !== 255);
    const places = Array.from({ length: total + 1 }, (_, i) => i);
    const c1 = S.choose("c1", places), c2 = S.choose("c2", places.filter((x) => x >= c1));
    const ctr = new CTR(await CTR.importKey(key), iv);
    const out = [];
    for (const [a, b] of [[0, c1], [c1, c2], [c2, total]]) { const piece = data.slice(a, b), keep = piece.slice(); const r = await ctr.call(piece); S.assert(r.length === b - a, "a call returns another number of bytes"); S.assertEq(piece, keep, "the caller's data was modified"); out.push(...r); }
    const want = await aesCtr(S, key, ivCopy, data);
    S.assertEq(new Uint8Array(out), want, "the stream differs from the uncut stream");
    S.assertEq(iv, ivCopy, "the caller's counter was modified");
  } });
  cs.push({ name: "many-cuts", bounds: "a stream of 40 bytes cut into calls of one size 1..20, every content, key and initial counter", weight: 30, run: async (S) => {
    const { CTR } = S.load("utilities/1_crypto.ts");
    const key = S.bytes("key", 32), iv = S.bytes("iv", 16), data = S.bytes("data", 40);
    const step = S.choose("step", Array.from({ length: 20 }, (_, i) => i + 1));
    const ctr = new CTR(await CTR.importKey(key), iv);
    const out = [];
    for (let i = 0; i < 40; i += step) out.push(...await ctr.call(data.slice(i, i + step)));
    S.assertEq(new Uint8Array(out), await aesCtr(S, key, iv, data), "the stream differs from the uncut stream");
  } });
  cs.push({ name: "restore", bounds: "35 bytes encrypted in pieces and decrypted in other pieces, every content, key and counter", run: async (S) => {
    const { CTR } = S.load("utilities/1_crypto.ts");
    const key = S.bytes("key", 32), iv = S.bytes("iv", 16), data = S.bytes("data", 35);
    const a = new CTR(await CTR.importKey(key), iv), b = new CTR(await CTR.importKey(key), iv);
    const s1 = S.choose("s1", [1, 5, 16, 35]), s2 = S.choose("s2", [3, 16, 17, 20]);
    const mid = [], out = [];
    for (let i = 0; i < 35; i += s1) mid.push(...await a.call(data.slice(i, i + s1)));
    for (let i = 0; i < 35; i += s2) out.push(...await b.call(new Uint8Array(mid.slice(i, i + s2))));
    S.assertEq(new Uint8Array(out), data, "decrypting does not restore the stream");
  } });
  cs.push({ name: "concurrent", bounds: "three calls of 0..20 bytes issued at once without waiting", run: async (S) => {
    const { CTR } = S.load("utilities/1_crypto.ts");
    const key = S.bytes("key", 32), iv = S.bytes("iv", 16), data = S.bytes("data", 40);
    const a = S.choose("a", [0, 1, 16, 17, 20]), b = S.choose("b", [0, 1, 5, 15, 16]);
    const ctr = new CTR(await CTR.importKey(key), iv);
    const r = await Promise.all([ctr.call(data.slice(0, a)), ctr.call(data.slice(a, a + b)), ctr.call(data.slice(a + b))]);
    S.assertEq(new Uint8Array([...r[0], ...r[1], ...r[2]]), await aesCtr(S, key, iv, data), "calls issued at once do not continue the stream in order");
  } });
  cs.push({ name: "long", bounds: "calls of 16, 256, 4096 and 4100 bytes followed by an arbitrary 20-byte piece; every initial counter", weight: 20, run: async (S) => {
    const { CTR } = S.load("utilities/1_crypto.ts");
    const key = S.bytes("key", 32), iv = S.bytes("iv", 16), data = S.bytes("data", 20);
    const n = S.choose("n", deep ? [16, 256, 4096, 4100, 65536] : [16, 256, 4096, 4100]);
    const ctr = new CTR(await CTR.importKey(key), iv);
    await ctr.call(new Uint8Array(n));
    const got = await ctr.call(data);
    // the counter n / 16 blocks further on, by schoolbook addition
    const c = iv.slice(); let carry = Math.floor(n / 16);
    for (let i = 15; i >= 0; i--) { carry += c[i]; c[i] = carry & 255; carry = carry >> 8; }
    const skip = n % 16, padded = new Uint8Array(skip + 20); padded.set(data, skip);
    const want = await aesCtr(S, key, c, padded);
    S.assertEq(got, want.subarray(skip), "the counter is wrong after a long call");
  } });
  cs.push({ name: "failed-call", bounds: "a call whose encryption fails is followed by another call", run: async (S) => {
    const { CTR } = S.load("utilities/1_crypto.ts");
    const key = S.bytes("key", 32), iv = S.bytes("iv", 16), data = S.bytes("data", 20);
    const ctr = new CTR({}, iv);
    const p = await S.peek(ctr.call(data));
    S.assert(p !== "pending" && "error" in p, "an impossible call does not fail");
    const q = await S.peek(ctr.call(data));
    S.assert(q !== "pending" && "error" in q, "a failed call blocks the following ones");
  } });
  cs.push({ name: "state", bounds: "the exposed state after 0..40 bytes", run: async (S) => {
    const { CTR } = S.load("utilities/1_crypto.ts");
    const key = S.bytes("key", 32), iv = S.bytes("iv", 16);
    const n = S.choose("n", Array.from({ length: 41 }, (_, i) => i));
    const ctr = new CTR(await CTR.importKey(key), iv);
    if (n) await ctr.call(new Uint8Array(n));
    const c = iv.slice(); let carry = Math.floor(n / 16);
    for (let i = 15; i >= 0; i--) { carry += c[i]; c[i] = carry & 255; carry = carry >> 8; }
    S.assertEq(ctr._state.iv, c, "the counter is not the prescribed one");
    S.assertEq(ctr._state.state, n % 16, "the position within the block is wrong");
  } });
  return cs;
};
