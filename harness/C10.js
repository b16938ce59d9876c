"use strict";
// C10 The encrypted session accepts only authentic, well-formed server messages
const { rig, B, ID, hash, keys, seal, uint, i64, i32, u32, bytesOf, acked } = require("./lib/session.js");
exports.title = "The encrypted session accepts only authentic, well-formed server messages";
exports.assumptions = ["AES-IGE is an arbitrary permutation per key and vector, SHA-1 and SHA-256 are arbitrary functions", "the bodies of accepted packets are updates (the dispatch of other bodies: C12)"];
const UPDATE = 0x12345678;
function watch(t) { const seen = []; for (const k of ["onUpdate", "onNewServerSalt", "onMessageFailed", "onPong", "onRpcError", "onRpcResult"]) t.session.handlers[k] = (...a) => { seen.push([k, ...a]); }; return seen; }
async function alive(S, t, seen) {
  S.assert(t.connection.isConnected, "the session stays disconnected after a packet it does not accept");
  const body = [...bytesOf(UPDATE, 4), 1, 2, 3, 4];
  seen.length = 0;
  await t.say({ msgId: (1n << 62n) + 5n, seqno: 1, body });
  S.assert(seen.length === 1, "a genuine packet is not received after one that was not accepted");
  S.assertEq(seen[0], ["onUpdate", new Uint8Array(body)], "a genuine packet is received differently after one that was not accepted");
}
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  for (const n of [...new Set([48, 64, 1072, ...(deep ? [80, 96, 1056, 1088] : [])])]) {
    cs.push({ name: "arbitrary-" + n, bounds: `packets of 24+${n} bytes with every key identifier, message key and content, a declared body length of 17 values (negative, odd, at and beyond each limit, extreme), every authorization key of the session; then a genuine packet`, covers: ["accepted"], weight: n > 100 ? 2 : 1, run: async (S) => {
      S.fixedRandom();
      const authKey = S.bytes("authKey", 256);
      const t = await rig(S, { authKey });
      const seen = watch(t);
      const session = t.session.id;
      // every packet is: some plaintext, encrypted for some message key, under some key identifier
      const LENGTHS = [n - 32 - 12, 0, 4, n - 32 - 8, n - 32 - 4, n - 32, n - 28, n, n - 32 - 14, n - 32 - 1024, n - 32 - 1028, -4, -1, 2, 6, 2 ** 31 - 4, -(2 ** 31)].filter((x, i, a) => a.indexOf(x) === i);
      const length = S.choose("length", LENGTHS);
      const plain = new Uint8Array([...S.bytes("head", 28), ...bytesOf(length, 4), ...bytesOf(UPDATE, 4), ...S.bytes("rest", n - 36)]);
      const xor = (a, d) => { const r = a.slice(); for (let i = 0; i < r.length; i++) r[i] ^= d[i]; return r; };
      const right = (await hash("SHA-256", authKey.subarray(96, 128), plain)).slice(8, 24), keyId = (await hash("SHA-1", authKey)).slice(12, 20);
      const d1 = S.bytes("keyDifference", 16), d2 = S.bytes("idDifference", 8);
      const packet = await seal(S, authKey, plain, { messageKey: xor(right, d1), keyId: xor(keyId, d2) });
      t.feed(packet);
      await S.settle();
      const zero = (d) => S.eq(d, new Uint8Array(d.length));
      const fits = length % 4 === 0 && length >= 0 && length <= n - 32 - 12 && length >= n - 32 - 1024;
      const ok = zero(d1) && zero(d2) && i64(plain, 8) === session && plain[16] % 2 === 1 && fits && length >= 4;
      if (seen.length) {
        S.assert(zero(d2), "a packet for another key is delivered");
        S.assert(zero(d1), "a packet whose message key does not match its content is delivered");
        S.assert(i64(plain, 8) === session, "a packet of another session is delivered");
        S.assert(plain[16] % 2 === 1, "a packet with a client's message identifier is delivered");
        S.assert(fits, "a packet with an impossible length or padding is delivered");
        S.assert(seen.length === 1, "one packet is delivered more than once");
        S.assertEq(seen[0], ["onUpdate", plain.slice(32, 32 + length)], "something else than the packet's body is delivered");
        S.cover("accepted");
      } else S.assert(!ok, "an authentic, well-formed packet is not delivered");
      await alive(S, t, seen);
      t.session.disconnect(); await S.settle();
    } });
  }
  cs.push({ name: "sizes", bounds: "packets of 0 to 120 bytes that are no whole number of blocks, of any content; then a genuine packet", run: async (S) => {
    S.fixedRandom();
    const authKey = new Uint8Array(256).fill(9);
    const t = await rig(S, { authKey });
    const seen = watch(t);
    const n = S.choose("n", [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 20, 23, 24, 25, 28, 39]);
    t.feed(S.bytes("packet", n));
    await S.settle();
    S.assert(seen.length === 0, "a packet too short to be one is delivered");
    await alive(S, t, seen);
    t.session.disconnect(); await S.settle();
  } });
  cs.push({ name: "trailing", bounds: "a genuine packet followed by 0 to 15 bytes of transport padding, every content", run: async (S) => {
    S.fixedRandom();
    const authKey = new Uint8Array(256).fill(9);
    const t = await rig(S, { authKey });
    const seen = watch(t);
    const body = new Uint8Array([...bytesOf(UPDATE, 4), ...S.bytes("body", S.choose("n", [0, 4, 8, 16, 20]))]);
    const p = await seal(S, authKey, t.plain({ msgId: S.big("msgId", 0, 2n ** 62n) * 2n + 1n, seqno: S.int("seqno", 0, 2 ** 31 - 1), salt: S.big("salt", -(2n ** 63n), 2n ** 63n - 1n), body }));
    t.feed(new Uint8Array([...p, ...S.bytes("tail", S.choose("tail", [0, 1, 4, 12, 15]))]));
    await S.settle();
    S.assertEq(seen, [["onUpdate", body]], "a genuine packet with transport padding is not delivered as sent");
    t.session.disconnect(); await S.settle();
  } });
  cs.push({ name: "old-session", bounds: "genuine packets of a session the client has left, between genuine packets of the current one", run: async (S) => {
    const t = await rig(S);
    const seen = watch(t);
    const old = t.session.id;
    t.session.disconnect(); await S.settle();
    await t.session.connect(); await S.settle();
    const same = t.session.id === old;
    const body = new Uint8Array([...bytesOf(UPDATE, 4), ...S.bytes("body", 8)]);
    await t.say({ msgId: 5n, seqno: 1, session: old, body });
    if (!same) S.assert(seen.length === 0, "a packet of a left session is delivered");
    seen.length = 0;
    await t.say({ msgId: 9n, seqno: 3, body });
    S.assertEq(seen, [["onUpdate", body]], "a packet of the current session is not delivered");
    t.session.disconnect(); await S.settle();
  } });
  return cs;
};
