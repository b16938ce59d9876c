"use strict";
// C13 The key exchange accepts only values bound to its own nonces
exports.title = "The key exchange accepts only values bound to its own nonces";
exports.assumptions = [
  "SHA-1, SHA-256 and AES-IGE are uninterpreted functions (AES-IGE decryption inverts encryption); modular exponentiation of symbolic numbers is an uninterpreted function with results below the modulus, and is checked by itself on small numbers",
  "altered answers differ from genuine ones in one of: a nonce, the hash, the group, the server's value, the final hash, the kind of answer; the server decrypts with an RSA exponent of 1, so that what the client encrypts can be read",
];
const PRIME = 0xC71CAEB9C6B1C9048E6C522F70F13F73980D40238E3E21C14934D037563D930F48198A0AA7C14058229493D22530F4DBFA336F6E0AC925139543AED44CCE7C3720FD51F69458705AC68CD4FE6B6B13ABDC9746512969328454F18FAF8C595F642477FE96BB2A941D5BCD1D4AC8CC49880708FA9B378E3C4F3A9060BEE67CF9A4A4A695811051907E162753B56B0F6B410DBA74D8A84B2A14B3144E0EF1284754FD17ED950D5965B4B9DD46582DB1178D169C6BC465B0D6FF9CA3928FEF5B9AE4E418FC15E83EBEA0F87FA9FF5EED70050DED2849F47BF959D956850CE929851F0D8115F635B105EE2E4E15D04B2454BF6F4FADF034B10403119CD8E3B92FCC5Bn;
const PQ = 0x17ED48941A08F981n, P = 0x494C553Bn, Q = 0x53911073n;
const le = (v, n) => { const out = []; for (let i = 0; i < n; i++) out.push(Number(BigInt.asUintN(8, v >> BigInt(8 * i)))); return out; };
const be = (v, n) => le(v, n).reverse();
const num = (b) => { let v = 0n; for (let i = 0; i < b.length; i++) v = (v << 8n) | BigInt(b[i]); return v; };
const i32 = (v) => le(BigInt(v), 4);
const raw = (b) => { const out = b.length < 254 ? [b.length, ...b] : [254, b.length & 255, b.length >> 8, 0, ...b]; while (out.length % 4) out.push(0); return out; };
const xor = (a, b) => a.map((v, i) => v ^ b[i]);
const sha = async (alg, b) => [...new Uint8Array(await crypto.subtle.digest(alg, new Uint8Array(b)))];
const RESPQ = 0x05162463, DH_OK = 0xd0e8075c, DH_FAIL = 0x79cb045d, INNER = 0xb5890dba, GEN_OK = 0x3bcbf734, GEN_RETRY = 0x46dc1fb9, GEN_FAIL = 0xa69dae02;
// Runs createAuthKey against a server that follows the specification, except for `alter` = {place: delta bytes}.
async function exchange(S, { alter = {}, temporary = false, dc = "2", media = false, g = 3, gA, modulus = 1n << 2048n, badFirst = [], fingerprints = [11n, 22n], prime = be(PRIME, 256), last = GEN_OK, second = DH_OK, check = true, params = {}, plain = false } = {}) {
  S.abstractModExp();
  const { ClientPlain } = S.load("client/1_client_plain.ts");
  const { ige256Encrypt, ige256Decrypt } = S.load("0_deps.ts");
  const some = (name, n) => plain ? Array.from({ length: n }, (_, i) => (name.length * 37 + i * 11) & 127) : [...S.bytes(name, n)];
  const nonce = some("nonce", 16), newNonce = some("new_nonce", 32), tempKeys = [], serverNonce = some("server_nonce", 16), b = [...S.bytes("b", 256)];
  let n32 = 0;
  S.randomHook((u) => {
    if (u.length === 16) return new Uint8Array(nonce);
    if (u.length === 32) { if (n32++ === 0) return new Uint8Array(newNonce); const t = [...S.bytes("temp_key", 32)]; tempKeys.push(t); return new Uint8Array(t); }
    if (u.length === 256) return new Uint8Array(b);
    return new Uint8Array(u.length).fill(5);
  });
  S.mathRandomHook(() => 0.3);
  const d = (place, bytes) => alter[place] ? xor(bytes, alter[place]) : bytes;
  const sent = [], queue = [], waiting = [];
  let step = 0, tries = 0;
  const reply = (body) => { const p = new Uint8Array([...le(0n, 8), ...le(0x51e57ac42770964an | 1n, 8), ...i32(body.length), ...body]); if (waiting.length) waiting.shift()(p); else queue.push(p); };
  let tmpKey, tmpIv;
  const bGot = num([...b].reverse()), gAv = gA ?? num([...S.bytes("g_a", 256)]);
  const serve = async (packet) => {
    const p = [...packet];
    S.assertEq(p.slice(0, 8), le(0n, 8), "an unencrypted message has a key identifier");
    S.assertEq(p.slice(16, 20), i32(p.length - 20), "an unencrypted message's length is wrong");
    const m = p.slice(20), kind = num(m.slice(0, 4).reverse());
    if (kind === 0xbe7e8ef1n) {
      S.assertEq(m.slice(4), nonce, "the request is not for the client's nonce");
      const bad = badFirst[tries++];
      if (bad) { reply(bad(nonce, serverNonce)); return; }
      S.assert(step === 0, "the exchange is started over"); step = 1;
      reply([...i32(RESPQ), ...d("resPQ.nonce", nonce), ...serverNonce, ...raw(be(PQ, 8)), ...i32(0x1cb5c415), ...i32(fingerprints.length), ...fingerprints.flatMap((f) => le(f, 8))]);
    } else if (kind === 0xd712e4ben) {
      S.assert(step === 1, "steps out of order"); step = 2;
      const want = [...nonce, ...serverNonce, ...raw(be(P, 4)), ...raw(be(Q, 4)), ...le(22n, 8), 254, 0, 1, 0];
      S.assertEq(m.slice(4, 4 + want.length), want, "req_DH_params does not carry the nonces, the factors and the key's fingerprint");
      S.assert(m.length === 4 + want.length + 256, "the encrypted data does not have 256 bytes");
      if (check) {
        const e = m.slice(4 + want.length);
        const aes = e.slice(32), tempKey = xor(e.slice(0, 32), await sha("SHA-256", aes));
        S.assertEq(tempKey, tempKeys[tempKeys.length - 1], "the encrypted data does not hide the temporary key as prescribed");
        S.assert(num(e) < modulus, "the encrypted number is not below the modulus");
        const dh = [...ige256Decrypt(new Uint8Array(aes), new Uint8Array(tempKey), new Uint8Array(32))];
        const padded = dh.slice(0, 192).reverse();
        S.assertEq(dh.slice(192), await sha("SHA-256", [...tempKey, ...padded]), "the hash inside the encrypted data is wrong");
        const inner = [...i32(temporary ? 0x56fddf88 : 0xa9f55f95), ...raw(be(PQ, 8)), ...raw(be(P, 4)), ...raw(be(Q, 4)), ...nonce, ...serverNonce, ...newNonce, ...le(BigInt(params.dcId ?? 2), 4)];
        S.assertEq(padded.slice(0, inner.length), inner, "the encrypted data is not the prescribed object");
        if (temporary) { const ttl = num(padded.slice(inner.length, inner.length + 4).reverse()); S.assert(ttl > 0n && ttl <= 86400n, "a temporary key's lifetime is not between one second and a day"); }
      }
      const h1 = await sha("SHA-1", [...newNonce, ...serverNonce]), h2 = await sha("SHA-1", [...serverNonce, ...newNonce]), h3 = await sha("SHA-1", [...newNonce, ...newNonce]);
      tmpKey = new Uint8Array([...h1, ...h2.slice(0, 12)]); tmpIv = new Uint8Array([...h2.slice(12, 20), ...h3, ...newNonce.slice(0, 4)]);
      if (second !== DH_OK) { reply([...i32(second), ...nonce, ...serverNonce, ...Array(16).fill(1)]); return; }
      const answer = [...i32(INNER), ...d("inner.nonce", nonce), ...d("inner.server_nonce", serverNonce), ...i32(g), ...raw(d("inner.dh_prime", prime)), ...raw(be(gAv, 256)), ...i32(1700000000)];
      const withHash = [...d("inner.hash", await sha("SHA-1", answer)), ...answer];
      while (withHash.length % 16) withHash.push(0xA5);
      reply([...i32(DH_OK), ...d("params.nonce", nonce), ...d("params.server_nonce", serverNonce), ...raw([...ige256Encrypt(new Uint8Array(withHash), tmpKey, tmpIv)])]);
    } else if (kind === 0xf5045f1fn) {
      S.assert(step === 2, "steps out of order"); step = 3;
      S.assertEq(m.slice(4, 36), [...nonce, ...serverNonce], "set_client_DH_params does not carry the nonces");
      const n = 336;
      S.assertEq(m.slice(36, 40), [254, n & 255, n >> 8, 0], "the client's encrypted data has another length");
      const plain = [...ige256Decrypt(new Uint8Array(m.slice(40, 40 + n)), tmpKey, tmpIv)];
      const want = [...i32(0x6643b654), ...nonce, ...serverNonce, ...le(0n, 8), ...raw(be(S.modExp(BigInt(g), bGot, PRIME), 256))];
      S.assertEq(plain.slice(20, 20 + want.length), want, "the client's answer does not carry the nonces and g^b");
      S.assertEq(plain.slice(0, 20), await sha("SHA-1", want), "the hash of the client's answer is wrong");
      S.assert(plain.length - 20 - want.length < 16, "too much padding");
      const key = be(S.modExp(gAv, bGot, PRIME), 256);
      const aux = (await sha("SHA-1", key)).slice(0, 8);
      const kindByte = last === GEN_OK ? 1 : last === GEN_RETRY ? 2 : 3;
      const hash = (await sha("SHA-1", [...newNonce, kindByte, ...aux])).slice(4);
      reply([...i32(last), ...d("gen.nonce", nonce), ...d("gen.server_nonce", serverNonce), ...d("gen.hash", hash)]);
    } else S.fail("an unknown request is sent");
  };
  const connection = { isConnected: true, open: async () => {}, close: async () => {} };
  const transport = { initialize: async () => {}, send: async (p) => { sent.push(p); await serve(p); }, receive: () => new Promise((r) => { if (queue.length) r(queue.shift()); else waiting.push(r); }) };
  const client = new ClientPlain(dc, { transportProvider: () => ({ connection, transport, dcId: 2 }), publicKeys: [[33n, [5n, 1n]], [22n, [modulus, 1n]]], ...(media ? { isMedia: true } : {}) });
  await client.connect();
  const r = await S.outcome(client.createAuthKey(temporary));
  return { r, nonce, newNonce, serverNonce, b, gA: gAv, bGot, step: () => step, tries: () => tries, tempKeys };
}
async function right(S, x, g = 3) {
  S.assert(x.r.ok, "a genuine exchange fails");
  const [key, salt] = x.r.value;
  S.assertEq([...key], be(S.modExp(x.gA, x.bGot, PRIME), 256), "the key is not g^ab");
  S.assertEq(BigInt.asUintN(64, salt), num(xor(x.newNonce.slice(0, 8), x.serverNonce.slice(0, 8)).reverse()), "the first salt is not the one prescribed");
  S.assert(x.step() === 3, "the exchange ended early");
  S.cover("agreed");
}
const inRange = (S) => { const v = num([...S.bytes("g_a", 256)]); S.assume(v >= 1n << 2040n); S.assume(v <= PRIME - (1n << 2040n)); return v; };
exports.cases = (tier) => {
  const cs = [];
  for (const temporary of [false, true]) cs.push({ name: temporary ? "genuine-temporary" : "genuine", bounds: "every nonce, new nonce, server nonce, temporary key, exponent b and server value g_a between 2^2040 and p - 2^2040", covers: ["agreed"], run: async (S) => {
    await right(S, await exchange(S, { temporary, gA: inRange(S) }));
  } });
  cs.push({ name: "datacenters", bounds: "every permitted generator; datacenters 1..5, ordinary, media and test ones; one set of nonces, every exponent", covers: ["agreed"], run: async (S) => {
    const [dc, media, dcId] = S.choose("dc", [["2", false, 2], ["4", true, -4], ["1-test", false, 10001], ["3-test", true, -10003], ["5", false, 5]]);
    const g = S.choose("g", [3, 4, 5, 7]);
    await right(S, await exchange(S, { temporary: S.choose("temporary", [false, true]), g, plain: true, gA: PRIME >> 1n, dc, media, params: { dcId } }), g);
  } });
  for (const [place, n] of [["resPQ.nonce", 16], ["params.nonce", 16], ["params.server_nonce", 16], ["inner.hash", 20], ["inner.nonce", 16], ["inner.server_nonce", 16], ["gen.nonce", 16], ["gen.server_nonce", 16], ["gen.hash", 16]]) cs.push({ name: "altered-" + place, bounds: `every alteration of every byte of ${place}, every other value as in the genuine exchange`, covers: place === "resPQ.nonce" ? ["refused"] : ["agreed", "refused"], run: async (S) => {
    const delta = [...S.bytes("delta", n)];
    let zero = 0; for (const v of delta) zero |= v;
    if (place === "resPQ.nonce") S.assume(zero !== 0);
    const x = await exchange(S, { alter: { [place]: delta }, gA: PRIME >> 1n, check: false, badFirst: place === "resPQ.nonce" ? Array.from({ length: 10 }, () => (nonce, serverNonce) => [...i32(RESPQ), ...xor(nonce, delta), ...serverNonce, ...raw(be(PQ, 8)), ...i32(0x1cb5c415), ...i32(1), ...le(22n, 8)]) : [] });
    if (zero === 0) { await right(S, x); return; }
    S.assert(!x.r.ok, `a key is accepted although ${place} was altered`);
    S.cover("refused");
  } });
  cs.push({ name: "altered-group", bounds: "every alteration of one byte of the prime at positions 0, 1, 127, 254 and 255; primes one byte shorter or longer; every 32-bit generator", covers: ["agreed", "refused"], run: async (S) => {
    const how = S.choose("how", ["byte", "short", "long", "generator"]);
    let prime = be(PRIME, 256), g = 3, good;
    if (how === "byte") { const i = S.choose("i", [0, 1, 127, 254, 255]), v = S.int("v", 0, 255); prime[i] = prime[i] ^ v; good = v === 0; }
    else if (how === "short") { prime = prime.slice(0, 255); good = false; }
    else if (how === "long") { prime = [...prime, S.int("v", 0, 255)]; good = false; }
    else { g = S.int("g", -(2 ** 31), 2 ** 31 - 1); good = g === 3 || g === 4 || g === 5 || g === 7; if (good) g = S.conc(g); }
    const x = await exchange(S, { prime, g, gA: PRIME >> 1n, plain: true, check: false });
    if (good) { await right(S, x, g); return; }
    S.assert(!x.r.ok, "a key is accepted for an unsafe group"); S.cover("refused");
  } });
  cs.push({ name: "server-value", bounds: "every 2048-bit g_a, one set of nonces", covers: ["agreed", "refused"], run: async (S) => {
    const v = num([...S.bytes("g_a", 256)]);
    const x = await exchange(S, { gA: v, check: false, plain: true });
    if (v >= 1n << 1984n && v <= PRIME - (1n << 1984n)) { await right(S, x); return; }
    if (v < 1n << 1983n || v > PRIME - (1n << 1983n)) { S.assert(!x.r.ok, "a key is accepted for a server value next to 0 or the prime"); S.cover("refused"); }
  } });
  cs.push({ name: "other-answers", bounds: "server_DH_params_fail, dh_gen_retry and dh_gen_fail in place of the answers, with every nonce and correct hashes; no known fingerprint; a known one anywhere among up to three", covers: ["refused", "agreed"], run: async (S) => {
    const how = S.choose("how", ["params-fail", "retry", "fail", "unknown", "none", "first", "middle"]);
    const f = S.big("f", -(1n << 63n), (1n << 63n) - 1n); S.assume(f !== 22n); S.assume(f !== 33n);
    const x = await exchange(S, { gA: PRIME >> 1n, plain: true, check: false, ...({ "params-fail": { second: DH_FAIL }, retry: { last: GEN_RETRY }, fail: { last: GEN_FAIL }, unknown: { fingerprints: [f, f + 0n] }, none: { fingerprints: [] }, first: { fingerprints: [22n, f] }, middle: { fingerprints: [f, 22n, 33n] } }[how]) });
    if (how === "first" || how === "middle") { await right(S, x); return; }
    S.assert(!x.r.ok, "a key is accepted although the exchange failed"); S.cover("refused");
  } });
  cs.push({ name: "first-answers-fail", bounds: "0..2 unusable first answers (altered nonce, another object, garbage, empty) before a genuine one", covers: ["agreed"], run: async (S) => {
    const k = S.choose("k", [0, 1, 2]), bad = [];
    const delta = [...S.bytes("delta", 16)]; let zero = 0; for (const v of delta) zero |= v; S.assume(zero !== 0);
    const other = [...S.bytes("other", 16)];
    for (let i = 0; i < k; i++) bad.push(S.choose("bad" + i, [
      (nonce) => [...i32(RESPQ), ...xor(nonce, delta), ...other, ...raw([15]), ...i32(0x1cb5c415), ...i32(1), ...le(22n, 8)],
      (nonce) => [...i32(GEN_OK), ...nonce, ...other, ...other],
      () => [1, 2, 3, 4],
      () => [],
    ]));
    const x = await exchange(S, { gA: PRIME >> 1n, check: false, badFirst: bad, plain: true });
    await right(S, x);
    S.assert(x.tries() === k + 1, "the first request is repeated another number of times");
  } });
  cs.push({ name: "rsa-modulus", bounds: "every padding key where the modulus is 2^2047 (about half of all encrypted numbers are too large and must be made again), up to three tries", run: async (S) => {
    const x = await exchange(S, { gA: PRIME >> 1n, modulus: 1n << 2047n, plain: true });
    if (x.tempKeys.length > 3) return;
    if (x.r.ok) await right(S, x);
  } });
  cs.push({ name: "modExp", bounds: "every base below 256 for the moduli 1, 2, 7, 12 and 23 and exponents up to 9, 16 and 31", run: async (S) => {
    const { modExp, mod } = S.load("utilities/0_int.ts");
    const a = S.big("a", 0n, 255n), n = S.choose("n", [1n, 2n, 7n, 12n, 23n]), e = S.choose("e", [1n, 2n, 3n, 4n, 5n, 6n, 7n, 8n, 9n, 16n, 31n]);
    let want = 0n; for (let v = 0n; v < n; v++) { let p = 1n; for (let i = 0n; i < e; i++) p = p * v % n; if (a % n === v) want = p; }
    S.assertEq(modExp(a, e, n), want, "modExp is wrong");
    const z = S.big("z", -300n, 300n), q = mod(z, n);
    S.assert(q >= 0n && q < n, "mod is out of range");
    S.assert((z - q) % n === 0n, "mod is not congruent");
  } });
  return cs;
};
