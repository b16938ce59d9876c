"use strict";
// C14 Two-step verification computes the prescribed proof and refuses bad parameters
exports.title = "Two-step verification computes the prescribed proof and refuses bad parameters";
exports.assumptions = [
  "SHA-256 and PBKDF2 are uninterpreted functions of their whole input; modular exponentiation of symbolic numbers is an uninterpreted function with results below the modulus (it is checked by itself in C13)",
  "the bytes drawn as the random exponent read the same forwards and backwards, so that their order, which nothing prescribes, does not matter",
];
const PRIME = 0xC71CAEB9C6B1C9048E6C522F70F13F73980D40238E3E21C14934D037563D930F48198A0AA7C14058229493D22530F4DBFA336F6E0AC925139543AED44CCE7C3720FD51F69458705AC68CD4FE6B6B13ABDC9746512969328454F18FAF8C595F642477FE96BB2A941D5BCD1D4AC8CC49880708FA9B378E3C4F3A9060BEE67CF9A4A4A695811051907E162753B56B0F6B410DBA74D8A84B2A14B3144E0EF1284754FD17ED950D5965B4B9DD46582DB1178D169C6BC465B0D6FF9CA3928FEF5B9AE4E418FC15E83EBEA0F87FA9FF5EED70050DED2849F47BF959D956850CE929851F0D8115F635B105EE2E4E15D04B2454BF6F4FADF034B10403119CD8E3B92FCC5Bn;
const be = (v, n) => { const out = []; for (let i = n - 1; i >= 0; i--) out.push(Number(BigInt.asUintN(8, v >> BigInt(8 * i)))); return out; };
const num = (b) => { let v = 0n; for (let i = 0; i < b.length; i++) v = (v << 8n) | BigInt(b[i]); return v; };
const H = async (b) => [...new Uint8Array(await crypto.subtle.digest("SHA-256", new Uint8Array(b)))];
const SH = (d, s) => H([...s, ...d, ...s]);
const ALGO = "passwordKdfAlgoSHA256SHA256PBKDF2HMACSHA512iter100000SHA256ModPow";
// the proof as https://core.telegram.org/api/srp prescribes it
async function proof(S, password, { g, salt1, salt2 }, gB, a) {
  const p = PRIME, x1 = await SH(await SH(password, salt1), salt2);
  const key = await crypto.subtle.importKey("raw", new Uint8Array(x1), "PBKDF2", false, ["deriveBits"]);
  const stretched = [...new Uint8Array(await crypto.subtle.deriveBits({ name: "PBKDF2", salt: new Uint8Array(salt1), iterations: 100000, hash: "SHA-512" }, key, 512))];
  const x = num(await SH(stretched, salt2));
  const gA = S.modExp(BigInt(g), a, p), k = num(await H([...be(p, 256), ...be(BigInt(g), 256)])), u = num(await H([...be(gA, 256), ...be(gB, 256)]));
  const v = S.modExp(BigInt(g), x, p);
  const t = (gB + p - (k * v) % p) % p;
  const kA = await H(be(S.modExp(t, a + u * x, p), 256));
  const hp = await H(be(p, 256)), hg = await H(be(BigInt(g), 256));
  const m1 = await H([...hp.map((v, i) => v ^ hg[i]), ...await H(salt1), ...await H(salt2), ...be(gA, 256), ...be(gB, 256), ...kA]);
  return { gA: be(gA, 256), m1 };
}
// draws: the exponents tried first (concrete, not usable), then `a`; further draws belong to executions outside the bounds
async function answer(S, { password = "hunter2", g = 3, p = be(PRIME, 256), salt1 = [1, 2, 3, 4, 5, 6, 7, 8], salt2 = [8, 7, 6], srpB, first = [], a, srp_id = 5n, algo, setting }) {
  S.abstractModExp(true);
  const { checkPassword } = S.load("client/0_password.ts");
  let n = 0;
  S.randomHook((u) => {
    S.assert(u.length === 256, "the exponent does not have 2048 bits");
    const i = n++;
    if (i < first.length) { const b = new Uint8Array(256); b[0] = first[i]; b[255] = first[i]; return b; }
    S.assume(i === first.length);
    return new Uint8Array(a);
  });
  const ap = { _: "account.password", current_algo: algo ?? { _: ALGO, salt1: new Uint8Array(salt1), salt2: new Uint8Array(salt2), g, p: new Uint8Array(p) }, srp_B: srpB && new Uint8Array(srpB), srp_id, new_algo: {}, new_secure_algo: {}, secure_random: new Uint8Array(0), ...setting };
  const r = await S.outcome(checkPassword(password, ap));
  return { r, draws: () => n };
}
const palindrome = (S, n = 128) => { const h = [...S.bytes("a", n)]; const out = Array(256).fill(0); for (let i = 0; i < n; i++) { out[i] = h[i]; out[255 - i] = h[i]; } return out; };
const FIXED = Array.from({ length: 256 }, (_, i) => (i < 128 ? i * 5 + 3 : (255 - i) * 5 + 3) & 255);
const utf8 = (s) => [...new TextEncoder().encode(s)];
async function right(S, x, o) {
  S.assert(x.r.ok, "a correct set of parameters is refused");
  const v = x.r.value, want = await proof(S, utf8(o.password ?? "hunter2"), { g: o.g ?? 3, salt1: o.salt1 ?? [1, 2, 3, 4, 5, 6, 7, 8], salt2: o.salt2 ?? [8, 7, 6] }, num(o.srpB), num(o.a));
  S.assert(v._ === "inputCheckPasswordSRP", "another object is returned");
  S.assertEq(v.srp_id, 5n, "another session identifier is returned");
  S.assertEq([...v.A], want.gA, "A is not g^a in 256 bytes");
  S.assertEq([...v.M1], want.m1, "the proof is not the prescribed one");
  S.cover("answered");
}
exports.cases = (tier) => {
  const cs = [], inside = (S, n) => { const b = [...S.bytes("srp_B", n)]; S.assume(num(b) > 0n); S.assume(num(b) < PRIME); return b; };
  cs.push({ name: "server-value", bounds: "every srp_B of 1, 2, 3, 4, 8, 9, 128, 255, 256 and 257 bytes, one exponent", covers: ["answered", "refused"], run: async (S) => {
    const n = S.choose("n", [1, 2, 3, 4, 8, 9, 128, 255, 256, 257]), srpB = [...S.bytes("srp_B", n)], o = { srpB, a: FIXED };
    const x = await answer(S, o), v = num(srpB);
    if (v > 0n && v < PRIME) { await right(S, x, o); return; }
    S.assert(!x.r.ok, "a server value outside 0 < B < p is answered"); S.cover("refused");
  } });
  cs.push({ name: "salts", bounds: "every pair of salts of 0..40 bytes (lengths 0, 1, 8, 40), every generator, srp_B of 256 bytes", covers: ["answered"], run: async (S) => {
    const o = { g: S.choose("g", [3, 4, 5, 7]), salt1: [...S.bytes("salt1", S.choose("n1", [0, 1, 8, 40]))], salt2: [...S.bytes("salt2", S.choose("n2", [0, 1, 8, 40]))], srpB: inside(S, 256), a: FIXED };
    await right(S, await answer(S, o), o);
  } });
  cs.push({ name: "passwords", bounds: `every password of up to ${tier === "quick" ? 2 : 4} UTF-16 units, and ones longer than a hash block`, covers: ["answered"], run: async (S) => {
    const o = { password: S.choose("long", [false, true]) ? "é".repeat(40) + S.str("password", 1, 32, 126) : S.str("password", S.choose("n", tier === "quick" ? [0, 1, 2] : [0, 1, 2, 3, 4]), 0, 0xFFFF), srpB: be(PRIME >> 3n, 256), a: FIXED };
    await right(S, await answer(S, o), o);
  } });
  cs.push({ name: "redraw", bounds: "0..3 unusable exponents (0, 1, with all powers next to 0 or p) before every other (palindromic) one with a usable power", covers: ["answered"], run: async (S) => {
    const k = S.choose("k", [0, 1, 2, 3]), o = { srpB: be(PRIME >> 3n, 256), a: palindrome(S), first: Array(k).fill(0) };
    const x = await answer(S, o);
    await right(S, x, o);
    S.assert(x.draws() === k + 1, "a usable exponent is not used, or an unusable one is");
  } });
  cs.push({ name: "group", bounds: "every change of one byte at 8 positions of the prime; shorter, longer and empty ones; every 32-bit generator", covers: ["answered", "refused"], run: async (S) => {
    const how = S.choose("how", ["byte", "short", "long", "empty", "generator", "algo"]);
    const o = { srpB: be(PRIME >> 3n, 256), a: FIXED };
    let good = false;
    if (how === "byte") { o.p = be(PRIME, 256); const i = S.choose("i", [0, 1, 31, 100, 127, 128, 254, 255]), v = S.int("v", 0, 255); good = v === 0; if (!good) o.p[i] = o.p[i] ^ v; }
    else if (how === "short") o.p = be(PRIME, 256).slice(0, S.choose("n", [1, 128, 255]));
    else if (how === "long") o.p = [...be(PRIME, 256), ...S.bytes("more", S.choose("n", [1, 4]))];
    else if (how === "empty") o.p = [];
    else if (how === "generator") { o.g = S.int("g", -(2 ** 31), 2 ** 31 - 1); good = o.g === 3 || o.g === 4 || o.g === 5 || o.g === 7; if (good) o.g = S.conc(o.g); }
    else o.algo = { _: "passwordKdfAlgoUnknown" };
    const x = await answer(S, o);
    if (good) { await right(S, x, o); return; }
    S.assert(!x.r.ok, "an unsafe group is used"); S.cover("refused");
  } });
  cs.push({ name: "missing", bounds: "no srp_B, no srp_id, no algorithm", covers: ["refused"], run: async (S) => {
    const what = S.choose("what", ["srp_B", "srp_id", "current_algo"]);
    const x = await answer(S, { srpB: be(5n, 256), a: palindrome(S), setting: { [what]: undefined } });
    S.assert(!x.r.ok, "an answer is made without " + what); S.cover("refused");
  } });
  cs.push({ name: "good-power", bounds: "every pair of a 2049-bit number and a 2048-bit prime", covers: ["good", "bad"], run: async (S) => {
    const { isGoodModExpFirst } = S.load("client/0_password.ts");
    const v = S.big("v", 0n, 1n << 2049n), p = S.big("p", 1n << 2047n, (1n << 2048n) - 1n), r = isGoodModExpFirst(v, p);
    if (v >= 1n << 1984n && v <= p - (1n << 1984n)) { S.assert(r, "a good power is refused"); S.cover("good"); }
    if (v < 1n << 1983n || v > p - (1n << 1983n)) { S.assert(!r, "a bad power is accepted"); S.cover("bad"); }
  } });
  return cs;
};
