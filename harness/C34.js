"use strict";
// C34 Number theory used by the key exchange is exact
exports.title = "Number theory used by the key exchange is exact";
exports.assumptions = ["the modulus of an exponentiation is at least 2", "factorization is asked for a product of two primes; its random choices are arbitrary in the first attempt and follow a fixed sequence afterwards"];
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  for (const n of [2, 3, 4, 7, 10, 13, 16, 25, 31]) cs.push({ name: "modExp-" + n, bounds: `every base 0..${deep ? 255 : 63}, modulus ${n}, exponent 0..${deep ? 33 : 17}`, weight: 2, run: async (S) => {
    const { modExp } = S.load("utilities/0_int.ts");
    const b = S.choose("b", Array.from({ length: deep ? 34 : 18 }, (_, i) => i));
    const N = BigInt(n), a = S.big("a", 0, deep ? 255 : 63);
    let want = 1n;
    for (let i = 0; i < b; i++) want = want * a % N;
    S.assertEq(modExp(a, BigInt(b), N), want, "the power is not the exact one");
  } });
  cs.push({ name: "modExp-exponent", bounds: "every exponent 0..4095 for five bases and moduli of up to 256 bits", run: async (S) => {
    const { modExp } = S.load("utilities/0_int.ts");
    const P = 2n ** 255n - 19n;
    const [a, n] = S.choose("an", [[3n, 7n], [2n, 1009n], [7n, 2n ** 61n - 1n], [P - 2n, P], [2n ** 300n + 7n, P]]);
    const e = S.conc(S.int("e", 0, deep ? 4095 : 255));
    let want = 1n;
    for (let i = 0; i < e; i++) want = want * a % n;
    S.assertEq(modExp(a, BigInt(e), n), want, "the power is not the exact one");
  } });
  for (let lo = 0; lo < 64; lo += 8) cs.push({ name: "gcd-" + lo, bounds: `every pair of an integer 0..255 and one in ${lo}..${lo + 7}, in both orders`, weight: 2, run: async (S) => {
    const { gcd } = S.load("utilities/0_int.ts");
    const a = S.big("a", 0, 255), b = BigInt(S.conc(S.int("b", lo, lo + 7))), d = S.big("d", 1, 63);
    const g = S.choose("swap", [false, true]) ? gcd(b, a) : gcd(a, b);
    if (b === 0n) { S.assertEq(g, a, "the greatest common divisor with 0 is not the number itself"); return; }
    S.assert(g > 0n, "the divisor is not positive");
    const gc = S.conc(g);
    S.assert(a % gc === 0n && b % gc === 0n, "the result is not a common divisor");
    if (a % d === 0n && b % d === 0n) S.assert(gc % d === 0n, "a common divisor does not divide the result");
  } });
  cs.push({ name: "mod", bounds: "every dividend of 64 bits and seven moduli as big integers; of 20 bits and six moduli as numbers", run: async (S) => {
    const { mod } = S.load("utilities/0_int.ts");
    const m = S.choose("m", [1n, 2n, 3n, 7n, 64n, 255n, 997n]);
    const n = S.big("n", -(2n ** 63n), 2n ** 63n - 1n);
    const r = mod(n, m);
    const t = n % m;
    S.assertEq(r, t < 0n ? t + m : t, "the residue is not the exact one");
    const n2 = S.int("n2", -(2 ** 20), 2 ** 20), m2 = S.choose("m2", [1, 2, 3, 7, 64, 1000]);
    const r2 = mod(n2, m2);
    const t2 = n2 % m2;
    S.assertEq(r2, t2 < 0 ? t2 + m2 : t2, "the residue of numbers is not the exact one");
  } });
  const PRODUCTS = [[2, 2], [2, 3], [2, 13], [3, 3], [3, 5], [3, 7], [5, 5], [5, 7], [7, 7], [3, 17], [5, 11], [7, 11], [11, 13], ...(deep ? [[13, 13], [11, 23], [17, 19], [19, 23], [29, 31], [31, 31], [3, 83]] : [])];
  for (const [p, q] of PRODUCTS) cs.push({ name: `factorize-${p * q}`, bounds: `${p}*${q}: every random start and polynomial of the first attempt`, weight: p * q / 40, run: async (S) => {
    const { factorize } = S.load("utilities/1_math.ts");
    let calls = 0, lcg = 12345;
    const next = () => lcg = (lcg * 1103515245 + 12345) % 2147483648;
    const c = S.int("c", 0, 30), y = S.conc(S.int("y", -3, p * q + 3));
    let n = 0;
    S.mathRandomHook(() => calls++ === 0 ? S.conc(c) / 31 + 0.01 : (next() >>> 8) / 8388608);
    S.randomHook((u) => { const v = n++ === 0 ? y : next() >>> 4; const b = new Uint8Array(8); let x = BigInt(v); for (let i = 0; i < 8; i++) { b[i] = Number(x & 255n); x >>= 8n; } return b; });
    const r = factorize(BigInt(p * q));
    S.assertEq(r, [BigInt(p), BigInt(q)], "the factors are not the prime factors in ascending order");
    S.note("r", r);
  } });
  cs.push({ name: "factorize-large", bounds: "products of primes up to 2^31 (fixed numbers)", weight: 9, validate: true, run: async (S) => {
    const { factorize } = S.load("utilities/1_math.ts");
    let lcg = 99;
    const next = () => lcg = (lcg * 1103515245 + 12345) % 2147483648;
    S.mathRandomHook(() => (next() >>> 8) / 8388608);
    S.randomHook(() => { const b = new Uint8Array(8); for (let i = 0; i < 8; i++) b[i] = (next() >>> 12) & 255; return b; });
    const [p, q] = S.choose("pq", [[65521n, 65537n], [1000003n, 1000033n], [3n, 1000003n], [1048573n, 1048583n], [65521n, 65521n]]);
    S.assertEq(factorize(p * q), [p, q], "the factors of a large product are wrong");
  } });
  return cs;
};
