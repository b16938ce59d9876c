"use strict";
// Environment models: clock, timers, randomness, cryptographic primitives.
const nodeCrypto = require("crypto");
const C = require("./core.js");
const { E, T, unsupported } = C;
const S = require("./sym.js");
const { isSym, SymInt, num, bigv, iv } = S;
const { U8, SArrayBuffer, SDataView } = require("./mem.js");
const { rt, models } = require("./rt.js");
class Env {
  constructor() { this.time = 0; this.timers = []; this.seq = 0; this.base = 1_700_000_000_000; this.rnd = 0; this.ufLog = new Map(); this.ufApps = new Map(); this.randomHook = null; this.nowHook = null; this.errors = []; this.fixedRandom = false; }
  now() { return this.nowHook ? this.nowHook() : this.base + this.time; }
  random() { // Math.random() as k / 2^16
    if (this.concreteRandom) return Math.random();
    if (this.mathRandomHook) { const r = this.mathRandomHook(); if (r !== undefined) return r; }
    const k = num(T.zext(C.variable("Math.random_" + (++this.rnd), 16), 17), 0n, 65535n);
    return rt.div(k, 65536);
  }
  fill(u8) {
    const i = ++this.rnd;
    if (this.concreteRandom) { u8.set(U8.native(nodeCrypto.randomBytes(u8.n))); return; }
    if (this.randomHook) { const r = this.randomHook(u8, i); if (r) { u8.set(r); return; } }
    if (typeof u8.n !== "number") { const n = rt.concretize(u8.n); u8 = u8.subarray(0, n); }
    if (u8.n === 0) return;
    if (this.fixedRandom) { for (let k = 0; k < u8.n; k++) u8.setAt(k, (i * 37 + k * 11) & 255); return; }
    u8.set(U8.fromT(C.variable("random_" + i, u8.n * 8)));
  }
  setTimeout(f, ms = 0, ...args) { if (isSym(ms)) ms = rt.concretize(ms); const t = { f, at: this.time + Math.max(0, Number(ms) || 0), id: ++this.seq, args, every: 0 }; this.timers.push(t); const env = this; return { id: t.id, t, ref() { return this; }, unref() { return this; }, hasRef() { return true; }, refresh() { t.at = env.time + ms; return this; }, [Symbol.toPrimitive]() { return t.id; } }; }
  setInterval(f, ms, ...args) { const h = this.setTimeout(f, ms, ...args); h.t.every = Math.max(1, ms); return h; }
  clear(h) { if (h === undefined || h === null) return; const id = typeof h === "object" ? h.id : h; this.timers = this.timers.filter((t) => t.id !== id); }
  nextTimer() { let b = null; for (const t of this.timers) if (!b || t.at < b.at || t.at === b.at && t.id < b.id) b = t; return b; }
  fireNext(limit = Infinity) { const t = this.nextTimer(); if (!t || t.at > limit) return false; this.timers = this.timers.filter((x) => x !== t); this.time = Math.max(this.time, t.at); if (t.every) { t.at += t.every; this.timers.push(t); } t.f(...t.args); return true; }
  // ---- uninterpreted functions
  uf(name, w, args) { // args: terms
    const nm = name + "_" + args.map((a) => a.w).join("_") + "_" + w;
    // an application whose arguments provably equal those of an earlier one is that application
    let log = this.ufApps.get(nm); if (!log) this.ufApps.set(nm, log = []);
    for (const l of log) if (l.args.every((a, i) => a === args[i])) return l.t;
    if (!(this.structuralPowers && /^(modexp|residue|product)/.test(name)) && !/^aes[ED]/.test(name)) for (const l of log) { let c = T.TRUE; for (let i = 0; i < args.length; i++) { c = T.and(c, T.eq(l.args[i], args[i])); if (c === T.FALSE) break; } if (c !== T.FALSE && C.implied(c)) { log.push({ args, t: l.t }); return l.t; } }
    const t = T.uf(nm, w, args);
    log.push({ args, t });
    return t;
  }
  hash(name, bits, u8) {
    if (u8 instanceof SArrayBuffer) u8 = new U8(u8); if (u8 instanceof SDataView) u8 = u8.u;
    if (!(u8 instanceof U8) && (ArrayBuffer.isView(u8) || u8 instanceof ArrayBuffer)) u8 = new U8(u8);
    let out;
    const logKey = name + "/" + u8.n;
    let log = this.ufLog.get(name); if (!log) this.ufLog.set(name, log = []);
    const inT = u8.term() ?? T.bv(0, 1);
    if (u8.isConcrete()) { out = T.bv(BigInt("0x" + nodeCrypto.createHash(name).update(u8.toNative()).digest("hex")), bits); for (const l of log) if (!l.conc && l.inT.w === inT.w) C.axiom(T.implies(T.eq(l.inT, inT), T.eq(l.out, out))); log.push({ inT, out, conc: true }); }
    else {
      out = this.uf(name, bits, [inT]);
      if (!log.some((l) => l.inT === inT)) {
        for (const l of log) {
          if (l.inT.w === inT.w) { if (l.conc) C.axiom(T.implies(T.eq(l.inT, inT), T.eq(l.out, out))); if (E.collisionFree) C.axiom(T.implies(T.eq(l.out, out), T.eq(l.inT, inT))); } else if (E.collisionFree) C.axiom(T.not(T.eq(l.out, out)));
        }
        log.push({ inT, out });
      }
    }
    return U8.fromT(out);
  }
}
E.newEnv = () => { E.env = new Env(); };
E.newEnv();
const HASH = { "SHA-1": ["sha1", 160], "SHA-256": ["sha256", 256], "SHA-512": ["sha512", 512], "SHA-384": ["sha384", 384], "MD5": ["md5", 128] };
function algName(a) { return (typeof a === "string" ? a : a.name).toUpperCase(); }
function asU8(d) { if (d instanceof U8) return d; if (d instanceof SArrayBuffer) return new U8(d); if (d instanceof SDataView) return d.u; return new U8(d); }
class Key { constructor(raw, alg) { this.raw = raw; this.algorithm = alg; } }
const subtle = {
  async digest(alg, data) { const h = HASH[algName(alg)]; if (!h) unsupported("digest " + algName(alg)); return E.env.hash(h[0], h[1], asU8(data)).buffer; },
  digestSync(alg, data) { const h = HASH[algName(alg)]; if (!h) unsupported("digest " + algName(alg)); return E.env.hash(h[0], h[1], asU8(data)).buffer; },
  async importKey(fmt, data, alg) { if (fmt !== "raw") unsupported("key format " + fmt); const u = asU8(data).slice(); const n = algName(alg); if (n.startsWith("AES") && ![16, 24, 32].includes(u.n)) throw new Error("Invalid key length"); return new Key(u, alg); },
  async sign(alg, key, data) { // HMAC
    const u = asU8(data), hn = algName(key.algorithm.hash ?? alg.hash);
    const h = HASH[hn];
    if (u.isConcrete() && key.raw.isConcrete()) return U8.native(nodeCrypto.createHmac(h[0], key.raw.toNative()).update(u.toNative()).digest()).buffer;
    return U8.fromT(E.env.uf("hmac_" + h[0], h[1], [key.raw.term() ?? T.bv(0, 1), u.term() ?? T.bv(0, 1)])).buffer;
  },
  async encrypt(alg, key, data) {
    const n = algName(alg), u = asU8(data);
    if (n !== "AES-CTR") unsupported(n);
    const ctr = asU8(alg.counter);
    if (ctr.n !== 16) throw new Error("counter must be 16 bytes");
    const len = typeof alg.length === "number" ? alg.length : 128;
    const ct = ctr.term(), kt = key.raw.term();
    const cells = [];
    for (let b = 0; b * 16 < u.n; b++) {
      const block = len === 128 ? T.add(ct, T.bv(b, 128)) : T.concat(T.extract(127, len, ct), T.add(T.extract(len - 1, 0, ct), T.bv(b, len)));
      const ks = T.isC(kt) && T.isC(block) && key.raw.isConcrete() ? T.bv(BigInt("0x" + aesEcb(key.raw.toNative(), block.val)), 128) : E.env.uf("aes", 128, [kt, block]);
      for (let k = 0; k < 16 && b * 16 + k < u.n; k++) { const c = T.bvxor(u.termAt(b * 16 + k), T.extract(127 - 8 * k, 120 - 8 * k, ks)); cells.push(T.isC(c) ? Number(c.val) : c); }
    }
    return U8.cells(cells).buffer;
  },
  async decrypt(alg, key, data) { return subtle.encrypt(alg, key, data); },
  async deriveBits(alg, key, bits) {
    const n = algName(alg); if (n !== "PBKDF2") unsupported(n);
    const salt = asU8(alg.salt), h = HASH[algName(alg.hash)];
    if (salt.isConcrete() && key.raw.isConcrete()) return U8.native(nodeCrypto.pbkdf2Sync(key.raw.toNative(), salt.toNative(), alg.iterations, bits / 8, h[0])).buffer;
    return U8.fromT(E.env.uf("pbkdf2_" + h[0] + "_" + alg.iterations, bits, [key.raw.term() ?? T.bv(0, 1), salt.term() ?? T.bv(0, 1)])).buffer;
  },
};
function aesEcb(key, block) { const c = nodeCrypto.createCipheriv(`aes-${key.length * 8}-ecb`, key, null); c.setAutoPadding(false); const b = Buffer.from(block.toString(16).padStart(32, "0"), "hex"); return Buffer.concat([c.update(b), c.final()]).toString("hex"); }
const crypto = {
  subtle,
  getRandomValues(u) { E.env.fill(asU8(u)); return u; },
  randomUUID() { return "uuid-" + (++E.env.seq); },
};
models.crypto = crypto;
// AES-IGE as an uninterpreted permutation per (key, iv): D(E(x)) = x
function checkIge(d, k, iv2) { if (d.n === 0) throw new TypeError("data must not be empty"); if (d.n % 16 !== 0) throw new TypeError("data must consist of 16-byte blocks"); if (k.n !== 32) throw new TypeError("key must be 32 bytes"); if (iv2.n !== 32) throw new TypeError("iv must be 32 bytes"); }
// the mode itself over an uninterpreted block cipher, byte by byte, so that a text in pieces is its pieces one after the other
function igeBlocks(enc, data, key, ivv) {
  const kt = key.term(), n = data.n, out = [], iv = Array.from({ length: 32 }, (_, i) => ivv.termAt(i));
  let c = iv.slice(0, 16), p = iv.slice(16);
  for (let i = 0; i < n; i += 16) {
    const x = Array.from({ length: 16 }, (_, j) => data.termAt(i + j)), prev = enc ? c : p, then = enc ? p : c;
    const w = T.concat(...x.map((b, j) => T.bvxor(b, prev[j]))), name = enc ? "aesD" : "aesE";
    let y;
    if (w.op === "uf" && w.name.startsWith(name + "_") && w.args[0] === kt) y = w.args[1]; else y = E.env.uf(enc ? "aesE" : "aesD", 128, [kt, w]);
    const z = Array.from({ length: 16 }, (_, j) => T.bvxor(T.extract(127 - 8 * j, 120 - 8 * j, y), then[j]));
    out.push(...z);
    if (enc) { c = z; p = x; } else { p = z; c = x; }
  }
  return U8.fromT(T.concat(...out));
}
function ige(enc, data, key, ivv) {
  data = asU8(data); key = asU8(key); ivv = asU8(ivv);
  checkIge(data, key, ivv);
  if (E.blockCipher) return igeBlocks(enc, data, key, ivv);
  const t = data.term(), kt = key.term(), it = ivv.term();
  const inv = (enc ? "igeD" : "igeE"), fwd = (enc ? "igeE" : "igeD");
  const nm = (n) => n + "_" + t.w;
  if (t.op === "uf" && t.name.startsWith(inv + "_256_256_") && t.args[0] === kt && t.args[1] === it) return U8.fromT(t.args[2]);
  const out = E.env.uf(fwd, t.w, [kt, it, t]);
  // instantiate the inverse law for every pair of applications seen on this path
  let log = E.env.ufLog.get("ige"); if (!log) E.env.ufLog.set("ige", log = []);
  if (!log.some((l) => l.out === out)) {
    for (const l of log) if (l.w === t.w && l.enc !== enc) {
      C.axiom(T.implies(T.and(T.eq(l.kt, kt), T.eq(l.it, it), T.eq(l.out, t)), T.eq(out, l.t)));
      C.axiom(T.implies(T.and(T.eq(l.kt, kt), T.eq(l.it, it), T.eq(l.t, out)), T.eq(l.out, t)));
    }
    log.push({ enc, kt, it, t, out, w: t.w });
  }
  return U8.fromT(out);
}
models.tgcrypto = { init: async () => {}, ige256Encrypt: (d, k, i) => ige(true, d, k, i), ige256Decrypt: (d, k, i) => ige(false, d, k, i), ctr256() { unsupported("ctr256"); }, createCtr256State() { unsupported("ctr256"); }, destroyCtr256State() {} };
models.bytesEquals = (a, b) => {
  if (typeof a.n !== "number" || typeof b.n !== "number") {
    if (!rt.cond(rt.seq(a.n, b.n))) return false;
    const n = typeof a.n === "number" ? a.n : typeof b.n === "number" ? b.n : rt.concretize(a.n, (rt.smallBound(a) ?? rt.smallBound(b) ?? 4094) + 2);
    a = U8.view(a.b, a.o, n); b = U8.view(b.b, b.o, n);
  }
  if (typeof a.n === "number" && typeof b.n === "number") { if (a.n !== b.n) return false; let t = T.TRUE; for (let i = 0; i < a.n; i++) { t = T.and(t, T.eq(a.termAt(i), b.termAt(i))); if (t === T.FALSE) return false; } return S.mkBool(t); } unsupported("equality of bytes of symbolic length"); };
models.bytesStartsWith = (a, b) => { if (b.n > a.n) return false; return models.bytesEquals(a.subarray(0, b.n), b); };
module.exports = { Env, ige, asU8 };
