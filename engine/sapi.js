"use strict";
// Harness interface, symbolic mode.
const path = require("path");
const C = require("./core.js");
const { E, T } = C;
const Sy = require("./sym.js");
const { Sym, SymBool, SymInt, SymNum, SymBig, SymFrac, SymF64, Str, isSym, mkBool, bt, num, bigv, fresh, wFor } = Sy;
const { U8, SDataView, SArrayBuffer, Block } = require("./mem.js");
const { rt, models } = require("./rt.js");
const L = require("./loader.js");
function deepEq(a, b) {
  if (a === b) return true;
  if (isSym(a) || isSym(b)) {
    if (a instanceof SymF64 && b instanceof SymF64) return mkBool(T.eq(a.t, b.t));
    if (a instanceof rt.BlobStr && b instanceof rt.BlobStr) return models.bytesEquals(a.u8, b.u8);
    return rt.seq(a, b);
  }
  if (a === null || b === null || typeof a !== "object" || typeof b !== "object") return typeof a === "number" && typeof b === "number" && Number.isNaN(a) && Number.isNaN(b);
  if (a instanceof U8 || b instanceof U8) {
    if (!(a instanceof U8 && b instanceof U8)) return false;
    return models.bytesEquals(a, b);
  }
  if (a instanceof models.Date || b instanceof models.Date) return a instanceof models.Date && b instanceof models.Date ? rt.seq(a.getTime(), b.getTime()) : false;
  if (Array.isArray(a) || Array.isArray(b)) {
    if (!(Array.isArray(a) && Array.isArray(b)) || a.length !== b.length) return false;
    return all(a.map((x, i) => () => deepEq(x, b[i])));
  }
  if (a instanceof Map || a instanceof Set) {
    if (a instanceof Map !== b instanceof Map || a instanceof Set !== b instanceof Set || a.size !== b.size) return false;
    return deepEq([...a], [...b]);
  }
  const keys = new Set([...Object.keys(a), ...Object.keys(b)]);
  return all([...keys].map((k) => () => deepEq(a[k], b[k])));
}
function all(fs) { let t = T.TRUE; for (const f of fs) { const r = f(); t = T.and(t, bt(r)); if (t === T.FALSE) return false; } return mkBool(t); }
E.deepEq = deepEq;
let ticking = 0;
async function settle() { for (let i = 0, n = 0; i < 3; i++) { await new Promise((r) => setImmediate(r)); if (E.dead) throw E.deadReason; if (ticking > 0 && n++ < 10000) i = -1; } }
async function busy(f) { const env = E.env; env.busy = (env.busy ?? 0) + 1; try { return await f(); } finally { env.busy--; } }
const S = {
  symbolic: true,
  int(name, lo, hi) { name = fresh(name); lo = BigInt(lo); hi = BigInt(hi); if (lo === hi) return Number(lo); const w = wFor(lo, hi); const v = C.variable(name, w); range(v, lo, hi, w); return new SymNum(v, lo, hi); },
  big(name, lo, hi) { name = fresh(name); lo = BigInt(lo); hi = BigInt(hi); const w = wFor(lo, hi); const v = C.variable(name, w); range(v, lo, hi, w); return new SymBig(v, lo, hi); },
  bool(name) { return new SymBool(T.eq(C.variable(fresh(name), 1), T.bv(1, 1))); },
  bytes(name, n) { name = fresh(name); if (n === 0) return new U8(0); return U8.fromT(C.variable(name, n * 8)); },
  // bytes of symbolic length lo..hi (a lazily read array of 8-bit cells)
  blob(name, lo, hi) { const len = S.int(name + ".length", lo, hi); const nm = fresh(name); return U8.view(Block.lazy(len, (it) => T.uf(nm + "_cells", 8, [it])), 0, len); },
  f64(name) { return new SymF64(C.variable(fresh(name), 64)); },
  str(name, n, lo = 0, hi = 65535) { name = fresh(name); if (n === 0) return ""; const t = C.variable(name, n * 16); const u = []; for (let i = 0; i < n; i++) { const c = T.extract(n * 16 - 1 - 16 * i, n * 16 - 16 - 16 * i, t); if (lo > 0) C.assume(T.ule(T.bv(lo, 16), c)); if (hi < 65535) C.assume(T.ule(c, T.bv(hi, 16))); u.push(Sy.narrow(num(T.zext(c, 17), 0n, 65535n), BigInt(lo), BigInt(hi))); } return Str.norm(u); },
  // one of the given values (branches)
  choose(name, values) { if (values.length === 1) return values[0]; const i = S.int(name, 0, values.length - 1); return values[rt.concretize(i)]; },
  conc(v) { return rt.concretize(v); },
  assume(c) { if (isSym(c) && !(c instanceof SymBool)) { if (!(c instanceof SymInt)) C.unsupported("assuming something else than a condition"); const z = rt.seq(c, typeof c === "bigint" || c instanceof SymBig ? 0n : 0); return C.assume(z === true ? T.FALSE : z === false ? T.TRUE : T.not(bt(z))); } C.assume(typeof c === "object" && c instanceof SymBool ? c.t : c ? T.TRUE : T.FALSE); },
  assert(c, msg) { if (c instanceof SymBool) C.assertTerm(c.t, msg); else if (isSym(c)) C.assertTerm(rt.cond(c) ? T.TRUE : T.FALSE, msg); else C.assertTerm(c ? T.TRUE : T.FALSE, msg); },
  fail(msg) { C.assertTerm(T.FALSE, msg); },
  eq: deepEq,
  assertEq(a, b, msg) { const r = deepEq(a, b); S.assert(r, msg); },
  note(k, v) { E.observed.push([k, v]); },
  cover(k) { if (typeof k !== "string") k = rt.concretize(k); E.stats.covers ??= {}; E.stats.covers[k] = (E.stats.covers[k] ?? 0) + 1; },
  load(p) { return L.load(path.resolve(L.REPO, p)); },
  dep(spec) { if (L.externals[spec]) return L.externals[spec]; return L.load(L.resolve(spec, L.REPO + "/x")); },
  bytesOf(...xs) { return new U8(xs.flat()); },
  isBytes(v) { return v instanceof U8; },
  // ---- schedule and time
  tick: () => busy(() => new Promise((r) => { ticking++; setImmediate(() => { ticking--; r(); }); })),
  settle: () => busy(settle),
  async advance(ms) { // run timers due within ms of virtual time
    return await busy(async () => {
      const until = E.env.time + ms;
      await settle();
      let n = 0;
      while (E.env.nextTimer() && E.env.nextTimer().at <= until) { if (++n > 5000) C.unsupported("timer storm"); E.env.fireNext(); await settle(); }
      E.env.time = until;
      await settle();
    });
  },
  now() { return E.env.now(); },
  timers() { return E.env.timers.length; },
  manualTime() { E.env.manual = true; },
  randomHook(f) { E.env.randomHook = f; },
  mathRandomHook(f) { E.env.mathRandomHook = f; },
  fixedRandom() { E.env.fixedRandom = true; },
  gzipHook(h) { E.env.gzip = h; },
  nowHook(f) { E.env.nowHook = f; },
  // does the promise settle without further time passing?  returns "pending" | {value} | {error}
  async peek(p) { let r = "pending"; p.then((value) => r = { value }, (error) => r = { error }); await S.settle(); return r; },
  async outcome(p) { try { return { ok: true, value: await (typeof p === "function" ? p() : p) }; } catch (e) { rt.caught(e); return { ok: false, error: e }; } },
  attempt(f) { try { return { ok: true, value: f() }; } catch (e) { rt.caught(e); return { ok: false, error: e }; } },
  unhandled() { return E.env.errors; },
  collisionFree(v = true) { E.collisionFree = v; },
  blockCipher(v = true) { E.blockCipher = v; },
  allocLimit(n) { E.allocLimit = n; },
  maxAlloc(n) { E.maxAlloc = n; },
  noMerge(v = true) { E.noMerge = v; },
  distinct(...xs) { for (let i = 0; i < xs.length; i++) for (let j = 0; j < i; j++) S.assume(rt.sne(xs[i], xs[j])); },
  byteAt(u, i) { return u.getAt(i); },
  // modular exponentiation: computed on constants, otherwise an uninterpreted function with results below the modulus in which nested powers commute
  modExp(a, b, n) {
    if (!isSym(a) && !isSym(b) && !isSym(n)) { let r = 1n; a %= n; while (b > 0n) { if (b & 1n) r = r * a % n; a = a * a % n; b >>= 1n; } return r; }
    if (b === 1n) { const lt = rt.lt(a, n); return lt === true || isSym(lt) && C.implied(lt.t) ? a : rt.rem(a, n); }
    const W = 2304, W2 = 4608, t = (v, w) => { const x = Sy.iv(v); return Sy.resize(x.t, w); };
    const nt = t(n, W), app = (x, es) => E.env.uf("modexp" + es.length, W, [x, ...es, nt]);
    let base = t(a, W), es = [t(b, W2)];
    const log = E.env.modexps ??= [];
    let prev = log.find((l) => l.out === base && l.nt === nt) ?? (isSym(a) && !E.env.structuralPowers ? log.find((l) => l.nt === nt && l.out.w === base.w && C.implied(T.eq(l.out, base))) : undefined);
    if (prev) { base = prev.base; es = [...prev.es, ...es].sort((x, y) => x.id - y.id); }
    const bits = isSym(n) ? W : (n - 1n).toString(2).length, full = app(base, es), out = bits < W ? T.zext(T.extract(bits - 1, 0, full), W) : full;
    if (!log.some((l) => l.out === out)) { log.push({ out, base, es, nt }); C.axiom(T.or(T.ult(full, nt), T.eq(nt, T.bv(0, W)))); if (es.length === 1) C.axiom(T.or(T.not(T.eq(es[0], T.bv(0, W2))), T.eq(full, T.bv(1, W)))); }
    const hi = (isSym(n) ? n.hi : n) - 1n;
    return new SymBig(Sy.resize(out, wFor(0n, hi)), 0n, hi);
  },
  abstractModExp(structural) { E.env.abstractWide = true; E.env.structuralPowers = !!structural; L.patches.set(path.resolve(L.REPO, "utilities/0_int.ts"), (x) => { x.modExp = S.modExp; }); },
  // leaves out what is only computed for a log
  quiet() { L.patches.set(path.resolve(L.REPO, "tl/0_utilities.ts"), (x) => { x.repr = () => ""; }); },
  override(p, f) { L.fileOverride.set(path.resolve(L.REPO, p), f); },
};
function range(v, lo, hi, w) { const mn = -(1n << BigInt(w - 1)), mx = (1n << BigInt(w - 1)) - 1n; if (lo > mn) C.assume(T.sle(T.bv(lo, w), v)); if (hi < mx) C.assume(T.sle(v, T.bv(hi, w))); }
// concrete value under a model, as plain JSON; null when it depends on uninterpreted functions
class NoValue extends Error {}
function hasUf(t, memo) { if (t.op === "uf") return true; let m = memo.get(t.id); if (m !== undefined) return m; m = t.args.some((x) => hasUf(x, memo)); memo.set(t.id, m); return m; }
const ufMemo = new Map();
function evalT(t, model) { if (hasUf(t, ufMemo)) throw new NoValue(); return T.evaluate(t, model); }
function concrete(v, model) {
  if (v instanceof SymBool) return evalT(v.t, model) === 1n;
  if (v instanceof SymNum) return Number(T.toSigned(evalT(v.t, model), v.t.w));
  if (v instanceof SymBig) return "n:" + T.toSigned(evalT(v.t, model), v.t.w);
  if (v instanceof Str) return String.fromCharCode(...v.u.map((c) => concrete(c, model)));
  if (v instanceof SymFrac) return concrete(v.n, model) / Number(v.d);
  if (isSym(v)) throw new NoValue();
  if (typeof v === "bigint") return "n:" + v;
  if (v === undefined) return null;
  if (v instanceof U8) { let s = "x:"; const n = typeof v.n === "number" ? v.n : concrete(v.n, model); if (typeof v.n !== "number") throw new NoValue(); for (let i = 0; i < n; i++) s += evalT(v.termAt(i), model).toString(16).padStart(2, "0"); return s; }
  if (Array.isArray(v)) return v.map((x) => concrete(x, model));
  if (v instanceof models.Date) return { date: concrete(v.getTime(), model) };
  if (v instanceof Map || v instanceof Set) return concrete([...v], model);
  if (v !== null && typeof v === "object") { const o = {}; for (const k of Object.keys(v).sort()) if (v[k] !== undefined) o[k] = concrete(v[k], model); return o; }
  if (typeof v === "function") return "function";
  return v;
}
module.exports = { S, concrete, NoValue, deepEq };
