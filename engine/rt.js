"use strict";
// The runtime behind instrumented code: operators, branches, calls into built-ins, and the models of built-ins.
const C = require("./core.js");
const crypto = require("node:crypto");
const { E, T, unsupported } = C;
const S = require("./sym.js");
const { Sym, SymBool, SymInt, SymNum, SymBig, SymFrac, SymF64, Str, isSym, isStr, mkBool, bt, resize, mkInt, num, iv, fv, mkFrac, sumI, addI, subI, mulI, floorDivI, cmpLt, cmpEq, lessThan, clsOf, prim, numeric, nonFinite, isFracNum, narrow, wFor, min, max } = S;
const M = require("./mem.js");
const { U8, SArrayBuffer, SDataView } = M;
const rt = {};
E.rt = rt;
const isPrim = (v) => v === null || (typeof v !== "object" && typeof v !== "function");
let LAST;
rt.last = () => LAST;
rt.isNull = (v) => { LAST = v; return v === null || v === undefined; };
let MO, MF;
rt.nullM = (o, m) => { MO = o; MF = o[m]; const r = MF === null || MF === undefined; CALLM = [o, m]; return r; };
let CALLM;
rt.callLastM = (args) => rt.callm(CALLM[0], CALLM[1], args);
rt.c1 = (v) => { const r = rt.cond(v); LAST = v; return r; };
rt.fn = (file, id) => { const k = file.name; let s = E.fnSeen.get(k); if (!s) E.fnSeen.set(k, s = new Map()); s.set(id, (s.get(id) ?? 0) + 1); if (E.dead) throw E.deadReason; };
rt.caught = (e) => { if (e && e.__engine) throw e; if (E.dead) throw E.deadReason; if (e instanceof RangeError && /call stack/.test(e.message)) unsupported("call stack exhausted"); };
rt.cond = (v) => {
  if (v === true || v === false) return v;
  if (isPrim(v)) return !!v;
  if (v instanceof SymBool) return C.fork(v.t);
  if (v instanceof SymInt) return C.fork(T.not(cmpEq(v, iv(0))));
  if (v instanceof Str) return v.length > 0;
  if (v instanceof SymFrac) return C.fork(T.not(cmpEq(iv(v.n), iv(0))));
  if (v instanceof SymF64) unsupported("truth of an opaque double");
  return true;
};
rt.not = (v) => isPrim(v) ? !v : v instanceof SymBool ? mkBool(T.not(v.t)) : v instanceof SymInt ? mkBool(cmpEq(v, iv(0))) : !rt.cond(v);
const boolish = (v) => v === true || v === false || v instanceof SymBool;
rt.land = (a, fb) => {
  if (!(a instanceof SymBool)) return rt.cond(a) ? fb() : a;
  const known = E.facts.get(a.t.id);
  if (known !== undefined) return known ? fb() : false;
  let b;
  if (!E.noMerge) { try { E.speculating++; b = fb(); } catch (e) { if (e && e.__engine && e !== SPEC) throw e; b = SPEC; } finally { E.speculating--; } } else b = SPEC;
  if (b !== SPEC && boolish(b)) return mkBool(T.and(a.t, bt(b)));
  return C.fork(a.t) ? fb() : false;
};
rt.lor = (a, fb) => {
  if (!(a instanceof SymBool)) return rt.cond(a) ? a : fb();
  const known = E.facts.get(a.t.id);
  if (known !== undefined) return known ? true : fb();
  let b;
  if (!E.noMerge) { try { E.speculating++; b = fb(); } catch (e) { if (e && e.__engine && e !== SPEC) throw e; b = SPEC; } finally { E.speculating--; } } else b = SPEC;
  if (b !== SPEC && boolish(b)) return mkBool(T.or(a.t, bt(b)));
  return C.fork(a.t) ? true : fb();
};
const SPEC = { __engine: true, spec: true };
E.SPEC = SPEC;
E.speculating = 0;
rt.landv = (...xs) => mkBool(T.and(...xs.map(bt)));
rt.lorv = (...xs) => mkBool(T.or(...xs.map(bt)));
rt.itev = (c, a, b) => rt.ite(c, () => a, () => b);
rt.ite = (c, fa, fb) => {
  if (!(c instanceof SymBool)) return rt.cond(c) ? fa() : fb();
  const known = E.facts.get(c.t.id);
  if (known !== undefined) return known ? fa() : fb();
  let a, b;
  if (!E.noMerge) {
    try { E.speculating++; a = fa(); b = fb(); } catch (e) { if (e && e.__engine && e !== SPEC) throw e; a = SPEC; } finally { E.speculating--; }
    if (a !== SPEC) { const m = merge(c.t, a, b); if (m !== SPEC) return m; }
  }
  return C.fork(c.t) ? fa() : fb();
};
function merge(c, a, b) {
  if (a === b) return a;
  if (boolish(a) && boolish(b)) return mkBool(T.ite(c, bt(a), bt(b)));
  const na = typeof a === "number" ? Number.isInteger(a) : a instanceof SymNum, nb = typeof b === "number" ? Number.isInteger(b) : b instanceof SymNum;
  const ba = typeof a === "bigint" || a instanceof SymBig, bb = typeof b === "bigint" || b instanceof SymBig;
  if (na && nb || ba && bb) {
    const x = iv(a), y = iv(b), lo = min(x.lo, y.lo), hi = max(x.hi, y.hi), w = wFor(lo, hi);
    return mkInt(na ? SymNum : SymBig, T.ite(c, resize(x.t, w), resize(y.t, w)), lo, hi);
  }
  if (isStr(a) && isStr(b) && a.length === b.length) {
    const x = Str.of(a), y = Str.of(b), u = [];
    for (let i = 0; i < x.u.length; i++) { const m = merge(c, x.u[i], y.u[i]); if (m === SPEC) return SPEC; u.push(m); }
    return Str.norm(u);
  }
  return SPEC;
}
rt.merge = (c, a, b) => { const m = merge(bt(c), a, b); if (m === SPEC) return rt.cond(c) ? a : b; return m; };
rt.tof = (v) => v instanceof Sym ? (v instanceof SymBool ? "boolean" : v.jsType) : typeof v;
rt.inst = (v, c) => { if (v instanceof Sym) return false; if (c === models.Object) return v !== null && (typeof v === "object" || typeof v === "function"); return v instanceof c; };
// ------------------------------------------------------------ arithmetic
const fastNum = (a, b) => (typeof a === "number" && typeof b === "number") || (typeof a === "bigint" && typeof b === "bigint");
rt.str = (v) => {
  if (typeof v === "string" || v instanceof Str) return v;
  if (v instanceof SymInt) return Str.fromInt(v, 10);
  if (v instanceof SymBool) return rt.cond(v) ? "true" : "false";
  if (v instanceof Sym) unsupported("string of " + v.constructor.name);
  if (isPrim(v)) return String(v);
  if (typeof v === "function") return String(v);
  if (Array.isArray(v)) return rt.callm(v, "join", [","]);
  if (v instanceof U8) return v.toString();
  const p = prim(v, "string");
  return isPrim(p) ? String(p) : rt.str(p);
};
rt.add = (a, b) => {
  if (fastNum(a, b)) return a + b;
  if (isPrim(a) && isPrim(b)) return a + b;
  a = prim(a); b = prim(b);
  if (isStr(a) || isStr(b)) {
    if (!isSym(a) && !isSym(b)) return a + b;
    return Str.join([rt.str(a), rt.str(b)]);
  }
  if (!isSym(a) && !isSym(b)) return a + b;
  a = numeric(a); b = numeric(b);
  if (nonFinite(a) || nonFinite(b)) return NaN + (nonFinite(a) ? a : b) || (nonFinite(a) ? a : b);
  const cls = clsOf(a, b);
  if (a instanceof SymF64 || b instanceof SymF64) unsupported("arithmetic on an opaque double");
  if (isF(a) || isF(b)) { const x = fv(a), y = fv(b); return mkFrac(S.asInt(addI(mulI(x.n, iv(y.d)), mulI(y.n, iv(x.d)))), x.d * y.d); }
  const r = sumI(iv(a), iv(b), 1n);
  return congSum(withLin(mkInt(cls, r.t, r.lo, r.hi), r), a, b, 1n);
};
const withLin = (v, r) => { if (r.lin && v instanceof SymInt) v.lin = r.lin; return v; };
const isF = (v) => v instanceof SymFrac || isFracNum(v);
rt.sub = (a, b) => {
  if (isPrim(a) && isPrim(b)) return a - b;
  a = numeric(prim(a, "number")); b = numeric(prim(b, "number"));
  if (!isSym(a) && !isSym(b)) return a - b;
  if (nonFinite(a) || nonFinite(b)) return nonFinite(a) ? a : -b;
  const cls = clsOf(a, b);
  if (a instanceof SymF64 || b instanceof SymF64) unsupported("arithmetic on an opaque double");
  if (isF(a) || isF(b)) { const x = fv(a), y = fv(b); return mkFrac(S.asInt(subI(mulI(x.n, iv(y.d)), mulI(y.n, iv(x.d)))), x.d * y.d); }
  const r = sumI(iv(a), iv(b), -1n);
  return congSum(withLin(mkInt(cls, r.t, r.lo, r.hi), r), a, b, -1n);
};
rt.mul = (a, b) => {
  if (isPrim(a) && isPrim(b)) return a * b;
  a = numeric(prim(a, "number")); b = numeric(prim(b, "number"));
  if (!isSym(a) && !isSym(b)) return a * b;
  if (nonFinite(a) || nonFinite(b)) unsupported("multiplication by a non-finite number");
  const cls = clsOf(a, b);
  if (isF(a) || isF(b)) { const x = fv(a), y = fv(b); return simplifyFrac(S.asInt(mulI(x.n, y.n)), x.d * y.d); }
  const wide = E.env?.abstractWide && cls === SymBig;
  if (wide && isSym(a) && isSym(b)) { const r = wideProduct(iv(a), iv(b)); if (r) return r; }
  const out = (wide && (isSym(a) || a > 1n << 128n) && (isSym(b) || b > 1n << 128n) ? wideProduct(iv(a), iv(b)) : undefined) ?? ((r) => mkInt(cls, r.t, r.lo, r.hi))(mulI(iv(a), iv(b)));
  if (wide && isSym(out) && isSym(a) !== isSym(b)) { const [x, c] = isSym(a) ? [a, b] : [b, a], l = cong(x); out.cong = { n: l.n, c: l.c * c, lin: new Map([...l.lin].map(([t, k]) => [t, k * c])) }; }
  return out;
};
// On request, products of two symbolic numbers of more than 512 bits are uninterpreted (and commutative), and remainders by wide constants are uninterpreted functions
// of the polynomial they are taken of, with its coefficients reduced: equal polynomials have equal remainders, and remainders lie below their modulus.
function wideProduct(x, y) {
  if (x.lo < 0n || y.lo < 0n) return;
  const w1 = x.hi.toString(2).length, w2 = y.hi.toString(2).length;
  if (w1 + w2 < 500) return;
  const args = [resize(x.t, w1), resize(y.t, w2)]; if (w1 < w2 || w1 === w2 && args[0].id > args[1].id) args.reverse();
  const w = w1 + w2, out = E.env.uf("product", w, args);
  return mkInt(SymBig, T.zext(out, w + 1), 0n, (1n << BigInt(w)) - 1n);
}
// v is congruent to c + the sum of k*t over (t, k) in lin, modulo n (n = 0: equal)
function cong(v) {
  if (typeof v === "bigint") return { n: 0n, c: v, lin: new Map() };
  return v.cong ?? { n: 0n, c: 0n, lin: new Map([[v.lo >= 0n ? resize(v.t, v.hi.toString(2).length) : v.t, 1n]]) };
}
function congSum(out, a, b, sign) {
  if (!E.env?.abstractWide || !(out instanceof SymBig) || out.t.w < 130) return out;
  const x = cong(a), y = cong(b), lin = new Map(x.lin);
  if (x.n && y.n && x.n !== y.n) return out;
  for (const [t, k] of y.lin) { const s = (lin.get(t) ?? 0n) + sign * k; if (s === 0n) lin.delete(t); else lin.set(t, s); }
  out.cong = { n: x.n || y.n, c: x.c + sign * y.c, lin };
  return out;
}
function wideRemainder(x, n) { // x: a SymBig
  const l = cong(x); if (l.n && l.n % n !== 0n) return;
  const red = (v) => ((v % n) + n) % n, c = red(l.c), es = [...l.lin].map(([t, k]) => [t, red(k)]).filter((e) => e[1] !== 0n).sort((p, q) => p[0].id - q[0].id);
  if (es.length > 8) return;
  let r;
  if (!es.length) r = c;
  else {
    const w = n.toString(2).length, cs = [c, ...es.map((e) => e[1])].map((v) => v > n >> 1n ? v - n : v).join("_").replace(/-/g, "m");
    const out = E.env.uf("residue_" + crypto.createHash("sha256").update(String(n)).digest("hex").slice(0, 24) + "_" + (cs.length > 60 ? crypto.createHash("sha256").update(cs).digest("hex").slice(0, 24) : cs), w, es.map((e) => e[0]));
    C.axiom(T.ult(out, T.bv(n, w)));
    r = mkInt(SymBig, T.zext(out, w + 1), 0n, n - 1n);
    if (isSym(r)) r.cong = { n, c, lin: new Map(es) };
  }
  if (x.lo >= 0n) return r;
  const w = n.toString(2).length + 2, ri = iv(r), rt_ = resize(ri.t, w), out = mkInt(SymBig, T.ite(T.and(T.slt(x.t, T.bv(0, x.t.w)), T.not(T.eq(rt_, T.bv(0, w)))), T.sub(rt_, T.bv(n, w)), rt_), -(n - 1n), n - 1n);
  if (isSym(out)) out.cong = { n, c, lin: new Map(es) };
  return out;
}
function simplifyFrac(n, d) {
  if (d !== 1n && n instanceof SymInt) {
    const w = Math.max(n.t.w, wFor(d, d)) + 1;
    const exact = T.eq(T.srem(resize(n.t, w), T.bv(d, w)), T.bv(0, w));
    if (exact === T.TRUE) { const q = floorDivI(n, d); return num(q.t, q.lo, q.hi); }
  }
  return mkFrac(n, d);
}
rt.div = (a, b) => {
  if (isPrim(a) && isPrim(b)) return a / b;
  a = numeric(prim(a, "number")); b = numeric(prim(b, "number"));
  if (!isSym(a) && !isSym(b)) return a / b;
  if (nonFinite(a) || nonFinite(b)) unsupported("division with a non-finite number");
  const cls = clsOf(a, b);
  if (cls === SymBig) {
    if (rt.cond(rt.seq(b, 0n))) throw new RangeError("Division by zero");
    const x = iv(a), y = iv(b), w = Math.max(x.t.w, y.t.w) + 1;
    const m = [x.lo, x.hi, -x.lo, -x.hi];
    const lo = x.lo >= 0n && y.lo >= 0n ? 0n : m.reduce(min), hi = x.lo >= 0n && y.lo >= 0n ? x.hi / max(1n, y.lo) : m.reduce(max);
    const t = x.lo >= 0n && y.lo >= 0n ? T.udiv(resize(x.t, w), resize(y.t, w)) : T.sdiv(resize(x.t, w), resize(y.t, w));
    return mkInt(SymBig, resize(t, Math.max(w, wFor(lo, hi))), lo, hi);
  }
  if (isSym(b)) {
    // symbolic divisor: enumerate it when its range is small
    const y = b instanceof SymInt ? b : unsupported("division by " + S.typeName(b));
    if (y.hi - y.lo > 64n) unsupported("division by a symbolic number of wide range");
    return rt.div(a, Number(rt.concretize(b)));
  }
  if (b === 0) unsupported("division by zero");
  if (!Number.isInteger(b)) { const y = fv(b); const x = fv(a); return simplifyFrac(S.asInt(mulI(x.n, iv(y.d))), x.d * y.n.lo); }
  if (b < 0) return rt.div(rt.neg(a), -b);
  const x = fv(a);
  return simplifyFrac(x.n, x.d * BigInt(b));
};
rt.rem = (a, b) => {
  if (isPrim(a) && isPrim(b)) return a % b;
  a = numeric(prim(a, "number")); b = numeric(prim(b, "number"));
  if (!isSym(a) && !isSym(b)) return a % b;
  if (nonFinite(a) || Number.isNaN(b)) return NaN;
  if (nonFinite(b)) return a;
  const cls = clsOf(a, b);
  if (a instanceof SymFrac && b === 1) { const q = rt.trunc(a); return rt.sub(a, q); }
  if (isF(a) || isF(b)) unsupported("remainder of a fraction");
  if (rt.cond(rt.seq(b, cls === SymBig ? 0n : 0))) { if (cls === SymBig) throw new RangeError("Division by zero"); return NaN; }
  const x = iv(a), y = iv(b);
  if (b === 1) return 0;
  const w = Math.max(x.t.w, y.t.w) + 1;
  const bound = max(y.hi < 0n ? -y.hi : y.hi, y.lo < 0n ? -y.lo : y.lo) - 1n;
  const lo = x.lo >= 0n ? 0n : max(x.lo, -bound), hi = x.hi <= 0n ? 0n : min(x.hi, bound);
  if (x.lo >= 0n && y.lo > 0n && x.hi < y.lo) return a;
  if (x.hi < y.lo && -x.lo < y.lo) return a;
  if (E.env?.abstractWide && cls === SymBig && typeof b === "bigint" && b >= 1n << 512n && isSym(a)) { const r = wideRemainder(a, b); if (r !== undefined) return r; }
  if (x.lo >= 0n && y.lo === y.hi) { // the quotient has one or two possible values: subtract
    const n = y.lo, q1 = x.lo / n, q2 = x.hi / n;
    if (q2 - q1 <= 1n) {
      const xt = resize(x.t, w), less = (q) => T.add(xt, T.bv(-q * n, w)), l = q1 === q2 ? x.lo - q1 * n : 0n, h = q1 === q2 ? x.hi - q1 * n : n - 1n;
      return mkInt(cls, q1 === q2 ? less(q1) : T.ite(T.ult(xt, T.bv(q2 * n, w)), less(q1), less(q2)), l, h);
    }
  }
  const t = x.lo >= 0n && y.lo >= 0n ? T.urem(resize(x.t, w), resize(y.t, w)) : T.srem(resize(x.t, w), resize(y.t, w));
  return mkInt(cls, resize(t, Math.max(w, wFor(lo, hi))), lo, hi);
};
rt.pow = (a, b) => {
  if (isPrim(a) && isPrim(b)) return a ** b;
  if (isSym(b)) b = rt.concretize(b);
  if (!isSym(a)) return a ** b;
  let n = Number(b); if (n < 0 || n > 8) unsupported("power");
  let r = typeof b === "bigint" ? 1n : 1; while (n-- > 0) r = rt.mul(r, a); return r;
};
rt.neg = (a) => {
  if (isPrim(a)) return -a;
  a = numeric(prim(a, "number"));
  if (!isSym(a)) return -a;
  if (a instanceof SymFrac) return mkFrac(rt.neg(a.n), a.d);
  if (a instanceof SymF64) unsupported("negation of an opaque double");
  const r = subI(iv(0), a); return mkInt(a.constructor, r.t, r.lo, r.hi);
};
rt.inc = (a) => isSym(a) ? rt.add(a, a instanceof SymBig ? 1n : 1) : ++a;
rt.dec = (a) => isSym(a) ? rt.sub(a, a instanceof SymBig ? 1n : 1) : --a;
rt.post = (old, _new) => isPrim(old) && typeof old !== "bigint" ? Number(old) : old;
rt.postp = (o, k, name) => { const old = rt.get(o, k); rt.set(o, k, rt[name](old)); return old; };
rt.updp = (o, k, f) => { const v = f(rt.get(o, k)); rt.set(o, k, v); return v; };
rt.toNum = (a) => isSym(a) || !isPrim(a) ? models.Number(a) : +a;
// to int32 term
function int32(v) {
  v = numeric(prim(v, "number"));
  if (v === undefined || nonFinite(v)) return { t: T.bv(0, 32), lo: 0n, hi: 0n };
  if (v instanceof SymFrac) v = rt.trunc(v);
  if (isFracNum(v)) v = Math.trunc(v);
  if (typeof v === "number") { const i = v | 0; return { t: T.bv(i, 32), lo: BigInt(i), hi: BigInt(i) }; }
  const x = iv(v);
  const t = resize(x.t, 32);
  if (x.lo >= -(1n << 31n) && x.hi < 1n << 31n) return { t, lo: x.lo, hi: x.hi };
  return { t, lo: -(1n << 31n), hi: (1n << 31n) - 1n };
}
const isBig = (v) => typeof v === "bigint" || v instanceof SymBig;
function bitI(name, a, b) {
  a = numeric(prim(a, "number")); b = numeric(prim(b, "number"));
  let x, y, cls = SymNum;
  if (isBig(a) || isBig(b)) { cls = clsOf(a, b); x = iv(a); y = iv(b); } else { x = int32(a); y = int32(b); }
  const w = Math.max(x.t.w, y.t.w, wFor(x.lo, x.hi), wFor(y.lo, y.hi));
  const t = T[name](resize(x.t, w), resize(y.t, w));
  let lo, hi;
  const full = (v) => (1n << BigInt(v.toString(2).length)) - 1n;
  if (name === "bvand" && (x.lo >= 0n || y.lo >= 0n)) { lo = 0n; hi = x.lo >= 0n && y.lo >= 0n ? min(x.hi, y.hi) : x.lo >= 0n ? x.hi : y.hi; }
  else if (x.lo >= 0n && y.lo >= 0n) { lo = name === "bvor" ? max(x.lo, y.lo) : 0n; hi = full(max(x.hi, y.hi)); }
  else { const ww = Math.max(wFor(x.lo, x.hi), wFor(y.lo, y.hi)); lo = -(1n << BigInt(ww - 1)); hi = (1n << BigInt(ww - 1)) - 1n; }
  return mkInt(cls, resize(t, Math.max(w, wFor(lo, hi))), lo, hi);
}
rt.and = (a, b) => isPrim(a) && isPrim(b) ? a & b : bitI("bvand", a, b);
rt.or = (a, b) => isPrim(a) && isPrim(b) ? a | b : bitI("bvor", a, b);
rt.xor = (a, b) => isPrim(a) && isPrim(b) ? a ^ b : bitI("bvxor", a, b);
rt.bnot = (a) => { if (isPrim(a)) return ~a; a = numeric(prim(a, "number")); return isBig(a) ? rt.sub(rt.neg(a), 1n) : rt.sub(rt.neg(num(int32(a).t, int32(a).lo, int32(a).hi)), 1); };
rt.shl = (a, b) => {
  if (isPrim(a) && isPrim(b)) return a << b;
  a = numeric(prim(a, "number")); b = numeric(prim(b, "number"));
  if (isBig(a) || isBig(b)) {
    clsOf(a, b);
    if (isSym(b)) b = rt.concretize(b);
    if (!isSym(a)) return a << b;
    if (b < 0n) return rt.sar(a, -b);
    return rt.mul(a, 1n << b);
  }
  const x = int32(a);
  if (isSym(b)) { const y = int32(b); return num(T.shl(x.t, T.zext(T.extract(4, 0, y.t), 32)), -(1n << 31n), (1n << 31n) - 1n); }
  const k = Number(b) & 31;
  const lo = x.lo << BigInt(k), hi = x.hi << BigInt(k);
  if (lo >= -(1n << 31n) && hi < 1n << 31n) return num(T.shl(x.t, T.bv(k, 32)), lo, hi);
  return num(T.shl(x.t, T.bv(k, 32)), -(1n << 31n), (1n << 31n) - 1n);
};
rt.sar = (a, b) => {
  if (isPrim(a) && isPrim(b)) return a >> b;
  a = numeric(prim(a, "number")); b = numeric(prim(b, "number"));
  if (isBig(a) || isBig(b)) {
    clsOf(a, b);
    if (isSym(b)) b = rt.concretize(b);
    if (!isSym(a)) return a >> b;
    if (b < 0n) return rt.shl(a, -b);
    const lo = a.lo >> b, hi = a.hi >> b;
    return mkInt(SymBig, T.ashr(a.t, T.bv(min(b, BigInt(a.t.w - 1)), a.t.w)), lo, hi);
  }
  const x = int32(a);
  if (isSym(b)) { const y = int32(b); return num(T.ashr(x.t, T.zext(T.extract(4, 0, y.t), 32)), min(x.lo, 0n), max(x.hi, 0n)); }
  const k = Number(b) & 31;
  return num(T.ashr(x.t, T.bv(k, 32)), x.lo >> BigInt(k), x.hi >> BigInt(k));
};
rt.shr = (a, b) => {
  if (isPrim(a) && isPrim(b)) return a >>> b;
  a = numeric(prim(a, "number")); b = numeric(prim(b, "number"));
  if (isBig(a) || isBig(b)) throw new TypeError("BigInts have no unsigned right shift, use >> instead");
  const x = int32(a), lo = x.lo >= 0n ? x.lo : 0n, hi = x.lo >= 0n ? x.hi : (1n << 32n) - 1n;
  if (isSym(b)) { const y = int32(b); return num(T.zext(T.lshr(x.t, T.zext(T.extract(4, 0, y.t), 32)), 33), 0n, hi); }
  const k = Number(b) & 31;
  return num(T.zext(T.lshr(x.t, T.bv(k, 32)), 33), lo >> BigInt(k), hi >> BigInt(k));
};
// ------------------------------------------------------------ comparison
function strLess(a, b) { // code unit order
  a = Str.of(a); b = Str.of(b);
  const n = Math.min(a.u.length, b.u.length);
  let r = bt(a.u.length < b.u.length);
  for (let i = n - 1; i >= 0; i--) r = T.ite(bt(rt.seq(a.u[i], b.u[i])), r, bt(rt.lt(a.u[i], b.u[i])));
  return mkBool(r);
}
rt.lt = (a, b) => {
  if (isPrim(a) && isPrim(b)) return a < b;
  a = prim(a, "number"); b = prim(b, "number");
  if (!isSym(a) && !isSym(b)) return a < b;
  if (isStr(a) && isStr(b)) return strLess(a, b);
  if (a.digitsOf && Number.isInteger(b)) return mkBool(fewerDigits(a.digitsOf, b));
  if (b?.digitsOf && Number.isInteger(a)) return mkBool(T.not(fewerDigits(b.digitsOf, a + 1)));
  return lessThan(numeric(a), numeric(b));
};
// a number has fewer than k binary digits (its sign counts) iff it is below a power of two
function fewerDigits({ a, neg }, k) {
  const below = (k) => k < 1 ? T.bool(false) : k - 1 >= a.w ? T.bool(true) : k === 1 ? T.bool(false) : T.ult(a, T.bv(1n << BigInt(k - 1), a.w));
  return T.ite(neg, below(k - 1), below(k));
}
rt.gt = (a, b) => isPrim(a) && isPrim(b) ? a > b : rt.lt(b, a);
const nanish = (v) => v === undefined || typeof v === "number" && Number.isNaN(v);
rt.le = (a, b) => {
  if (isPrim(a) && isPrim(b)) return a <= b;
  a = prim(a, "number"); b = prim(b, "number");
  if (!isSym(a) && !isSym(b)) return a <= b;
  if (nanish(a) || nanish(b)) return false;
  return rt.not(rt.lt(b, a));
};
rt.ge = (a, b) => isPrim(a) && isPrim(b) ? a >= b : rt.le(b, a);
rt.seq = (a, b) => {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a === b;
  if (a === b) { if (a instanceof SymF64) unsupported("equality of opaque doubles"); return true; }
  if (isStr(a)) { if (!isStr(b)) return false; const q = intStrEq(a, b); if (q !== undefined) return mkBool(q); if (a.length !== b.length) return false; return mkBool(Str.of(a).eqAt(0, Str.of(b))); }
  if (isStr(b)) return false;
  if (a instanceof SymBool || b instanceof SymBool) return boolish(a) && boolish(b) ? mkBool(T.eq(bt(a), bt(b))) : false;
  const bigA = isBig(a), bigB = isBig(b);
  const nA = typeof a === "number" || a instanceof Sym && !bigA, nB = typeof b === "number" || b instanceof Sym && !bigB;
  if (!(bigA && bigB || nA && nB)) return false;
  if (a instanceof SymF64 || b instanceof SymF64) unsupported("equality of an opaque double");
  if (nonFinite(a) || nonFinite(b)) return false;
  if (isF(a) || isF(b)) { const x = fv(a), y = fv(b); return mkBool(cmpEq(mulI(x.n, iv(y.d)), mulI(y.n, iv(x.d)))); }
  return mkBool(cmpEq(iv(a), iv(b)));
};
rt.sne = (a, b) => { const r = rt.seq(a, b); return typeof r === "boolean" ? !r : mkBool(T.not(r.t)); };
rt.eq = (a, b) => {
  if (!(a instanceof Sym) && !(b instanceof Sym)) { if (isPrim(a) !== isPrim(b) && a != null && b != null) { a = prim(a); b = prim(b); if (isSym(a) || isSym(b)) return rt.eq(a, b); } return a == b; }
  if (a === null || a === undefined || b === null || b === undefined) return false;
  a = prim(a); b = prim(b);
  if (isStr(a) && isStr(b)) return rt.seq(a, b);
  a = numeric(a); b = numeric(b);
  if (nonFinite(a) || nonFinite(b)) return false;
  return mkBool(cmpEq(iv(a), iv(b)));
};
rt.ne = (a, b) => rt.not(rt.eq(a, b));
rt.sw = (v, cases) => {
  for (let i = 0; i < cases.length; i++) { const c = cases[i](); if (rt.cond(rt.seq(v, c))) return i; }
  return -1;
};
rt.tpl = (strs, vals) => {
  let sym = false;
  const parts = [strs[0]];
  for (let i = 0; i < vals.length; i++) {
    let v = vals[i];
    if (!isPrim(v)) { if (typeof v === "symbol") throw new TypeError("Cannot convert a Symbol value to a string"); v = rt.str(v); if (isSym(v)) sym = true; }
    parts.push(v, strs[i + 1]);
  }
  if (!sym) { let s = ""; for (const p of parts) s += p; return s; }
  return Str.join(parts.map((p) => rt.str(p)));
};
// enumerate the values of v along this path (forks)
rt.concretize = (v, limit = 4096) => {
  if (!isSym(v)) return v;
  if (v instanceof SymBool) return rt.cond(v);
  if (v instanceof Str) return String.fromCharCode(...v.u.map((c) => rt.concretize(c)));
  if (!(v instanceof SymInt)) unsupported("enumeration of " + S.typeName(v));
  if (E.speculating) throw SPEC;
  if (v.hi - v.lo <= 16n) {
    for (let k = v.lo; k < v.hi; k++) { const c = v instanceof SymBig ? k : Number(k); if (C.fork(cmpEq(v, iv(c)))) return c; }
    return v instanceof SymBig ? v.hi : Number(v.hi);
  }
  for (let n = 0; n < limit; n++) {
    // the candidate comes from a solver model; it is recorded so that re-execution picks the same one
    let cand;
    C.checkDead();
    if (E.pos < E.events.length) { const ev = E.events[E.pos]; if (ev.kind !== "c") unsupported("nondeterministic enumeration"); E.pos++; cand = ev.cand; }
    else { cand = T.toSigned(modelValue(v.t), v.t.w); C.pushEvent({ kind: "c", term: T.TRUE, value: true, alt: false, cand }); }
    const c = v instanceof SymBig ? cand : Number(cand);
    if (C.fork(cmpEq(v, iv(c)))) return c;
  }
  unsupported("more than " + limit + " values of a symbolic number");
};
function modelValue(t) { E.solver.push(); T.ref(t, E.solver.emit); const r = E.solver.check(); if (r !== "sat") unsupported("no model"); const v = E.solver.values([t]).get(t); E.solver.pop(); return v; }
rt.concInt = (v, lo, hi) => {
  if (v === undefined) return 0;
  if (!isSym(v)) { v = Number(v); return Number.isNaN(v) ? 0 : Math.trunc(v); }
  if (v instanceof Str) return rt.concInt(numeric(v), lo, hi);
  if (v instanceof SymFrac) v = rt.trunc(v);
  if (!isSym(v)) return v;
  if (rt.cond(rt.lt(v, lo))) return lo - 1;
  if (rt.cond(rt.gt(v, hi))) return hi + 1;
  for (let k = lo; k < hi; k++) if (rt.cond(rt.seq(v, k))) return k;
  return hi;
};
// ------------------------------------------------------------ members
const intKey = /^(0|-?[1-9]\d*)$/;
// equality with the decimal form of an integer, without looking at its digits
function intStrEq(a, b) {
  const x = a instanceof S.LazyStr && a.pending ? a.origin : null, y = b instanceof S.LazyStr && b.pending ? b.origin : null;
  if (x && y) return cmpEq(iv(x), iv(y));
  if (x && typeof b === "string") return intKey.test(b) && b !== "-0" ? cmpEq(iv(x), iv(BigInt(b))) : T.FALSE;
  if (y && typeof a === "string") return intKey.test(a) && a !== "-0" ? cmpEq(iv(y), iv(BigInt(a))) : T.FALSE;
}
function keyEq(k, cand) {
  if (typeof cand === "string" && k instanceof Str) { const q = intStrEq(k, cand); if (q !== undefined) return q; }
  if (k instanceof Str) return k.length === cand.length ? k.eqAt(0, Str.of(cand)) : T.FALSE;
  if (k instanceof SymInt) return intKey.test(cand) ? cmpEq(k, iv(BigInt(cand))) : T.FALSE;
  if (k instanceof SymBool) return cand === "true" ? k.t : cand === "false" ? T.not(k.t) : T.FALSE;
  unsupported("key " + S.typeName(k));
}
function propNames(o) { const s = new Set(); for (let p = o; p !== null && p !== undefined; p = Object.getPrototypeOf(p)) for (const k of Object.getOwnPropertyNames(p)) s.add(k); return [...s]; }
// the existing property name equal to symbolic key k, or undefined
function pickKey(o, k) {
  const names = propNames(o);
  const cands = names.map((n) => [n, keyEq(k, n)]).filter(([, t]) => t !== T.FALSE);
  if (!cands.length) return undefined;
  if (cands.length > 8) { if (!C.fork(T.or(...cands.map((c) => c[1])))) return undefined; }
  const split = (list, exhaustive) => {
    if (list.length === 1) return exhaustive || C.fork(list[0][1]) ? list[0][0] : undefined;
    const m = list.length >> 1;
    const left = list.slice(0, m), right = list.slice(m);
    if (C.fork(T.or(...left.map((c) => c[1])))) return split(left, true);
    return split(right, exhaustive);
  };
  return cands.length > 8 ? split(cands, true) : (() => { for (const [n, t] of cands) if (C.fork(t)) return n; return undefined; })();
}
rt.get = (o, k) => {
  if (o === null || o === undefined) return o[isSym(k) ? "?" : k];
  if (k instanceof Sym) {
    if (o instanceof U8) { if (k instanceof SymInt) return o.getAt(k); return undefined; }
    if (isStr(o)) { if (k instanceof SymInt) { const s = Str.of(o); if (!rt.cond(rt.landv(rt.ge(k, 0), rt.lt(k, s.length)))) return undefined; return Str.norm([select(s.u, narrow(k, 0n, BigInt(s.length - 1)))]); } unsupported("string key"); }
    if (Array.isArray(o) && k instanceof SymInt) {
      if (!rt.cond(rt.landv(rt.ge(k, 0), rt.lt(k, o.length)))) return undefined;
      return select(o, narrow(k, 0n, BigInt(o.length - 1)));
    }
    if (k instanceof SymFrac) { if (rt.cond(rt.not(models.Number.isInteger(k)))) return undefined; return rt.get(o, rt.trunc(k)); }
    const n = pickKey(Object(o), k);
    return n === undefined ? undefined : o[n];
  }
  if (o instanceof U8 && (typeof k === "number" || typeof k === "string" && intKey.test(k))) return o.getAt(Number(k));
  if (o instanceof Str) return typeof k === "number" || typeof k === "string" && intKey.test(k) ? (k >= 0 && k < o.u.length ? Str.norm([o.u[k]]) : undefined) : o[k];
  if (typeof k === "bigint") k = String(k);
  return o[k];
};
function select(arr, k) {
  if (!isSym(k)) return arr[k];
  const lo = Number(k.lo), hi = Number(k.hi);
  let r = arr[lo];
  for (let i = lo + 1; i <= hi; i++) { const m = merge(cmpEq(k, iv(i)), arr[i], r); if (m === SPEC) { const c = rt.concretize(k); return arr[c]; } r = m; }
  return r;
}
rt.set = (o, k, v) => {
  if (o instanceof U8 && (typeof k === "number" || k instanceof SymInt || typeof k === "string" && intKey.test(k))) { o.setAt(typeof k === "string" ? Number(k) : k, v); return v; }
  if (k instanceof Sym) {
    if (Array.isArray(o)) k = rt.concInt(k, 0, o.length);
    else { const n = pickKey(o, k); if (n !== undefined) k = n; else unsupported("new property with a symbolic name"); }
  }
  if (k === "length" && isSym(v) && Array.isArray(o)) v = rt.concInt(v, 0, o.length);
  o[k] = v;
  return v;
};
rt.isin = (k, o) => {
  if (k instanceof Sym) { if (Array.isArray(o) && k instanceof SymInt) return rt.landv(rt.ge(k, 0), rt.lt(k, o.length)); return pickKey(o, k) !== undefined; }
  if (o instanceof Sym) throw new TypeError("Cannot use 'in' operator");
  if (o instanceof U8 && intKey.test(String(k))) return rt.lt(Number(k), o.n);
  return k in o;
};
rt.iter = (o) => o;
const anySym = (args) => { for (let i = 0; i < args.length; i++) if (args[i] instanceof Sym) return true; return false; };
// ------------------------------------------------------------ arrays
const ARR = {
  some(f, th) { for (let i = 0; i < this.length; i++) if (i in this && rt.cond(f.call(th, this[i], i, this))) return true; return false; },
  every(f, th) { for (let i = 0; i < this.length; i++) if (i in this && !rt.cond(f.call(th, this[i], i, this))) return false; return true; },
  filter(f, th) { const r = []; for (let i = 0; i < this.length; i++) if (i in this) { const x = this[i]; if (rt.cond(f.call(th, x, i, this))) r.push(x); } return r; },
  find(f, th) { for (let i = 0; i < this.length; i++) { const x = this[i]; if (rt.cond(f.call(th, x, i, this))) return x; } return undefined; },
  findIndex(f, th) { for (let i = 0; i < this.length; i++) if (rt.cond(f.call(th, this[i], i, this))) return i; return -1; },
  findLast(f, th) { for (let i = this.length - 1; i >= 0; i--) { const x = this[i]; if (rt.cond(f.call(th, x, i, this))) return x; } return undefined; },
  findLastIndex(f, th) { for (let i = this.length - 1; i >= 0; i--) if (rt.cond(f.call(th, this[i], i, this))) return i; return -1; },
  includes(v, p = 0) { for (let i = p < 0 ? Math.max(0, this.length + p) : p; i < this.length; i++) if (rt.cond(rt.sameZero(this[i], v))) return true; return false; },
  indexOf(v, p = 0) { for (let i = p < 0 ? Math.max(0, this.length + p) : p; i < this.length; i++) if (i in this && rt.cond(rt.seq(this[i], v))) return i; return -1; },
  lastIndexOf(v) { for (let i = this.length - 1; i >= 0; i--) if (i in this && rt.cond(rt.seq(this[i], v))) return i; return -1; },
  join(sep = ",") { let r = ""; for (let i = 0; i < this.length; i++) { if (i) r = rt.add(r, sep); const x = this[i]; if (x !== null && x !== undefined) r = rt.add(r, rt.str(x)); } return r; },
  sort(f) {
    if (f === undefined) { if (anySym(this)) f = (a, b) => rt.cond(rt.lt(rt.str(a), rt.str(b))) ? -1 : rt.cond(rt.lt(rt.str(b), rt.str(a))) ? 1 : 0; else return Array.prototype.sort.call(this); }
    const ms = (a) => { if (a.length < 2) return a; const m = a.length >> 1, l = ms(a.slice(0, m)), r = ms(a.slice(m)), o = []; let i = 0, j = 0; while (i < l.length && j < r.length) { if (rt.cond(rt.gt(numeric(f(l[i], r[j])), 0))) o.push(r[j++]); else o.push(l[i++]); } while (i < l.length) o.push(l[i++]); while (j < r.length) o.push(r[j++]); return o; };
    const o = ms(this.slice()); for (let i = 0; i < o.length; i++) this[i] = o[i]; return this;
  },
  toSorted(f) { return ARR.sort.call(this.slice(), f); },
};
rt.sameZero = (a, b) => !(a instanceof Sym) && !(b instanceof Sym) ? a === b || (a !== a && b !== b) : rt.seq(a, b);
const IDX = { at: [0], slice: [0, 1], splice: [0, 1], fill: [1, 2], with: [0] };
const ITER = { some: 1, every: 1, filter: 1, find: 1 };
const IteratorProto = Object.getPrototypeOf(Object.getPrototypeOf([][Symbol.iterator]()));
function isIter(o) { return IteratorProto.isPrototypeOf(o); }
rt.callm = (o, name, args) => {
  if (name instanceof Sym) { const n = pickKey(Object(o), name); name = n === undefined ? "undefined" : n; }
  if (typeof o === "string") {
    if (anySym(args) || typeof args[1] === "function") { if (Str.prototype[name]) return Str.prototype[name].apply(Str.of(o), args); unsupported("string method " + name); }
    return o[name](...args);
  }
  if (o !== null && typeof o === "object") {
    if (o instanceof Str) { const f = Str.prototype[name] && o[name]; if (!f) unsupported("string method " + name); const r = f.apply(o, args); return r; }
    if (Array.isArray(o)) {
      const f = ARR[name];
      if (f && o[name] === Array.prototype[name]) return f.apply(o, args);
      const ix = IDX[name];
      if (ix && anySym(args)) for (const i of ix) if (isSym(args[i])) args[i] = rt.concInt(args[i], -o.length, o.length);
    } else if (o instanceof RegExp) {
      if (args[0] instanceof Str) {
        if (name === "test") return rt.regexExec(o, args[0]) !== null;
        if (name === "exec") return rt.regexExec(o, args[0]);
        unsupported("RegExp." + name);
      }
    } else if (ITER[name] && isIter(o)) {
      if (name === "filter") return ARR.filter.call([...o], args[0]).values();
      return ARR[name].call([...o], args[0]);
    } else if (o instanceof SymBool && name === "toString") return rt.str(o);
  } else if (typeof o === "number" && anySym(args)) unsupported("number method " + name);
  if (name === "hasOwnProperty" && args[0] instanceof Sym) { const n = pickKey(o, args[0]); return n !== undefined && Object.hasOwn(o, n); }
  const f = o[name];
  if (typeof f !== "function") { if (f instanceof Object) return f(...args); throw new TypeError(`${describe(o)}.${String(name)} is not a function`); }
  return f.apply(o, args);
};
function describe(o) { return o === null ? "null" : typeof o === "object" ? o.constructor?.name ?? "object" : typeof o; }
// ------------------------------------------------------------ numbers
rt.trunc = (v) => {
  if (!isSym(v)) return Math.trunc(v);
  if (v instanceof SymInt) return v;
  if (v instanceof SymFrac) { const n = iv(v.n); if (n.lo >= 0n) { const q = floorDivI(n, v.d); return num(q.t, q.lo, q.hi); } return rt.cond(rt.lt(v.n, 0)) ? rt.neg(rt.trunc(mkFrac(rt.neg(narrow(v.n, n.lo, -1n)), v.d))) : rt.trunc(mkFrac(narrow(v.n, 0n, n.hi), v.d)); }
  unsupported("trunc of " + S.typeName(v));
};
rt.floor = (v) => {
  if (!isSym(v)) return Math.floor(v);
  if (v instanceof SymInt) return v;
  if (v instanceof SymFrac) { const q = floorDivI(iv(v.n), v.d); return num(q.t, q.lo, q.hi); }
  unsupported("floor of " + S.typeName(v));
};
const models = {};
rt.models = models;
const unary = (f) => (v) => { if (v instanceof Str) v = numeric(v); return f(v); };
models.Math = Object.assign(Object.create(Math), {
  floor: unary(rt.floor), trunc: unary(rt.trunc),
  ceil: unary((v) => isSym(v) ? rt.neg(rt.floor(rt.neg(v))) : Math.ceil(v)),
  round: unary((v) => isSym(v) ? (v instanceof SymInt ? v : rt.floor(rt.add(v, 0.5))) : Math.round(v)),
  abs: unary((v) => isSym(v) ? (v instanceof SymFrac ? (rt.cond(rt.lt(v, 0)) ? rt.neg(v) : v) : (() => { const n = rt.neg(v), lo = v.lo >= 0n ? v.lo : v.hi <= 0n ? -v.hi : 0n, hi = max(v.hi, -v.lo); const m = rt.itev(rt.lt(v, 0), n, v); return narrow(m, lo, hi); })()) : Math.abs(v)),
  sign: unary((v) => isSym(v) ? rt.itev(rt.lt(v, 0), -1, rt.itev(rt.gt(v, 0), 1, 0)) : Math.sign(v)),
  max: (...xs) => { if (!anySym(xs)) return Math.max(...xs); return xs.reduce((a, b) => mm(rt.lt(a, b), a, b, true)); },
  min: (...xs) => { if (!anySym(xs)) return Math.min(...xs); return xs.reduce((a, b) => mm(rt.lt(b, a), a, b, false)); },
  pow: (a, b) => rt.pow(a, b),
  random: () => E.env.random(),
  imul: (a, b) => { if (!isSym(a) && !isSym(b)) return Math.imul(a, b); return num(T.mul(int32(a).t, int32(b).t), -(1n << 31n), (1n << 31n) - 1n); },
  clz32: (a) => isSym(a) ? unsupported("clz32") : Math.clz32(a),
  log2: (a) => isSym(a) ? unsupported("log2") : Math.log2(a),
  sqrt: (a) => isSym(a) ? unsupported("sqrt") : Math.sqrt(a),
  log: (a) => isSym(a) ? unsupported("log") : Math.log(a),
});
function mm(c, a, b, isMax) { // c: choose b
  if (typeof c === "boolean") return c ? b : a;
  if (nonFinite(a)) return isMax ? (a > 0 ? a : b) : (a > 0 ? b : a);
  if (nonFinite(b)) return isMax ? (b > 0 ? b : a) : (b > 0 ? a : b);
  const m = merge(c.t, b, a);
  if (m === SPEC) return rt.cond(c) ? b : a;
  if (m instanceof SymInt) { const x = iv(a), y = iv(b); return isMax ? narrow(m, max(x.lo, y.lo), max(x.hi, y.hi)) : narrow(m, min(x.lo, y.lo), min(x.hi, y.hi)); }
  return m;
}
function NumberM(v) {
  if (new.target) return new Number(NumberM(v));
  if (arguments.length === 0) return 0;
  if (!isPrim(v)) v = prim(v, "number");
  if (v instanceof SymBig) return mkInt(SymNum, v.t, v.lo, v.hi);
  if (v instanceof Str) return numeric(v);
  if (v instanceof SymBool) return numeric(v);
  return isSym(v) ? v : Number(v);
}
Object.setPrototypeOf(NumberM, Number);
NumberM.prototype = Number.prototype;
NumberM.isInteger = (v) => v instanceof SymNum ? true : v instanceof SymFrac ? mkBool((() => { const n = iv(v.n), w = Math.max(n.t.w, wFor(v.d, v.d)) + 1; return T.eq(T.srem(resize(n.t, w), T.bv(v.d, w)), T.bv(0, w)); })()) : v instanceof SymF64 ? unsupported("isInteger of a double") : Number.isInteger(v);
NumberM.isSafeInteger = (v) => v instanceof SymNum ? rt.landv(rt.ge(v, Number.MIN_SAFE_INTEGER), rt.le(v, Number.MAX_SAFE_INTEGER)) : isSym(v) ? NumberM.isInteger(v) : Number.isSafeInteger(v);
NumberM.isFinite = (v) => v instanceof SymNum || v instanceof SymFrac ? true : v instanceof Sym ? (v instanceof SymF64 ? unsupported("isFinite of a double") : false) : Number.isFinite(v);
NumberM.isNaN = (v) => v instanceof SymF64 ? unsupported("isNaN of a double") : v instanceof Sym ? false : Number.isNaN(v);
models.Number = NumberM;
models.isNaN = (v) => Number.isNaN(isSym(v) ? (v instanceof Str ? numeric(v) : 0) : Number(v));
models.isFinite = (v) => isSym(v) ? NumberM.isFinite(NumberM(v)) : isFinite(v);
models.parseInt = function (v, radix) {
  if (!isSym(v) && !isSym(radix)) return parseInt(v, radix);
  if (isSym(radix)) radix = rt.concretize(radix);
  if (v instanceof SymInt) return radix === undefined || radix === 10 ? NumberM(v) : unsupported("parseInt of a number with a radix");
  if (v instanceof SymFrac) return rt.trunc(v);
  let s = Str.of(Str.of(v).trimStart()), i = 0, neg = false;
  radix = radix || 10;
  if (s.length && rt.cond(rt.seq(s.u[0], 45))) { neg = true; i++; } else if (s.length && rt.cond(rt.seq(s.u[0], 43))) i++;
  if (arguments.length < 2 && i + 1 < s.length && rt.cond(rt.seq(s.u[i], 48)) && rt.cond(rt.lorv(rt.seq(s.u[i + 1], 120), rt.seq(s.u[i + 1], 88)))) { radix = 16; i += 2; }
  else if (radix === 16 && i + 1 < s.length && rt.cond(rt.landv(rt.seq(s.u[i], 48), rt.lorv(rt.seq(s.u[i + 1], 120), rt.seq(s.u[i + 1], 88))))) i += 2;
  let r = 0, any = false;
  const whole = radix === 10 ? Str.ofDigits(s.u, i) : undefined;
  if (whole !== undefined) { const x = isBig(whole) ? rt.toNum(whole) : whole; return neg ? rt.neg(x) : x; }
  for (; i < s.length; i++) {
    const c = s.u[i];
    let d;
    const dec = rt.landv(rt.ge(c, 48), rt.le(c, 47 + Math.min(10, radix)));
    if (radix > 10 && isSym(c)) {
      const low = rt.landv(rt.ge(c, 97), rt.lt(c, 87 + radix)), up = rt.landv(rt.ge(c, 65), rt.lt(c, 55 + radix));
      if (!rt.cond(rt.lorv(dec, rt.lorv(low, up)))) break;
      d = narrow(rt.itev(dec, rt.sub(c, 48), rt.itev(low, rt.sub(c, 87), rt.sub(c, 55))), 0n, BigInt(radix - 1));
    } else if (rt.cond(rt.landv(rt.ge(c, 48), rt.le(c, 47 + Math.min(10, radix))))) d = narrow(rt.sub(c, 48), 0n, 9n);
    else if (radix > 10 && rt.cond(rt.landv(rt.ge(c, 97), rt.lt(c, 87 + radix)))) d = narrow(rt.sub(c, 87), 10n, 35n);
    else if (radix > 10 && rt.cond(rt.landv(rt.ge(c, 65), rt.lt(c, 55 + radix)))) d = narrow(rt.sub(c, 55), 10n, 35n);
    else break;
    r = rt.add(rt.mul(r, radix), d); any = true;
  }
  return any ? neg ? rt.neg(r) : r : NaN;
};
NumberM.parseInt = models.parseInt;
models.parseFloat = (v) => isSym(v) ? unsupported("parseFloat") : parseFloat(v);
NumberM.parseFloat = models.parseFloat;
rt.toBig = (v) => models.BigInt(v);
models.BigInt = function BigIntM(v) {
  if (!isPrim(v)) v = prim(v, "number");
  if (v instanceof SymNum) return mkInt(SymBig, v.t, v.lo, v.hi);
  if (v instanceof SymBig) return v;
  if (v instanceof SymBool) return mkInt(SymBig, iv(v).t, 0n, 1n);
  if (v instanceof SymFrac) { if (!rt.cond(NumberM.isInteger(v))) throw new RangeError("The number cannot be converted to a BigInt because it is not an integer"); return models.BigInt(rt.trunc(v)); }
  if (v instanceof Str) { const r = Str.parseDec(v, false); if (r === null) throw new SyntaxError("Cannot convert to a BigInt"); return r; }
  if (isSym(v)) unsupported("BigInt of " + S.typeName(v));
  return BigInt(v);
};
Object.setPrototypeOf(models.BigInt, BigInt);
models.BigInt.prototype = BigInt.prototype;
models.BigInt.asUintN = (n, v) => { n = Number(n); if (!isSym(v)) return BigInt.asUintN(n, v); if (n === 0) return 0n; const x = iv(v); const t = x.t.w >= n ? T.extract(n - 1, 0, x.t) : T.sext(x.t, n); return mkInt(SymBig, T.zext(t, n + 1), 0n, T.mask(n)); };
models.BigInt.asIntN = (n, v) => { n = Number(n); if (!isSym(v)) return BigInt.asIntN(n, v); if (n === 0) return 0n; const x = iv(v); const t = x.t.w >= n ? T.extract(n - 1, 0, x.t) : T.sext(x.t, n); return mkInt(SymBig, t, -(1n << BigInt(n - 1)), (1n << BigInt(n - 1)) - 1n); };
models.String = function StringM(v) { if (new.target) return new String(v); if (arguments.length === 0) return ""; if (typeof v === "symbol") return String(v); return rt.str(v); };
Object.setPrototypeOf(models.String, String);
models.String.prototype = String.prototype;
models.String.fromCharCode = (...xs) => anySym(xs) ? Str.norm(xs.map((x) => isSym(x) ? num(T.zext(T.extract(15, 0, resize(iv(x).t, Math.max(16, iv(x).t.w))), 17), 0n, 65535n) : x & 65535)) : String.fromCharCode(...xs);
models.String.fromCodePoint = (...xs) => { if (!anySym(xs)) return String.fromCodePoint(...xs); let u = []; for (const x of xs) { if (rt.cond(rt.lt(x, 0)) || rt.cond(rt.gt(x, 0x10FFFF))) throw new RangeError("Invalid code point"); if (rt.cond(rt.lt(x, 0x10000))) u.push(narrow(x, 0n, 65535n)); else { const y = rt.sub(x, 0x10000); u.push(narrow(rt.add(0xD800, rt.shr(y, 10)), 0xD800n, 0xDBFFn), rt.add(0xDC00, rt.and(y, 0x3FF))); } } return Str.norm(u); };
models.Boolean = function BooleanM(v) { if (v instanceof SymBool) return v; if (v instanceof SymInt) return rt.not(rt.not(v)); return rt.cond(v); };
models.Boolean.prototype = Boolean.prototype;
models.Array = function ArrayM(...a) {
  if (a.length === 1 && a[0] instanceof SymInt) {
    const n = a[0];
    if (rt.cond(rt.lt(n, 0)) || rt.cond(rt.gt(n, 4294967295))) throw new RangeError("Invalid array length");
    if (E.allocLimit !== undefined) C.assertTerm(bt(rt.le(n, E.allocLimit)), "allocates out of proportion to its input");
    return []; // grows by assignment; its length is only right once filled
  }
  if (E.allocLimit !== undefined && a.length === 1 && typeof a[0] === "number" && a[0] > E.allocLimit) rt.allocTooBig();
  return new Array(...a);
};
Object.setPrototypeOf(models.Array, Array);
models.Array.prototype = Array.prototype;
models.Array.from = (x, f, th) => {
  if (x !== null && typeof x === "object" && !x[Symbol.iterator] && x.length instanceof SymInt) { const n = rt.concretize(x.length, 64); return Array.from({ length: n }, f, th); }
  return Array.from(x, f, th);
};
models.Array.isArray = Array.isArray; models.Array.of = Array.of; models.Array.fromAsync = Array.fromAsync;
Object.defineProperty(models.Array, Symbol.hasInstance, { value: (v) => Array.isArray(v) });
// ------------------------------------------------------------ collections
function findKey(coll, k) {
  for (const k2 of Map.prototype.keys.call(coll)) if (rt.cond(rt.sameZero(k2, k))) return k2;
  return NOKEY;
}
const NOKEY = Symbol("nokey");
class SMap extends Map {
  get(k) { if (!this._s && !isSym(k)) return super.get(k); const f = findKey(this, k); return f === NOKEY ? undefined : super.get(f); }
  has(k) { if (!this._s && !isSym(k)) return super.has(k); return findKey(this, k) !== NOKEY; }
  set(k, v) { if (!this._s && !isSym(k)) return super.set(k, v); const f = findKey(this, k); if (f === NOKEY) { if (isSym(k)) Object.defineProperty(this, "_s", { value: true, configurable: true }); return super.set(k, v); } return super.set(f, v); }
  delete(k) { if (!this._s && !isSym(k)) return super.delete(k); const f = findKey(this, k); return f === NOKEY ? false : super.delete(f); }
}
class SSet extends Set {
  fk(k) { for (const k2 of Set.prototype.keys.call(this)) if (rt.cond(rt.sameZero(k2, k))) return k2; return NOKEY; }
  has(k) { if (!this._s && !isSym(k)) return super.has(k); return this.fk(k) !== NOKEY; }
  add(k) { if (!this._s && !isSym(k)) return super.add(k); const f = this.fk(k); if (f === NOKEY) { if (isSym(k)) Object.defineProperty(this, "_s", { value: true, configurable: true }); return super.add(k); } return this; }
  delete(k) { if (!this._s && !isSym(k)) return super.delete(k); const f = this.fk(k); return f === NOKEY ? false : super.delete(f); }
}
models.Map = SMap; models.Set = SSet;
for (const [c, n] of [[SMap, Map], [SSet, Set]]) Object.defineProperty(c, Symbol.hasInstance, { value: function (v) { return this === c ? v instanceof n : Function.prototype[Symbol.hasInstance].call(this, v); } });
// ------------------------------------------------------------ dates
class SDate {
  constructor(...a) {
    if (a.length === 0) this.ms = E.env.now();
    else if (a.length === 1) { let v = a[0]; if (v instanceof SDate) v = v.ms; else if (v instanceof Str) unsupported("date from a symbolic string"); if (v instanceof SymFrac) v = rt.trunc(v); this.ms = isSym(v) ? v : new Date(v).getTime(); }
    else this.ms = new Date(...a.map((x) => isSym(x) ? unsupported("date parts") : x)).getTime();
  }
  getTime() { return this.ms; }
  valueOf() { return this.ms; }
  symPrim(hint) { return hint === "string" || hint === undefined && false ? this.toString() : this.ms; }
  nat() { if (isSym(this.ms)) unsupported("calendar of a symbolic date"); return new Date(this.ms); }
  setTime(v) { this.ms = v; return v; }
  toString() { return this.nat().toString(); }
  toJSON() { return this.nat().toJSON(); }
  static now() { return E.env.now(); }
  static parse(s) { return Date.parse(s); }
  static UTC(...a) { return Date.UTC(...a); }
  static [Symbol.hasInstance](v) { return SDate.prototype.isPrototypeOf(v) || Date.prototype.isPrototypeOf(v); }
}
for (const k of Object.getOwnPropertyNames(Date.prototype)) if (!(k in SDate.prototype)) SDate.prototype[k] = function (...a) { const d = this.nat(); const r = d[k](...a); if (k.startsWith("set")) this.ms = d.getTime(); return r; };
models.Date = SDate;
// ------------------------------------------------------------ text
function utf8Encode(s) {
  if (s === undefined) s = "";
  s = rt.str(s);
  if (typeof s === "string") return U8.native(new TextEncoder().encode(s));
  const out = [], u = s.u;
  const B = (v) => M.toByte(v);
  for (let i = 0; i < u.length; i++) {
    const c = u[i];
    if (rt.cond(rt.lt(c, 0x80))) { out.push(B(c)); continue; }
    if (rt.cond(rt.lt(c, 0x800))) { out.push(B(rt.or(0xC0, rt.shr(c, 6))), B(rt.or(0x80, rt.and(c, 63)))); continue; }
    let hi = rt.landv(rt.ge(c, 0xD800), rt.le(c, 0xDFFF));
    if (!rt.cond(hi)) { out.push(B(rt.or(0xE0, rt.shr(c, 12))), B(rt.or(0x80, rt.and(rt.shr(c, 6), 63))), B(rt.or(0x80, rt.and(c, 63)))); continue; }
    if (rt.cond(rt.le(c, 0xDBFF)) && i + 1 < u.length && rt.cond(rt.landv(rt.ge(u[i + 1], 0xDC00), rt.le(u[i + 1], 0xDFFF)))) {
      const cp = rt.add(rt.add(rt.mul(rt.sub(c, 0xD800), 0x400), rt.sub(u[i + 1], 0xDC00)), 0x10000);
      out.push(B(rt.or(0xF0, rt.shr(cp, 18))), B(rt.or(0x80, rt.and(rt.shr(cp, 12), 63))), B(rt.or(0x80, rt.and(rt.shr(cp, 6), 63))), B(rt.or(0x80, rt.and(cp, 63))));
      i++; continue;
    }
    out.push(0xEF, 0xBF, 0xBD);
  }
  return U8.cells(out);
}
// the length of a view of symbolic length, where what it is a view of is small
function smallBound(u) { const m = min(u.n.hi, typeof u.b.length === "number" ? BigInt(u.b.length) : u.n.hi); return m <= 64n ? Number(m) : undefined; }
rt.smallBound = smallBound;
function utf8Decode(b, { fatal, ignoreBOM }) {
  if (b === undefined) return "";
  if (b instanceof SArrayBuffer) b = new U8(b);
  if (b instanceof SDataView) b = b.u;
  if (!(b instanceof U8) && b instanceof Uint8Array) return new TextDecoder("utf-8", { fatal, ignoreBOM }).decode(b);
  if (typeof b.n !== "number") {
    const bound = smallBound(b);
    if (bound === undefined) return new BlobStr(b.slice());
    b = U8.view(b.b, b.o, rt.concretize(b.n, bound + 2));
  }
  if (b.isConcrete()) return new TextDecoder("utf-8", { fatal, ignoreBOM }).decode(b.toNative());
  const x = b.list(), n = x.length, out = [];
  const inr = (v, l, h) => rt.cond(rt.landv(rt.ge(v, l), rt.le(v, h)));
  const bad = () => { if (fatal) throw new TypeError("The encoded data was not valid."); out.push(0xFFFD); };
  let i = 0;
  if (!ignoreBOM && n >= 3 && rt.cond(rt.landv(rt.seq(x[0], 0xEF), rt.seq(x[1], 0xBB), rt.seq(x[2], 0xBF)))) i = 3;
  const low6 = (v) => rt.and(v, 63);
  while (i < n) {
    const c = x[i];
    if (rt.cond(rt.lt(c, 0x80))) { out.push(narrow(c, 0n, 127n)); i++; continue; }
    let need, lo = 0x80, hi = 0xBF, cp;
    if (inr(c, 0xC2, 0xDF)) { need = 1; cp = rt.and(c, 0x1F); }
    else if (inr(c, 0xE0, 0xEF)) { need = 2; if (rt.cond(rt.seq(c, 0xE0))) lo = 0xA0; else if (rt.cond(rt.seq(c, 0xED))) hi = 0x9F; cp = rt.and(c, 0xF); }
    else if (inr(c, 0xF0, 0xF4)) { need = 3; if (rt.cond(rt.seq(c, 0xF0))) lo = 0x90; else if (rt.cond(rt.seq(c, 0xF4))) hi = 0x8F; cp = rt.and(c, 7); }
    else { bad(); i++; continue; }
    i++;
    let ok = true;
    for (let k = 0; k < need; k++) {
      if (i >= n || !inr(x[i], lo, hi)) { ok = false; break; }
      cp = rt.or(rt.shl(cp, 6), low6(x[i])); lo = 0x80; hi = 0xBF; i++;
    }
    if (!ok) { bad(); continue; }
    if (need === 3) { const y = rt.sub(cp, 0x10000); const z = isSym(y) ? narrow(y, 0n, 0xFFFFFn) : y; out.push(narrow(rt.add(0xD800, rt.shr(z, 10)), 0xD800n, 0xDBFFn), rt.add(0xDC00, rt.and(z, 0x3FF))); } else out.push(cp);
  }
  return Str.norm(out);
}
// a string known only by its UTF-8 bytes (symbolic length)
class BlobStr extends Sym { constructor(u8) { super(); this.u8 = u8; } get jsType() { return "string"; } get length() { unsupported("length of an opaque string"); } }
models.TextEncoder = class TextEncoder { get encoding() { return "utf-8"; } encode(s) { return s instanceof BlobStr ? s.u8.slice() : utf8Encode(s); } };
models.TextDecoder = class TextDecoder { constructor(l, o) { this.o = o ?? {}; this.fatal = !!this.o.fatal; this.ignoreBOM = !!this.o.ignoreBOM; } get encoding() { return "utf-8"; } decode(b) { return utf8Decode(b, { fatal: this.fatal, ignoreBOM: this.ignoreBOM }); } };
rt.utf8Encode = utf8Encode; rt.utf8Decode = utf8Decode; rt.BlobStr = BlobStr;
// base64 / hex on symbolic data
const B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
function b64char(v, url) {
  if (!isSym(v)) { const c = B64[v]; return (url ? c.replace("+", "-").replace("/", "_") : c).charCodeAt(0); }
  const r = rt.itev(rt.lt(v, 26), rt.add(v, 65), rt.itev(rt.lt(v, 52), rt.add(v, 71), rt.itev(rt.lt(v, 62), rt.sub(v, 4), rt.itev(rt.seq(v, 62), url ? 45 : 43, url ? 95 : 47))));
  if (isSym(r)) b64Of.set(r.t.id, { v, url });
  return r;
}
const b64Of = new Map(); // character term -> six-bit value it encodes
rt.base64Encode = (u, o = {}) => {
  const url = o?.alphabet === "base64url", omit = !!o?.omitPadding, l = u.list(), out = [];
  for (let i = 0; i < l.length; i += 3) {
    const a = l[i], b = l[i + 1] ?? 0, c = l[i + 2] ?? 0, k = Math.min(3, l.length - i);
    out.push(b64char(rt.shr(a, 2), url), b64char(rt.or(rt.shl(rt.and(a, 3), 4), rt.shr(b, 4)), url));
    if (k > 1) out.push(b64char(rt.or(rt.shl(rt.and(b, 15), 2), rt.shr(c, 6)), url)); else if (!omit) out.push(61);
    if (k > 2) out.push(b64char(rt.and(c, 63), url)); else if (!omit) out.push(61);
  }
  return Str.norm(out);
};
rt.base64Decode = (s, o = {}) => {
  if (typeof s === "string") return U8.native(decodeB64(s, o));
  const url = o?.alphabet === "base64url", vals = [];
  let u = Str.of(s).u.slice();
  u = u.filter((c) => { if (rt.cond(rt.lorv(rt.seq(c, 32), rt.seq(c, 9), rt.seq(c, 10), rt.seq(c, 12), rt.seq(c, 13)))) return false; return true; });
  let pad = 0;
  while (u.length && pad < 2 && rt.cond(rt.seq(u[u.length - 1], 61))) { u.pop(); pad++; }
  if (pad && (u.length + pad) % 4 !== 0 || u.length % 4 === 1) throw new SyntaxError("Invalid base64");
  const c62 = url ? 45 : 43, c63 = url ? 95 : 47;
  for (const c of u) {
    const o = isSym(c) ? b64Of.get(c.t.id) : undefined;
    if (o && o.url === url) { vals.push(o.v); continue; }
    if (!isSym(c)) { const k = B64.indexOf(c === c62 ? "+" : c === c63 ? "/" : c === 43 || c === 47 ? "!" : String.fromCharCode(c)); if (k < 0) throw new SyntaxError("Invalid base64"); vals.push(k); continue; }
    const up = rt.landv(rt.ge(c, 65), rt.le(c, 90)), lw = rt.landv(rt.ge(c, 97), rt.le(c, 122)), dg = rt.landv(rt.ge(c, 48), rt.le(c, 57)), p = rt.seq(c, c62), m = rt.seq(c, c63);
    if (!rt.cond(rt.lorv(up, lw, dg, p, m))) throw new SyntaxError("Invalid base64");
    const T6 = (x) => T.extract(5, 0, S.resize(iv(x).t, 32));
    vals.push(S.num(T.zext(T.ite(bt(up), T6(rt.sub(c, 65)), T.ite(bt(lw), T6(rt.sub(c, 71)), T.ite(bt(dg), T6(rt.add(c, 4)), T.ite(bt(p), T.bv(62, 6), T.bv(63, 6))))), 8), 0n, 63n));
  }
  const out = [];
  for (let i = 0; i < vals.length; i += 4) {
    const [a, b, c, d] = [vals[i], vals[i + 1], vals[i + 2], vals[i + 3]];
    out.push(M.toByte(rt.or(rt.shl(a, 2), rt.shr(b, 4))));
    if (c !== undefined) out.push(M.toByte(rt.or(rt.shl(b, 4), rt.shr(c, 2))));
    if (d !== undefined) out.push(M.toByte(rt.or(rt.shl(c, 6), d)));
  }
  return U8.cells(out);
};
function decodeB64(s, o) { const url = o?.alphabet === "base64url"; const re = url ? /^[A-Za-z0-9\-_\s]*={0,2}\s*$/ : /^[A-Za-z0-9+/\s]*={0,2}\s*$/; if (!re.test(s)) throw new SyntaxError("Invalid base64"); const t = s.replace(/[\s]/g, ""); if (t.replace(/=+$/, "").length % 4 === 1 || (t.includes("=") && t.length % 4)) throw new SyntaxError("Invalid base64"); return Buffer.from(t, url ? "base64url" : "base64"); }
const hexOf = new WeakMap(); // digit term object -> nibble
rt.hexEncode = (u) => { const out = []; for (const b of u.list()) for (const n of [rt.shr(b, 4), rt.and(b, 15)]) { const d = rt.itev(rt.lt(n, 10), rt.add(n, 48), rt.add(n, 87)); if (isSym(d)) hexOf.set(d.t, [n, b]); out.push(d); } return Str.norm(out); };
rt.hexDecode = (s) => {
  const u = Str.of(rt.str(s)).u, vals = [];
  if (u.length % 2) throw new TypeError("Invalid hexadecimal text");
  for (const c of u) {
    const h = isSym(c) ? hexOf.get(c.t) : undefined;
    if (h) { vals.push(h[0]); continue; }
    const dg = rt.landv(rt.ge(c, 48), rt.le(c, 57)), lw = rt.landv(rt.ge(c, 97), rt.le(c, 102)), up = rt.landv(rt.ge(c, 65), rt.le(c, 70));
    if (!rt.cond(rt.lorv(dg, lw, up))) throw new TypeError("Invalid hexadecimal text");
    vals.push(rt.itev(dg, rt.sub(c, 48), rt.itev(lw, rt.sub(c, 87), rt.sub(c, 55))));
  }
  const out = [];
  for (let i = 0; i < vals.length; i += 2) { const x = isSym(u[i]) ? hexOf.get(u[i].t) : undefined, y = isSym(u[i + 1]) ? hexOf.get(u[i + 1].t) : undefined; out.push(x && y && x[1] === y[1] ? M.toByte(x[1]) : M.toByte(rt.or(rt.shl(vals[i], 4), vals[i + 1]))); }
  return U8.cells(out);
};
models.atob = (s) => { const u = rt.base64Decode(s); return Str.norm(u.list()); };
models.btoa = (s) => { const u = Str.of(rt.str(s)).u; return rt.base64Encode(U8.cells(u.map(M.toByte))); };
rt.allocTooBig = () => C.assertTerm(T.FALSE, "allocates out of proportion to its input");
rt.allocCheck = (n) => C.assertTerm(bt(rt.le(n, E.allocLimit)), "allocates out of proportion to its input");
models.Uint8Array = U8; models.ArrayBuffer = SArrayBuffer; models.DataView = SDataView;
// Object helpers met with byte arrays and symbolic keys
models.Object = new Proxy(Object, { get(t, k) { const v = t[k]; return OBJ[k] ?? v; }, apply(t, th, a) { return t(...a); }, construct(t, a) { return new t(...a); } });
const OBJ = {
  entries: (o) => o !== null && typeof o === "object" && Symbol.for("entries") in o ? o[Symbol.for("entries")]() : o instanceof U8 ? o.list().map((v, i) => [String(i), v]) : Object.entries(o),
  is: (a, b) => isSym(a) || isSym(b) ? rt.seq(a, b) : Object.is(a, b),
  fromEntries: (it) => { const o = {}; for (const [k, v] of it) o[isSym(k) ? unsupported("symbolic property name") : k] = v; return o; },
  hasOwn: (o, k) => { if (k instanceof Sym) { const n = pickKey(o, k); return n !== undefined && Object.hasOwn(o, n); } return Object.hasOwn(o, k); },
};
models.JSON = { stringify: (v, ...r) => { try { return JSON.stringify(v, ...r); } catch (e) { throw e; } }, parse: (s, ...r) => isSym(s) ? unsupported("JSON.parse of a symbolic string") : JSON.parse(s, ...r) };
module.exports = { rt, models, SMap, SSet, SDate, BlobStr, int32 };
require("./regex.js");
require("./env.js");
