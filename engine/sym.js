"use strict";
// Symbolic values and the operator semantics of JavaScript over them.
const C = require("./core.js");
const { E, T, unsupported } = C;
const big = BigInt;
const P53 = 1n << 53n;
function wFor(lo, hi) {
  let w = 1;
  const need = (v) => v >= 0n ? v.toString(2).length + (v === 0n ? 0 : 1) : (-v - 1n).toString(2).length + (v === -1n ? 0 : 1);
  w = Math.max(1, need(lo), need(hi));
  return w;
}
class Sym {
  toJSON() { unsupported("JSON of a symbolic value"); }
}
Object.defineProperty(Sym.prototype, Symbol.toPrimitive, { value(hint) { unsupported(`native coercion (${hint}) of a symbolic ${this.constructor.name}`); } });
class SymBool extends Sym { constructor(t) { super(); this.t = t; } toString() { return new SymStrChoice(this).str(); } valueOf() { return this; } }
class SymInt extends Sym { constructor(t, lo, hi) { super(); this.t = t; this.lo = lo; this.hi = hi; } valueOf() { return this; } }
class SymNum extends SymInt {
  toString(radix = 10) { return Str.fromInt(this, radix); }
  toFixed() { unsupported("toFixed"); }
  get jsType() { return "number"; }
}
class SymBig extends SymInt { toString(radix = 10) { return Str.fromInt(this, radix); } get jsType() { return "bigint"; } }
// n / d with integer n and positive integer d (concrete), only for flooring and comparing
class SymFrac extends Sym { constructor(n, d) { super(); this.n = n; this.d = d; } get jsType() { return "number"; } valueOf() { return this; } toString() { unsupported("string of a fraction"); } }
// an opaque IEEE double given by its bits
class SymF64 extends Sym { constructor(t) { super(); this.t = t; } get jsType() { return "number"; } valueOf() { return this; } }
class SymStrChoice { constructor(b) { this.b = b; } str() { return E.rt.cond(this.b) ? "true" : "false"; } }
const isSym = (v) => v instanceof Sym;
function mkBool(t) { return t === T.TRUE ? true : t === T.FALSE ? false : new SymBool(t); }
function bt(v) { return v instanceof SymBool ? v.t : v ? T.TRUE : T.FALSE; }
function resize(t, w) { return t.w === w ? t : t.w < w ? T.sext(t, w) : T.extract(w - 1, 0, t); }
const toS = T.toSigned;
function mkInt(cls, t, lo, hi) {
  if (lo === hi) return cls === SymBig ? lo : Number(lo);
  const w = wFor(lo, hi);
  t = resize(t, w);
  if (T.isC(t)) { const v = toS(t.val, w); return cls === SymBig ? v : Number(v); }
  if (cls === SymNum && (lo < -P53 || hi > P53)) {
    // must stay a safe integer to be exact
    const x = new SymNum(t, lo, hi);
    const ok = T.and(T.sle(T.bv(-P53, w), t), T.sle(t, T.bv(P53, w)));
    if (lo < -P53 * 4n || hi > P53 * 4n || true) {
      const q = C.query(T.not(ok));
      if (q.r !== "unsat") unsupported("number may leave the safe integer range");
    }
    const nlo = lo < -P53 ? -P53 : lo, nhi = hi > P53 ? P53 : hi;
    return new SymNum(resize(t, wFor(nlo, nhi)), nlo, nhi);
  }
  return new cls(t, lo, hi);
}
const num = (t, lo, hi) => mkInt(SymNum, t, lo, hi);
const bigv = (t, lo, hi) => mkInt(SymBig, t, lo, hi);
// unsigned term -> number
function unum(t) { return num(T.zext(t, t.w + 1), 0n, T.mask(t.w)); }
function snum(t) { return num(t, -(1n << big(t.w - 1)), (1n << big(t.w - 1)) - 1n); }
function ubig(t) { return bigv(T.zext(t, t.w + 1), 0n, T.mask(t.w)); }
function sbig(t) { return bigv(t, -(1n << big(t.w - 1)), (1n << big(t.w - 1)) - 1n); }
// view of a concrete or symbolic integer: {t, lo, hi}
function iv(v) {
  if (v instanceof SymInt) return v;
  if (typeof v === "number") { if (!Number.isInteger(v)) unsupported("non-integer number " + v + " with a symbolic integer"); const b = big(v); return { t: T.bv(b, wFor(b, b)), lo: b, hi: b }; }
  if (typeof v === "bigint") return { t: T.bv(v, wFor(v, v)), lo: v, hi: v };
  if (typeof v === "boolean") return iv(v ? 1 : 0);
  if (v instanceof SymBool) return { t: T.ite(v.t, T.bv(1, 2), T.bv(0, 2)), lo: 0n, hi: 1n };
  if (v === null) return iv(0);
  unsupported("integer view of " + typeName(v));
}
function typeName(v) { return v === null ? "null" : isSym(v) ? v.constructor.name : typeof v === "object" ? v.constructor?.name : typeof v; }
const min = (a, b) => a < b ? a : b, max = (a, b) => a > b ? a : b;
function clsOf(a, b) {
  const ba = typeof a === "bigint" || a instanceof SymBig, bb = typeof b === "bigint" || b instanceof SymBig;
  if (ba !== bb) throw new TypeError("Cannot mix BigInt and other types, use explicit conversions");
  return ba ? SymBig : SymNum;
}
function prim(v, hint) { // ToPrimitive for objects met by operators
  if (v instanceof SymInt || v instanceof SymBool || v instanceof SymFrac || v instanceof SymF64 || v instanceof Str) return v;
  if (v !== null && typeof v === "object") {
    const m = v.symPrim;
    if (m) return m.call(v, hint);
    return v[Symbol.toPrimitive] ? v[Symbol.toPrimitive](hint ?? "default") : hint === "string" ? String(v) : typeof v.valueOf() === "object" ? String(v) : v.valueOf();
  }
  if (typeof v === "function") return String(v);
  return v;
}
const isStr = (v) => typeof v === "string" || v instanceof Str;
const nonFinite = (v) => typeof v === "number" && !Number.isFinite(v);
const isFracNum = (v) => typeof v === "number" && Number.isFinite(v) && !Number.isInteger(v);
function numeric(v) {
  if (v instanceof Str) return Str.toNumber(v);
  if (v === undefined) return NaN;
  if (v instanceof SymBool) return num(iv(v).t, 0n, 1n);
  return v;
}
// fractions: exact rational view {n (SymInt-like), d bigint}
function fv(v) {
  if (v instanceof SymFrac) return { n: iv(v.n), d: v.d };
  if (isFracNum(v)) { // exact binary rational
    let d = 1n; let x = v; let i = 0; while (!Number.isInteger(x)) { x *= 2; d *= 2n; if (++i > 60) unsupported("fraction " + v); }
    return { n: iv(x), d };
  }
  return { n: iv(v), d: 1n };
}
function mkFrac(n, d) { // n int-like, d>0 bigint
  const nn = n instanceof SymInt ? n : null;
  if (nn === null) return Number(n.lo) / Number(d);
  if (d === 1n) return num(nn.t, nn.lo, nn.hi);
  return new SymFrac(nn, d);
}
const asInt = (x) => x instanceof SymInt ? x : new SymBig(x.t, x.lo, x.hi);
function addI(a, b) { const lo = a.lo + b.lo, hi = a.hi + b.hi, w = Math.max(wFor(lo, hi), 1); return { t: T.add(resize(a.t, w), resize(b.t, w)), lo, hi }; }
function subI(a, b) { const lo = a.lo - b.hi, hi = a.hi - b.lo, w = wFor(lo, hi); return { t: T.sub(resize(a.t, w), resize(b.t, w)), lo, hi }; }
function mulI(a, b) {
  const ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi];
  const lo = ps.reduce(min), hi = ps.reduce(max), w = wFor(lo, hi);
  return { t: T.mul(resize(a.t, w), resize(b.t, w)), lo, hi };
}
function floorDivI(a, d) { // d positive bigint constant; floor(a/d)
  const fl = (x) => { const q = x / d; return x % d < 0n ? q - 1n : q; };
  const lo = fl(a.lo), hi = fl(a.hi), w = Math.max(wFor(a.lo, a.hi), wFor(d, d)) + 1;
  const x = resize(a.t, w), dd = T.bv(d, w);
  if (a.lo >= 0n) return { t: resize(T.udiv(x, dd), wFor(lo, hi)), lo, hi };
  const q = T.sdiv(x, dd), r = T.srem(x, dd);
  return { t: resize(T.ite(T.slt(r, T.bv(0, w)), T.sub(q, T.bv(1, w)), q), wFor(lo, hi)), lo, hi };
}
// linear forms: sums keep the summands they are made of, so that equal summands cancel
const linOf = (v) => v.lin ?? (v.lo === v.hi ? { c: v.lo, m: new Map() } : { c: 0n, m: new Map([[v.t, { k: 1n, x: v }]]) });
function linSum(a, b, sign) {
  const x = linOf(a), y = linOf(b), m = new Map(x.m);
  if (x.m.size + y.m.size > 12) return null;
  let less = false;
  for (const [t, e] of y.m) { const o = m.get(t), k = (o?.k ?? 0n) + sign * e.k; if (o) less = true; if (k === 0n) m.delete(t); else m.set(t, { k, x: e.x }); }
  return { c: x.c + sign * y.c, m, less };
}
// a + sign*b, as the sum of what is left
function sumI(a, b, sign) {
  const l = linSum(a, b, sign);
  let r = l?.less ? fromLin(l) : sign > 0n ? addI(a, b) : subI(a, b);
  if (l && r.lo !== r.hi) r.lin = { c: l.c, m: l.m };
  return r;
}
function fromLin(l) {
  let r = iv(l.c);
  for (const { k, x } of [...l.m.values()].sort((p, q) => p.x.t.id - q.x.t.id)) r = k === -1n ? subI(r, x) : addI(r, k === 1n ? x : mulI(x, iv(k)));
  return r;
}
// both sides without what they have in common
function cancel(a, b) {
  if (!a.lin && !b.lin) return null;
  const l = linSum(a, b, -1n);
  if (!l?.less) return null;
  const p = { c: l.c > 0n ? l.c : 0n, m: new Map() }, q = { c: l.c < 0n ? -l.c : 0n, m: new Map() };
  for (const [t, e] of l.m) if (e.k > 0n) p.m.set(t, e); else q.m.set(t, { k: -e.k, x: e.x });
  return [fromLin(p), fromLin(q)];
}
function cmpLt(a, b) { // int-like: a < b
  if (a.hi < b.lo) return T.TRUE;
  if (a.lo >= b.hi) return T.FALSE;
  const c = cancel(a, b); if (c) return cmpLt(...c);
  const w = Math.max(a.t.w, b.t.w);
  return T.slt(resize(a.t, w), resize(b.t, w));
}
function cmpEq(a, b) {
  if (a.hi < b.lo || b.hi < a.lo) return T.FALSE;
  if (a.lo === a.hi && b.lo === b.hi) return T.TRUE;
  const c = cancel(a, b); if (c) return cmpEq(...c);
  const w = Math.max(a.t.w, b.t.w);
  return T.eq(resize(a.t, w), resize(b.t, w));
}
function lessThan(a, b) { // JS a < b for numeric-like, at least one symbolic -> SymBool/boolean
  if (a === undefined || b === undefined) return false;
  if (nonFinite(a)) return Number.isNaN(a) ? false : a < 0;
  if (nonFinite(b)) return Number.isNaN(b) ? false : b > 0;
  if (a instanceof SymF64 || b instanceof SymF64) unsupported("comparison of an opaque double");
  if (a instanceof SymFrac || b instanceof SymFrac || isFracNum(a) || isFracNum(b)) {
    const x = fv(a), y = fv(b);
    return mkBool(cmpLt(mulI(x.n, iv(y.d)), mulI(y.n, iv(x.d))));
  }
  return mkBool(cmpLt(iv(a), iv(b)));
}
const fresh = (base) => { const n = (E.counters.get(base) ?? 0) + 1; E.counters.set(base, n); return n === 1 ? base : base + "#" + n; };

// ---------------------------------------------------------------- strings
// Str: concrete length, units are numbers or SymNum in 0..65535
class Str extends Sym {
  constructor(u) { super(); this.u = u; }
  static of(v) { if (v instanceof Str) return v; const u = new Array(v.length); for (let i = 0; i < v.length; i++) u[i] = v.charCodeAt(i); return new Str(u); }
  static norm(u) { // concrete when possible
    for (const x of u) if (typeof x !== "number") return new Str(u);
    let s = ""; for (let i = 0; i < u.length; i += 4096) s += String.fromCharCode(...u.slice(i, i + 4096));
    return s;
  }
  get jsType() { return "string"; }
  get length() { return this.u.length; }
  toString() { return this; }
  valueOf() { return this; }
  charCodeAt(i = 0) { i = E.rt.concInt(i, 0, this.u.length); return i >= 0 && i < this.u.length ? this.u[i] : NaN; }
  charAt(i = 0) { i = E.rt.concInt(i, 0, this.u.length); return i >= 0 && i < this.u.length ? Str.norm([this.u[i]]) : ""; }
  at(i) { i = E.rt.concInt(i, -this.u.length, this.u.length); if (i < 0) i += this.u.length; return i >= 0 && i < this.u.length ? Str.norm([this.u[i]]) : undefined; }
  codePointAt(i = 0) {
    i = E.rt.concInt(i, 0, this.u.length);
    if (i < 0 || i >= this.u.length) return undefined;
    const R = E.rt, a = this.u[i];
    if (!R.cond(R.ge(a, 0xD800)) || R.cond(R.gt(a, 0xDBFF)) || i + 1 >= this.u.length) return a;
    const b = this.u[i + 1];
    if (!R.cond(R.ge(b, 0xDC00)) || R.cond(R.gt(b, 0xDFFF))) return a;
    return R.add(R.add(R.mul(R.sub(a, 0xD800), 0x400), R.sub(b, 0xDC00)), 0x10000);
  }
  idx(i, dflt) { if (i === undefined) return dflt; return E.rt.concInt(i, -this.u.length - 1, this.u.length + 1); }
  slice(a, b) { a = this.idx(a, 0); b = this.idx(b, this.u.length); return Str.norm(this.u.slice(a, b)); }
  substring(a, b) { const n = this.u.length; a = Math.min(Math.max(this.idx(a, 0), 0), n); b = Math.min(Math.max(this.idx(b, n), 0), n); if (a > b) [a, b] = [b, a]; return Str.norm(this.u.slice(a, b)); }
  substr(a, l) { const n = this.u.length; a = this.idx(a, 0); if (a < 0) a = Math.max(0, n + a); l = l === undefined ? n - a : this.idx(l, 0); return Str.norm(this.u.slice(a, a + Math.max(0, l))); }
  eqAt(i, s) { if (i < 0 || i + s.u.length > this.u.length) return T.FALSE; let r = T.TRUE; for (let k = 0; k < s.u.length; k++) { r = T.and(r, bt(E.rt.seq(this.u[i + k], s.u[k]))); if (r === T.FALSE) return r; } return r; }
  startsWith(s, p = 0) { if (s instanceof RegExp) throw new TypeError("regex"); return mkBool(this.eqAt(E.rt.concInt(p, 0, this.u.length), Str.of(E.rt.str(s)))); }
  endsWith(s, p) { s = Str.of(E.rt.str(s)); const e = p === undefined ? this.u.length : E.rt.concInt(p, 0, this.u.length); return mkBool(this.eqAt(e - s.u.length, s)); }
  indexOf(s, p = 0) { s = Str.of(E.rt.str(s)); for (let i = Math.max(0, E.rt.concInt(p, 0, this.u.length)); i + s.u.length <= this.u.length; i++) if (E.rt.cond(mkBool(this.eqAt(i, s)))) return i; return -1; }
  lastIndexOf(s, p) { s = Str.of(E.rt.str(s)); for (let i = Math.min(p ?? Infinity, this.u.length - s.u.length); i >= 0; i--) if (E.rt.cond(mkBool(this.eqAt(i, s)))) return i; return -1; }
  includes(s, p = 0) { s = Str.of(E.rt.str(s)); let r = T.FALSE; for (let i = p; i + s.u.length <= this.u.length; i++) r = T.or(r, this.eqAt(i, s)); return mkBool(r); }
  concat(...xs) { return xs.reduce((a, b) => E.rt.add(a, E.rt.str(b)), this); }
  repeat(n) { n = E.rt.concInt(n, 0, 1000); const u = []; for (let i = 0; i < n; i++) u.push(...this.u); return Str.norm(u); }
  padStart(n, f = " ") { n = E.rt.concInt(n, 0, 10000); if (n <= this.u.length) return this; f = Str.of(f); const k = n - this.u.length, u = []; for (let i = 0; i < k; i++) u.push(f.u[i % f.u.length]); return new Str([...u, ...this.u]); }
  padEnd(n, f = " ") { n = E.rt.concInt(n, 0, 10000); if (n <= this.u.length) return this; f = Str.of(f); const k = n - this.u.length, u = []; for (let i = 0; i < k; i++) u.push(f.u[i % f.u.length]); return new Str([...this.u, ...u]); }
  split(sep, limit) {
    if (sep === undefined) return [this];
    if (sep instanceof RegExp) return E.rt.regexSplit(this, sep);
    sep = Str.of(E.rt.str(sep));
    const out = [];
    if (sep.u.length === 0) return this.u.map((x) => Str.norm([x]));
    let start = 0, i = 0;
    while (i + sep.u.length <= this.u.length) {
      if (E.rt.cond(mkBool(this.eqAt(i, sep)))) { out.push(Str.norm(this.u.slice(start, i))); i += sep.u.length; start = i; } else i++;
    }
    out.push(Str.norm(this.u.slice(start)));
    return limit === undefined ? out : out.slice(0, limit);
  }
  replaceAll(a, b) { if (a instanceof RegExp) return this.replace(a, b); return this.repl(a, b, true); }
  replace(a, b) { if (a instanceof RegExp) return E.rt.regexReplace(this, a, b); return this.repl(a, b, false); }
  repl(a, b, all) {
    a = Str.of(E.rt.str(a));
    let out = [], i = 0, done = false;
    while (i < this.u.length || (a.u.length === 0 && i === 0)) {
      if (!(done && !all) && a.u.length && i + a.u.length <= this.u.length && E.rt.cond(mkBool(this.eqAt(i, a)))) { const r = typeof b === "function" ? b(Str.norm(this.u.slice(i, i + a.u.length)), i, this) : b; out.push(...Str.of(E.rt.str(r)).u); i += a.u.length; done = true; } else out.push(this.u[i++]);
    }
    return Str.norm(out);
  }
  match(re) { return E.rt.regexMatch(this, re); }
  matchAll(re) { return E.rt.regexMatchAll(this, re); }
  search(re) { const m = E.rt.regexExec(new RegExp(re.source, re.flags.replace(/[gy]/g, "")), this); return m ? m.index : -1; }
  isWs(c) { const R = E.rt; return R.lorv(R.landv(R.ge(c, 9), R.le(c, 13)), R.seq(c, 32), R.seq(c, 0xA0), R.seq(c, 0xFEFF), R.seq(c, 0x1680), R.landv(R.ge(c, 0x2000), R.le(c, 0x200A)), R.seq(c, 0x2028), R.seq(c, 0x2029), R.seq(c, 0x202F), R.seq(c, 0x205F), R.seq(c, 0x3000)); }
  trimStart() { let i = 0; while (i < this.u.length && E.rt.cond(this.isWs(this.u[i]))) i++; return Str.norm(this.u.slice(i)); }
  trimEnd() { let i = this.u.length; while (i > 0 && E.rt.cond(this.isWs(this.u[i - 1]))) i--; return Str.norm(this.u.slice(0, i)); }
  trim() { return E.rt.callm(this.trimStart(), "trimEnd", []); }
  mapCase(lower) { // exact for ASCII; other symbolic units are outside the fragment
    const R = E.rt;
    return Str.norm(this.u.map((c) => {
      if (typeof c === "number") { const s = String.fromCharCode(c), r = lower ? s.toLowerCase() : s.toUpperCase(); return r.length === 1 ? r.charCodeAt(0) : unsupported("case mapping"); }
      if (c.hi > 127n && R.cond(R.gt(c, 127))) unsupported("case mapping of a symbolic non-ASCII unit");
      const a = lower ? 65 : 97, z = lower ? 90 : 122, d = lower ? 32 : -32;
      return R.itev(R.landv(R.ge(c, a), R.le(c, z)), R.add(c, d), c);
    }));
  }
  toLowerCase() { return this.mapCase(true); }
  toUpperCase() { return this.mapCase(false); }
  normalize() { return this; }
  localeCompare() { unsupported("localeCompare"); }
  isWellFormed() { unsupported("isWellFormed"); }
  *[Symbol.iterator]() {
    const R = E.rt;
    for (let i = 0; i < this.u.length;) {
      const a = this.u[i];
      if (i + 1 < this.u.length && R.cond(R.ge(a, 0xD800)) && R.cond(R.le(a, 0xDBFF)) && R.cond(R.ge(this.u[i + 1], 0xDC00)) && R.cond(R.le(this.u[i + 1], 0xDFFF))) { yield Str.norm([a, this.u[i + 1]]); i += 2; } else { yield Str.norm([a]); i++; }
    }
  }
  // the decimal digits of a symbolic integer are worked out only when something looks at them
  static fromInt(x, radix) { radix = radix ?? 10; return typeof radix === "number" && isSym(x) ? new LazyStr(() => Str.digits(x, radix), radix === 10 ? x : null, radix === 2 ? x : null) : Str.digits(x, radix); }
  static join(parts) { // concatenation
    if (parts.some((p) => p instanceof LazyStr && p.pending)) return new LazyStr(() => Str.norm(parts.flatMap((p) => Str.of(p).u)), null);
    return Str.norm(parts.flatMap((p) => Str.of(p).u));
  }
  static digits(x, radix) {
    const R = E.rt;
    let neg = false, v = x;
    if (x.lo < 0n) { if (R.cond(R.lt(x, x instanceof SymBig ? 0n : 0))) { neg = true; v = R.neg(x); } else v = narrow(x, 0n, x.hi); }
    if (!isSym(v)) { const s = v.toString(radix); return neg ? "-" + s : s; }
    const one = v instanceof SymBig, mkc = (k) => one ? k : Number(k);
    // number of digits
    let lim = big(radix), digits = 1;
    while (v.hi >= lim && R.cond(R.ge(v, mkc(lim)))) { lim *= big(radix); digits++; }
    const u = [];
    let rest = iv(v);
    const top = lim - 1n; rest = { t: rest.t, lo: digits === 1 ? 0n : lim / big(radix), hi: min(rest.hi, top) };
    rest.t = resize(rest.t, wFor(rest.lo, rest.hi));
    for (let i = 0; i < digits; i++) {
      const q = floorDivI(rest, big(radix));
      const w = Math.max(rest.t.w, wFor(0n, big(radix))) ;
      const d = T.urem(resize(rest.t, w), T.bv(radix, w));
      const dn = num(resize(d, wFor(0n, big(radix - 1))), 0n, big(radix - 1));
      u.unshift(radix <= 10 ? R.add(dn, 48) : R.itev(R.lt(dn, 10), R.add(dn, 48), R.add(dn, 87)));
      rest = q;
    }
    for (let i = 0; i < digits; i++) if (u[i] instanceof Sym) u[i].digitOf = { v, i, n: digits, radix };
    if (neg) u.unshift(45);
    return Str.norm(u);
  }
  // the number whose decimal digits are exactly the units from i on
  static ofDigits(u, i) {
    const d = u[i]?.digitOf; if (!d || d.i !== 0 || d.radix !== 10 || d.n !== u.length - i) return;
    for (let k = 1; k < d.n; k++) { const e = u[i + k].digitOf; if (!e || e.i !== k || e.v !== d.v) return; }
    const ten = 10n ** BigInt(d.n);
    return narrow(d.v, d.n === 1 ? 0n : ten / 10n, ten - 1n);
  }
  static toNumber(s) { // Number("...") for decimal integer strings; other shapes only when concrete
    if (typeof s === "string") return Number(s);
    const r = Str.parseDec(s, true);
    return r === null ? NaN : r;
  }
  static parseDec(s, isNumber) {
    const R = E.rt;
    let t = s.trim(); if (typeof t === "string") return isNumber ? Number(t) : BigInt(t);
    if (isNumber && t.u.some((c) => typeof c === "number" && !/[0-9A-Za-z.+-]/.test(String.fromCharCode(c)))) return null; // no number has such a character
    let i = 0, neg = false;
    if (t.u.length > 1 && R.cond(R.seq(t.u[0], 45))) { neg = true; i = 1; } else if (t.u.length > 1 && R.cond(R.seq(t.u[0], 43))) i = 1;
    let v = isNumber ? 0 : 0n;
    const whole = Str.ofDigits(t.u, i);
    if (whole !== undefined) { const x = isNumber === whole instanceof SymBig ? isNumber ? R.toNum(whole) : R.toBig(whole) : whole; return neg ? R.neg(x) : x; }
    for (; i < t.u.length; i++) {
      const c = t.u[i];
      const ok = R.landv(R.ge(c, 48), R.le(c, 57));
      if (!R.cond(ok)) {
        // shapes such as 0x.., 1e3, 1.5, Infinity are outside the fragment
        if (isNumber && R.cond(R.lorv(R.seq(c, 46), R.seq(c, 101), R.seq(c, 69), R.seq(c, 120), R.seq(c, 88), R.seq(c, 111), R.seq(c, 79), R.seq(c, 98), R.seq(c, 66), R.seq(c, 73)))) unsupported("number syntax beyond decimal digits");
        return null;
      }
      const d = R.sub(c, 48);
      const dn = isSym(d) ? new SymNum(resize(narrow(d, 0n, 9n).t, 5), 0n, 9n) : d;
      v = R.add(R.mul(v, isNumber ? 10 : 10n), isNumber ? dn : R.toBig(dn));
    }
    return neg ? R.neg(v) : v;
  }
}
// restrict an integer to an interval already implied by the path condition
function narrow(x, lo, hi) {
  if (!(x instanceof SymInt)) return x;
  const l = max(lo, x.lo), h = min(hi, x.hi);
  return mkInt(x.constructor, x.t, l, h);
}
class LazyStr extends Str {
  constructor(f, origin, binary = null) { super(undefined); this.f = f; this.origin = origin; this.binary = binary; this.units = undefined; }
  get length() { // the number of binary digits needs no case split
    if (!this.pending || this.binary === null || this.binary.t.w < 24) return this.u.length;
    const x = iv(this.binary), neg = T.slt(x.t, T.bv(0, x.t.w)), a = x.lo >= 0n ? x.t : T.ite(neg, T.neg(x.t), x.t), w = 16;
    const len = (t) => { if (t.w === 1) return T.ite(T.eq(t, T.bv(1, 1)), T.bv(1, w), T.bv(0, w)); const h = t.w >> 1, hi = T.extract(t.w - 1, h, t), lo = T.extract(h - 1, 0, t); return T.ite(T.eq(hi, T.bv(0, hi.w)), len(lo), T.add(T.bv(h, w), len(hi))); };
    const n = len(a), one = T.ite(T.eq(n, T.bv(0, w)), T.bv(1, w), n), out = x.lo >= 0n ? one : T.add(one, T.ite(neg, T.bv(1, w), T.bv(0, w)));
    const m = x.hi > -x.lo ? x.hi : -x.lo, r = num(out, 1n, BigInt(m.toString(2).length + (x.lo < 0n ? 1 : 0)));
    if (isSym(r)) r.digitsOf = { a, neg: x.lo >= 0n ? T.bool(false) : neg };
    return r;
  }
  get pending() { return this.units === undefined; }
  get u() { if (this.units === undefined) { const r = this.f(); this.units = typeof r === "string" ? Array.from({ length: r.length }, (_, i) => r.charCodeAt(i)) : r.u; } return this.units; }
  set u(_) {}
  replaceAll(a, b) { return this.pending && typeof a === "string" && typeof b === "string" ? new LazyStr(() => super.replaceAll(a, b), null) : super.replaceAll(a, b); }
}
module.exports = { LazyStr, Sym, SymBool, SymInt, SymNum, SymBig, SymFrac, SymF64, Str, isSym, isStr, mkBool, bt, resize, mkInt, num, bigv, unum, snum, ubig, sbig, iv, typeName, fv, mkFrac, sumI, addI, subI, mulI, floorDivI, cmpLt, cmpEq, lessThan, clsOf, prim, numeric, nonFinite, isFracNum, narrow, wFor, fresh, min, max, asInt };
