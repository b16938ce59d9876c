"use strict";
// Byte memory: ArrayBuffer / Uint8Array / DataView over symbolic bytes.
// A block is dense (concrete length, one cell per byte) or lazy (a function from a 32-bit index term to a byte term,
// plus a log of later writes), so that lengths and offsets may be symbolic.
const C = require("./core.js");
const { E, T, unsupported } = C;
const S = require("./sym.js");
const { isSym, SymInt, SymNum, SymBig, SymF64, Str, mkBool, num, unum, iv, resize } = S;
const IW = 32;
const idxT = (v) => typeof v === "number" ? T.bv(v, IW) : resize(v.t, IW);
const isNum = (v) => typeof v === "number";
class Block {
  constructor(length) { this.length = length; this.cells = null; this.base = null; this.log = null; this.ab = null; this.version = 0; }
  static dense(cells) { const b = new Block(cells.length); b.cells = cells; return b; }
  static zero(length) {
    if (isNum(length)) { if (length > 1 << 26) unsupported("allocation of " + length + " bytes"); return length <= 70000 ? Block.dense(new Array(length).fill(0)) : Block.lazy(length, () => T.bv(0, 8)); }
    return Block.lazy(length, () => T.bv(0, 8));
  }
  static lazy(length, base) { const b = new Block(length); b.base = base; b.log = []; return b; }
  toLazy() {
    if (!this.cells) return;
    const cells = this.cells;
    this.base = tableReader(cells); this.cells = null; this.log = [];
  }
  // byte at idx (number or SymNum, known to be in range): 8-bit term
  readT(i) {
    if (this.cells) {
      if (isNum(i)) return cellT(this.cells[i]);
      return tableReader(this.cells)(idxT(i));
    }
    return snapshot(this)(idxT(i));
  }
  read(i) {
    if (this.cells && isNum(i)) { const c = this.cells[i]; return typeof c === "number" ? c : unum(c); }
    return unum(this.readT(i));
  }
  write(i, v) { // v number or 8-bit term
    if (this.cells && isNum(i)) { this.cells[i] = v; return; }
    if (this.cells && this.cells.length <= 64) { const it = idxT(i); for (let k = 0; k < this.cells.length; k++) { const n = T.ite(T.eq(it, T.bv(k, IW)), cellT(v), cellT(this.cells[k])); this.cells[k] = T.isC(n) ? Number(n.val) : n; } return; }
    this.toLazy();
    this.log.push({ k: "c", i: idxT(i), v: cellT(v) });
  }
  // copy len bytes of src (function idxTerm -> byte term) to off
  copyIn(off, len, srcFn, srcCells) {
    if (this.cells && isNum(off) && isNum(len)) { for (let k = 0; k < len; k++) { const t = srcCells ? srcCells(k) : srcFn(T.bv(k, IW)); this.cells[off + k] = typeof t === "number" ? t : T.isC(t) ? Number(t.val) : t; } return; }
    if (isNum(len) && len === 0) return;
    this.toLazy();
    this.log.push({ k: "r", i: idxT(off), n: idxT(len), f: srcFn });
  }
}
function cellT(c) { return typeof c === "number" ? T.bv(c, 8) : c; }
function tableReader(cells) {
  const snap = cells.slice();
  if (snap.length > 4096) unsupported("symbolic index into " + snap.length + " dense bytes");
  return (it) => {
    if (T.isC(it)) { const k = Number(it.val); return k < snap.length ? cellT(snap[k]) : T.bv(0, 8); }
    // balanced selection
    const go = (lo, hi) => { if (hi - lo === 1) return cellT(snap[lo]); const m = (lo + hi) >> 1; return T.ite(T.ult(it, T.bv(m, IW)), go(lo, m), go(m, hi)); };
    return snap.length ? go(0, snap.length) : T.bv(0, 8);
  };
}
function snapshot(b) { // reader of the current contents
  if (b.cells) return tableReader(b.cells);
  const base = b.base, log = b.log, n = log.length;
  return (it) => {
    let r = null; const conds = [];
    for (let k = n - 1; k >= 0; k--) {
      const e = log[k];
      if (e.k === "c") {
        const c = T.eq(it, e.i);
        if (c === T.TRUE) { r = e.v; break; }
        if (c !== T.FALSE) conds.push([c, e.v]);
      } else {
        const d = T.sub(it, e.i);
        const c = decideUlt(d, e.n);
        if (c === T.TRUE) { r = e.f(d); break; }
        if (c !== T.FALSE) conds.push([c, e.f(d)]);
      }
    }
    r ??= base(it);
    for (let k = conds.length - 1; k >= 0; k--) r = T.ite(conds[k][0], conds[k][1], r);
    return r;
  };
}
function decideUlt(a, b) { const t = T.ult(a, b); if (T.isC(t)) return t; const f = E.facts.get(t.id); if (f !== undefined) return f ? T.TRUE : T.FALSE; return t; }

class SArrayBuffer {
  constructor(length, block) {
    if (block) this.block = block; else { length = length ?? 0; if (length instanceof SArrayBuffer) throw new TypeError("bad"); if (isNum(length) && (length < 0 || !Number.isInteger(length))) throw new RangeError("Array buffer allocation failed"); this.block = Block.zero(length); this.block.ab = this; }
  }
  get byteLength() { return this.block.length; }
  slice(a, b) { return new U8(this).slice(a, b).buffer; }
  static isView(v) { return v instanceof U8 || v instanceof SDataView; }
  get [Symbol.toStringTag]() { return "ArrayBuffer"; }
}
const abOf = (block) => block.ab ??= new SArrayBuffer(undefined, block);
const R = () => E.rt;
// clamp an index argument as subarray/slice/fill do; result in [0, len]
function clamp(v, dflt, len) {
  if (v === undefined) return dflt;
  if (isNum(v) && isNum(len)) { v = Math.trunc(v) || 0; return v < 0 ? Math.max(0, len + v) : Math.min(v, len); }
  const r = R();
  if (r.cond(r.lt(v, 0))) { v = r.add(len, v); if (r.cond(r.lt(v, 0))) return 0; return v; }
  if (r.cond(r.gt(v, len))) return len;
  return v instanceof SymInt ? S.narrow(v, 0n, (len instanceof SymInt ? len.hi : BigInt(len))) : v;
}
class U8 {
  constructor(a, off, len) {
    if (a === INTERNAL) { this.b = off.b; this.o = off.o; this.n = off.n; return; }
    if (a === undefined) a = 0;
    const r = R();
    if (isNum(a) || a instanceof SymInt) {
      if (isNum(a)) { if (!(a >= 0) || !Number.isInteger(a)) { if (Number.isNaN(a)) a = 0; else if (a < 0) throw new RangeError("Invalid typed array length: " + a); else a = Math.trunc(a); } }
      else if (r.cond(r.lt(a, 0))) throw new RangeError("Invalid typed array length");
      else if (a instanceof SymInt && E.maxAlloc !== undefined && r.cond(r.gt(a, E.maxAlloc))) throw new RangeError("Array buffer allocation failed");
      if (E.allocLimit !== undefined) { if (isNum(a)) { if (a > E.allocLimit) r.allocTooBig(); } else r.allocCheck(a); }
      this.b = Block.zero(a instanceof SymInt ? S.narrow(a, 0n, a.hi) : a); this.o = 0; this.n = this.b.length;
    } else if (a instanceof SArrayBuffer) {
      off = off ?? 0; const total = a.block.length;
      if (r.cond(r.lt(off, 0)) || r.cond(r.gt(off, total))) throw new RangeError("Start offset is outside the bounds of the buffer");
      if (len === undefined) len = r.sub(total, off);
      else if (r.cond(r.lt(len, 0)) || r.cond(r.gt(r.add(off, len), total))) throw new RangeError("Invalid typed array length: " + (isSym(len) ? "?" : len));
      this.b = a.block; this.o = off; this.n = len;
    } else if (a instanceof U8) {
      const c = a.slice(); this.b = c.b; this.o = 0; this.n = c.n;
    } else if (ArrayBuffer.isView(a)) { this.b = Block.dense(Array.from(new Uint8Array(a.buffer, a.byteOffset, a.byteLength))); this.o = 0; this.n = this.b.length; }
    else if (a instanceof ArrayBuffer) { this.b = Block.dense(Array.from(new Uint8Array(a))); this.o = off ?? 0; this.n = len ?? this.b.length - this.o; }
    else if (a !== null && typeof a === "object") {
      const items = [...(a[Symbol.iterator] ? a : Array.from(a))];
      this.b = Block.dense(items.map(toByte)); this.o = 0; this.n = items.length;
    } else if (a instanceof Str || typeof a === "string") unsupported("Uint8Array of a string");
    else { this.b = Block.zero(0); this.o = 0; this.n = 0; }
  }
  static view(b, o, n) { return new U8(INTERNAL, { b, o, n }); }
  static cells(cells) { const b = Block.dense(cells); return U8.view(b, 0, cells.length); }
  static native(u) { return U8.cells(Array.from(u)); }
  static fromT(t) { // big-endian bytes of a term
    const cells = []; for (let hi = t.w - 1; hi > 0; hi -= 8) { const c = T.extract(hi, hi - 7, t); cells.push(T.isC(c) ? Number(c.val) : c); }
    return U8.cells(cells);
  }
  static from(x, fn) { const a = [...(x[Symbol.iterator] ? x : Array.from(x))]; return U8.cells((fn ? a.map((v, i) => fn(v, i)) : a).map(toByte)); }
  static of(...xs) { return U8.cells(xs.map(toByte)); }
  static fromBase64(s, o) { return R().base64Decode(s, o); }
  static fromHex(s) { return R().hexDecode(s); }
  toBase64(o) { return R().base64Encode(this, o); }
  toHex() { return R().hexEncode(this); }
  get length() { return this.n; }
  get byteLength() { return this.n; }
  get byteOffset() { return this.o; }
  get buffer() { return abOf(this.b); }
  get BYTES_PER_ELEMENT() { return 1; }
  get concreteLength() { return isNum(this.n); }
  getAt(i) {
    const r = R();
    if (isNum(i) && isNum(this.n)) { if (!(i >= 0 && i < this.n && Number.isInteger(i))) return undefined; return this.b.read(isNum(this.o) ? this.o + i : r.add(this.o, i)); }
    if (!r.cond(r.land(r.ge(i, 0), () => r.lt(i, this.n)))) return undefined;
    return this.b.read(r.add(this.o, S.narrow(i, 0n, iv(this.n).hi)));
  }
  setAt(i, v) {
    const r = R();
    if (isNum(i) && isNum(this.n)) { if (!(i >= 0 && i < this.n && Number.isInteger(i))) return; this.b.write(isNum(this.o) ? this.o + i : r.add(this.o, i), toByte(v)); return; }
    if (!r.cond(r.land(r.ge(i, 0), () => r.lt(i, this.n)))) return;
    this.b.write(r.add(this.o, S.narrow(i, 0n, iv(this.n).hi)), toByte(v));
  }
  // term of byte i without a range check
  termAt(i) { return this.b.readT(isNum(this.o) && isNum(i) ? this.o + i : R().add(this.o, i)); }
  at(i) { i = i ?? 0; const r = R(); if (r.cond(r.lt(i, 0))) i = r.add(this.n, i); return this.getAt(i); }
  subarray(a, b) {
    const r = R(), s = clamp(a, 0, this.n), e = clamp(b, this.n, this.n);
    const n = r.sub(e, s);
    if (r.cond(r.lt(n, 0))) return U8.view(this.b, r.add(this.o, s), 0);
    return U8.view(this.b, r.add(this.o, s), isSym(n) ? S.narrow(n, 0n, n.hi) : n);
  }
  slice(a, b) {
    const v = this.subarray(a, b);
    if (isNum(v.n) && isNum(v.o) && v.b.cells) return U8.cells(v.b.cells.slice(v.o, v.o + v.n));
    if (isNum(v.n) && v.n <= 4096) { const cells = []; const snap = snapshot(v.b); for (let i = 0; i < v.n; i++) { const t = snap(T.add(idxT(v.o), T.bv(i, IW))); cells.push(T.isC(t) ? Number(t.val) : t); } return U8.cells(cells); }
    const snap = snapshot(v.b), o = idxT(v.o);
    return U8.view(Block.lazy(v.n, (it) => snap(T.add(o, it))), 0, v.n);
  }
  set(src, off = 0) {
    const r = R();
    if (!(src instanceof U8)) src = new U8(src);
    if (r.cond(r.lt(off, 0)) || r.cond(r.gt(r.add(off, src.n), this.n))) throw new RangeError("offset is out of bounds");
    const dst = r.add(this.o, off);
    if (src.b.cells && isNum(src.o) && isNum(src.n)) {
      const cp = src.b.cells.slice(src.o, src.o + src.n);
      this.b.copyIn(dst, src.n, this.b.cells && isNum(dst) ? null : tableReader(cp), (k) => cp[k]);
      return;
    }
    const snap = snapshot(src.b), o = idxT(src.o);
    this.b.copyIn(dst, src.n, (it) => snap(T.add(o, it)));
  }
  fill(v, a, b) {
    const r = R(), s = clamp(a, 0, this.n), e = clamp(b, this.n, this.n), c = toByte(v);
    const n = r.sub(e, s);
    if (r.cond(r.le(n, 0))) return this;
    this.b.copyIn(r.add(this.o, s), isSym(n) ? S.narrow(n, 1n, n.hi) : n, () => cellT(c), () => c);
    return this;
  }
  list() { if (!isNum(this.n)) unsupported("iteration over bytes of symbolic length"); const out = []; for (let i = 0; i < this.n; i++) out.push(this.getAt(i)); return out; }
  [Symbol.iterator]() { return this.list()[Symbol.iterator](); }
  values() { return this.list().values(); }
  keys() { return this.list().keys(); }
  entries() { return this.list().entries(); }
  map(f) { return U8.cells(this.list().map((v, i) => toByte(f(v, i, this)))); }
  forEach(f) { this.list().forEach((v, i) => f(v, i, this)); }
  every(f) { return R().callm(this.list(), "every", [f]); }
  some(f) { return R().callm(this.list(), "some", [f]); }
  find(f) { return R().callm(this.list(), "find", [f]); }
  findIndex(f) { return R().callm(this.list(), "findIndex", [f]); }
  filter(f) { return new U8(R().callm(this.list(), "filter", [f])); }
  indexOf(f) { return R().callm(this.list(), "indexOf", [f]); }
  includes(f) { return R().callm(this.list(), "includes", [f]); }
  reduce(...a) { return this.list().reduce(...a); }
  reduceRight(...a) { return this.list().reduceRight(...a); }
  join(s) { return R().callm(this.list(), "join", [s]); }
  reverse() { const l = this.list().reverse(); l.forEach((v, i) => this.setAt(i, v)); return this; }
  toReversed() { return new U8(this.list().reverse()); }
  copyWithin(t, s, e) { const sub = this.slice(s, e); const at = clamp(t, 0, this.n); this.set(sub.subarray(0, R().sub(this.n, at)), at); return this; }
  toString() { return this.join(","); }
  get [Symbol.toStringTag]() { return "Uint8Array"; }
  isConcrete() { if (!isNum(this.n) || !isNum(this.o)) return false; if (this.b.cells) { for (let i = 0; i < this.n; i++) if (typeof this.b.cells[this.o + i] !== "number") return false; return true; } for (let i = 0; i < this.n; i++) if (!T.isC(this.termAt(i))) return false; return true; }
  toNative() { const u = new Uint8Array(this.n); for (let i = 0; i < this.n; i++) { const c = this.b.cells ? this.b.cells[this.o + i] : this.b.read(this.o + i); if (typeof c !== "number") unsupported("concrete bytes needed"); u[i] = c; } return u; }
  // whole contents as one term, first byte most significant
  term() { if (!isNum(this.n)) unsupported("term of bytes of symbolic length"); const ps = []; for (let i = 0; i < this.n; i++) ps.push(this.termAt(i)); return ps.length ? T.concat(...ps) : null; }
  static [Symbol.hasInstance](v) { return v !== null && typeof v === "object" && (U8.prototype.isPrototypeOf(v) && !v.notU8 || Uint8Array.prototype.isPrototypeOf(v)); }
}
const INTERNAL = Symbol("internal");
U8.BYTES_PER_ELEMENT = 1;
function toByte(v) {
  if (typeof v === "number") return v & 255;
  if (v instanceof Str || typeof v === "string") v = S.numeric(v);
  if (v === undefined || v === null) return 0;
  if (typeof v === "boolean") return v ? 1 : 0;
  if (typeof v === "bigint" || v instanceof SymBig) throw new TypeError("Cannot convert a BigInt value to a number");
  if (v instanceof S.SymFrac) v = R().trunc(v);
  if (!isSym(v)) return Number(v) & 255;
  const x = iv(v);
  const t = resize(x.t, Math.max(8, x.t.w));
  const c = T.extract(7, 0, t);
  return T.isC(c) ? Number(c.val) : c;
}
class SDataView {
  constructor(ab, off, len) {
    const r = R();
    if (ab instanceof ArrayBuffer) ab = new U8(ab).buffer;
    if (!(ab instanceof SArrayBuffer)) throw new TypeError("First argument to DataView constructor must be an ArrayBuffer");
    this.u = new U8(ab, off ?? 0, len);
  }
  get buffer() { return this.u.buffer; }
  get byteLength() { return this.u.n; }
  get byteOffset() { return this.u.o; }
  span(off, n) {
    const r = R();
    if (off === undefined) off = 0;
    if (r.cond(r.lt(off, 0)) || r.cond(r.gt(r.add(off, n), this.u.n))) throw new RangeError("Offset is outside the bounds of the DataView");
    return isSym(off) ? S.narrow(off, 0n, off.hi) : off;
  }
  load(off, n, le) {
    off = this.span(off, n); le = R().cond(le);
    const ts = [];
    for (let i = 0; i < n; i++) ts.push(this.u.termAt(R().add(off, i)));
    if (le) ts.reverse();
    return T.concat(...ts);
  }
  store(off, n, t, le) {
    off = this.span(off, n); le = R().cond(le);
    for (let i = 0; i < n; i++) {
      const k = le ? i : n - 1 - i;
      const c = T.extract(k * 8 + 7, k * 8, t);
      this.u.b.write(R().add(this.u.o, R().add(off, i)), T.isC(c) ? Number(c.val) : c);
    }
  }
  getUint8(o) { return unum(this.load(o, 1)); }
  getInt8(o) { return S.snum(this.load(o, 1)); }
  getUint16(o, le) { return unum(this.load(o, 2, le)); }
  getInt16(o, le) { return S.snum(this.load(o, 2, le)); }
  getUint32(o, le) { return unum(this.load(o, 4, le)); }
  getInt32(o, le) { return S.snum(this.load(o, 4, le)); }
  getBigUint64(o, le) { return S.ubig(this.load(o, 8, le)); }
  getBigInt64(o, le) { return S.sbig(this.load(o, 8, le)); }
  getFloat64(o, le) { const t = this.load(o, 8, le); if (T.isC(t)) { const d = new DataView(new ArrayBuffer(8)); d.setBigUint64(0, t.val); return d.getFloat64(0); } return new SymF64(t); }
  getFloat32() { unsupported("float32"); }
  putInt(o, v, n, le) {
    if (typeof v === "bigint" || v instanceof SymBig) throw new TypeError("Cannot convert a BigInt value to a number");
    v = S.numeric(v);
    if (v instanceof S.SymFrac) v = R().trunc(v);
    if (typeof v === "number" && !Number.isInteger(v)) v = Number.isFinite(v) ? Math.trunc(v) : 0;
    const x = iv(v);
    this.store(o, n, resize(x.t.w < n * 8 ? T.sext(x.t, n * 8) : x.t, n * 8), le);
  }
  setUint8(o, v) { this.putInt(o, v, 1, true); }
  setInt8(o, v) { this.putInt(o, v, 1, true); }
  setUint16(o, v, le) { this.putInt(o, v, 2, le); }
  setInt16(o, v, le) { this.putInt(o, v, 2, le); }
  setUint32(o, v, le) { this.putInt(o, v, 4, le); }
  setInt32(o, v, le) { this.putInt(o, v, 4, le); }
  putBig(o, v, le) { if (typeof v === "number" || v instanceof SymNum) throw new TypeError("Cannot convert a number to a BigInt"); const x = iv(v); this.store(o, 8, resize(x.t.w < 64 ? T.sext(x.t, 64) : x.t, 64), le); }
  setBigUint64(o, v, le) { this.putBig(o, v, le); }
  setBigInt64(o, v, le) { this.putBig(o, v, le); }
  setFloat64(o, v, le) {
    if (v instanceof SymF64) { this.store(o, 8, v.t, le); return; }
    if (isSym(v)) unsupported("float64 of a symbolic integer");
    const d = new DataView(new ArrayBuffer(8)); d.setFloat64(0, Number(v)); this.store(o, 8, T.bv(d.getBigUint64(0), 64), le);
  }
  setFloat32() { unsupported("float32"); }
  get [Symbol.toStringTag]() { return "DataView"; }
}
module.exports = { Block, U8, SArrayBuffer, SDataView, snapshot, tableReader, idxT, cellT, toByte, IW };
class TypedArrayModel { static [Symbol.hasInstance](v) { return v instanceof U8 || v instanceof Object.getPrototypeOf(Uint8Array); } }
Object.setPrototypeOf(U8, TypedArrayModel);
