"use strict";
// Hash-consed SMT terms over Bool (w = 0) and bit-vectors (w > 0), with light local simplification.
// A term is {op, w, args, val, name, hi, lo, id}.
const table = new Map();
let nextId = 1;
const masks = [];
function mask(w) { return masks[w] ??= (1n << BigInt(w)) - 1n; }
function mk(op, w, args, extra) {
  let key = op + ":" + w + ":";
  for (const a of args) key += a.id + ",";
  if (extra !== undefined) key += "|" + extra;
  let t = table.get(key);
  if (t === undefined) {
    t = { op, w, args, id: nextId++, extra, defined: false };
    table.set(key, t);
  }
  return t;
}
const TRUE = mk("true", 0, []); const FALSE = mk("false", 0, []);
TRUE.val = 1n; FALSE.val = 0n;
function bool(b) { return b ? TRUE : FALSE; }
function bv(v, w) {
  v = BigInt(v) & mask(w);
  const t = mk("const", w, [], v.toString(w > 256 ? 16 : 10));
  t.val = v;
  return t;
}
const isC = (t) => t.val !== undefined;
function toSigned(v, w) { return (v >> BigInt(w - 1)) & 1n ? v - (1n << BigInt(w)) : v; }
function variable(name, w) { const t = mk("var", w, [], name); t.name = name; return t; }
function uf(name, w, args) { const t = mk("uf", w, args, name); t.name = name; return t; }

function not(a) {
  if (isC(a)) return bool(!a.val);
  if (a.op === "not") return a.args[0];
  return mk("not", 0, [a]);
}
function and(...xs) {
  const s = new Set();
  for (const x of xs) {
    if (x === FALSE) return FALSE;
    if (x === TRUE) continue;
    if (x.op === "and") { for (const y of x.args) s.add(y); } else s.add(x);
  }
  for (const x of s) if (s.has(x.op === "not" ? x.args[0] : NOTC(x))) return FALSE;
  if (s.size === 0) return TRUE;
  if (s.size === 1) return [...s][0];
  return mk("and", 0, [...s]);
}
function NOTC(x) { return table.get("not:0:" + x.id + ","); }
function or(...xs) {
  const s = new Set();
  for (const x of xs) {
    if (x === TRUE) return TRUE;
    if (x === FALSE) continue;
    if (x.op === "or") { for (const y of x.args) s.add(y); } else s.add(x);
  }
  for (const x of s) { const n = x.op === "not" ? x.args[0] : NOTC(x); if (n && s.has(n)) return TRUE; }
  if (s.size === 0) return FALSE;
  if (s.size === 1) return [...s][0];
  return mk("or", 0, [...s]);
}
function implies(a, b) { return or(not(a), b); }
function ite(c, a, b) {
  if (c === TRUE) return a;
  if (c === FALSE) return b;
  if (a === b) return a;
  if (a.w !== b.w) throw new Error("ite width " + a.w + " " + b.w);
  if (a.w === 0) {
    if (a === TRUE && b === FALSE) return c;
    if (a === FALSE && b === TRUE) return not(c);
    if (a === TRUE) return or(c, b);
    if (a === FALSE) return and(not(c), b);
    if (b === FALSE) return and(c, a);
    if (b === TRUE) return or(not(c), a);
  }
  if (c.op === "not") return ite(c.args[0], b, a);
  if (a.op === "ite" && a.args[0] === c) a = a.args[1];
  if (b.op === "ite" && b.args[0] === c) b = b.args[2];
  if (a === b) return a;
  return mk("ite", a.w, [c, a, b]);
}
function eq(a, b) {
  if (a === b) return TRUE;
  if (a.w !== b.w) throw new Error("eq width " + a.w + " " + b.w);
  if (isC(a) && isC(b)) return bool(a.val === b.val);
  if (a.w === 0) {
    if (a === TRUE) return b; if (b === TRUE) return a;
    if (a === FALSE) return not(b); if (b === FALSE) return not(a);
  }
  if (a.w > 0 && !isC(a) && !isC(b)) { // same base, constant offsets
    const A = a.op === "bvadd" && isC(a.args[1]) ? a.args : [a, null], B = b.op === "bvadd" && isC(b.args[1]) ? b.args : [b, null];
    if ((A[1] || B[1]) && A[0] === B[0]) return bool((A[1] ? A[1].val : 0n) === (B[1] ? B[1].val : 0n));
  }
  if (isC(a)) [a, b] = [b, a];
  if (isC(b) && a.w > 0) {
    // push constants through ite / concat / extensions
    if (a.op === "ite" && isC(a.args[1]) && isC(a.args[2])) {
      return ite(a.args[0], bool(a.args[1].val === b.val), bool(a.args[2].val === b.val));
    }
    if (a.op === "ite" && (isC(a.args[1]) || isC(a.args[2]))) {
      return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b));
    }
    if (a.op === "zext") {
      const iw = a.args[0].w;
      if (b.val >> BigInt(iw)) return FALSE;
      return eq(a.args[0], bv(b.val, iw));
    }
    if (a.op === "sext") {
      const iw = a.args[0].w, s = toSigned(b.val, b.w);
      if (BigInt.asIntN(iw, s) !== s) return FALSE;
      return eq(a.args[0], bv(s, iw));
    }
    if (a.op === "concat") {
      const [h, l] = a.args;
      return and(eq(h, extract(a.w - 1, l.w, b)), eq(l, extract(l.w - 1, 0, b)));
    }
    if (a.op === "bvnot") return eq(a.args[0], bvnot(b));
    if (a.op === "bvadd" && isC(a.args[1])) return eq(a.args[0], sub(b, a.args[1]));
    if (a.op === "bvxor" && isC(a.args[1])) return eq(a.args[0], bvxor(b, a.args[1]));
  }
  if ((a.op === "zext" && b.op === "zext" || a.op === "sext" && b.op === "sext") && a.args[0].w === b.args[0].w) return eq(a.args[0], b.args[0]);
  if (a.op === "concat" && b.op === "concat" && a.args[1].w === b.args[1].w) return and(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]));
  if (a.op === "bvxor" && b.op === "bvxor") {
    for (const i of [0, 1]) for (const j of [0, 1]) if (a.args[i] === b.args[j]) return eq(a.args[1 - i], b.args[1 - j]);
  }
  if (a.id > b.id) [a, b] = [b, a];
  return mk("=", 0, [a, b]);
}
function extract(hi, lo, a) {
  const w = hi - lo + 1;
  if (w === a.w) return a;
  if (w <= 0 || hi >= a.w || lo < 0) throw new Error(`extract ${hi} ${lo} of ${a.w}`);
  if (isC(a)) return bv(a.val >> BigInt(lo), w);
  switch (a.op) {
    case "extract": return extract(hi + a.lo, lo + a.lo, a.args[0]);
    case "concat": {
      const [h, l] = a.args;
      if (hi < l.w) return extract(hi, lo, l);
      if (lo >= l.w) return extract(hi - l.w, lo - l.w, h);
      return concat(extract(hi - l.w, 0, h), extract(l.w - 1, lo, l));
    }
    case "zext": {
      const x = a.args[0];
      if (hi < x.w) return extract(hi, lo, x);
      if (lo >= x.w) return bv(0, w);
      return zext(extract(x.w - 1, lo, x), w);
    }
    case "sext": {
      const x = a.args[0];
      if (hi < x.w) return extract(hi, lo, x);
      if (lo < x.w) return sext(extract(x.w - 1, lo, x), w);
      if (lo >= x.w) return sext(extract(x.w - 1, x.w - 1, x), w);
      break;
    }
    case "bvand": case "bvor": case "bvxor":
      return (a.op === "bvand" ? bvand : a.op === "bvor" ? bvor : bvxor)(extract(hi, lo, a.args[0]), extract(hi, lo, a.args[1]));
    case "bvnot": return bvnot(extract(hi, lo, a.args[0]));
    case "ite":
      if (isC(a.args[1]) || isC(a.args[2]) || a.args[1].op === "concat" || a.args[2].op === "concat" || a.args[1].op === "zext" || a.args[2].op === "zext" || a.args[1].op === "sext" || a.args[2].op === "sext") return ite(a.args[0], extract(hi, lo, a.args[1]), extract(hi, lo, a.args[2]));
      break;
    case "bvadd": case "bvsub": case "bvmul":
      if (lo === 0) return (a.op === "bvadd" ? add : a.op === "bvsub" ? sub : mul)(extract(hi, 0, a.args[0]), extract(hi, 0, a.args[1]));
      break;
    case "bvneg":
      if (lo === 0) return neg(extract(hi, 0, a.args[0]));
      break;
  }
  const t = mk("extract", w, [a], hi + "," + lo);
  t.hi = hi; t.lo = lo;
  return t;
}
function concat(...parts) {
  if (parts.length === 1) return parts[0];
  if (parts.length > 16) { // join runs of constants at once
    const out = [];
    for (let i = 0; i < parts.length;) {
      let j = i; while (j < parts.length && isC(parts[j]) && parts[j].w % 4 === 0) j++;
      if (j - i < 2) { out.push(parts[i]); i++; continue; }
      let h = "", w = 0; for (; i < j; i++) { h += parts[i].val.toString(16).padStart(parts[i].w / 4, "0"); w += parts[i].w; }
      out.push(bv(BigInt("0x" + h), w));
    }
    parts = out;
    if (parts.length === 1) return parts[0];
  }
  if (parts.length > 2) return parts.reduceRight((acc, p) => concat2(p, acc));
  return concat2(parts[0], parts[1]);
}
// right-nested: concat(h, rest); flattened so that adjacent extracts merge
function concat2(h, l) {
  if (h.op === "concat") return concat2(h.args[0], concat2(h.args[1], l));
  if (isC(h) && isC(l)) return bv((h.val << BigInt(l.w)) | l.val, h.w + l.w);
  const first = l.op === "concat" ? l.args[0] : l;
  let merged;
  if (isC(h) && isC(first)) merged = bv((h.val << BigInt(first.w)) | first.val, h.w + first.w);
  else {
    const [hb, hh, hl] = h.op === "extract" ? [h.args[0], h.hi, h.lo] : [h, h.w - 1, 0];
    const [fb, fh, fl] = first.op === "extract" ? [first.args[0], first.hi, first.lo] : [first, first.w - 1, 0];
    if (hb === fb && hl === fh + 1) merged = extract(hh, fl, hb);
    else if (isC(h) && h.val === 0n && false) merged = undefined;
  }
  if (merged) return l.op === "concat" ? concat2(merged, l.args[1]) : merged;
  if (isC(h) && h.val === 0n) {
    // zero-extension normal form, so that zext and concat with zeros agree
    return zext(l, h.w + l.w);
  }
  return mk("concat", h.w + l.w, [h, l]);
}
function zext(a, w) {
  if (w === a.w) return a;
  if (w < a.w) throw new Error("zext");
  if (isC(a)) return bv(a.val, w);
  if (a.op === "zext") return zext(a.args[0], w);
  if (a.op === "ite" && isC(a.args[1]) && isC(a.args[2])) return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w));
  return mk("zext", w, [a]);
}
function sext(a, w) {
  if (w === a.w) return a;
  if (w < a.w) throw new Error("sext");
  if (isC(a)) return bv(toSigned(a.val, a.w), w);
  if (a.op === "sext") return sext(a.args[0], w);
  if (a.op === "zext") return zext(a.args[0], w);
  if (a.op === "ite" && isC(a.args[1]) && isC(a.args[2])) return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w));
  return mk("sext", w, [a]);
}
function add(a, b) {
  if (isC(a) && isC(b)) return bv(a.val + b.val, a.w);
  if (isC(a)) [a, b] = [b, a];
  if (isC(b)) {
    if (b.val === 0n) return a;
    if (a.op === "bvadd" && isC(a.args[1])) return add(a.args[0], add(a.args[1], b));
  } else {
    if (a.op === "bvadd" && isC(a.args[1])) return add(add(a.args[0], b), a.args[1]);
    if (b.op === "bvadd" && isC(b.args[1])) return add(add(a, b.args[0]), b.args[1]);
    if (b.op === "bvneg" && b.args[0] === a || a.op === "bvneg" && a.args[0] === b) return bv(0, a.w);
    if (b.op === "bvneg" && a.op === "bvadd") { if (a.args[0] === b.args[0]) return a.args[1]; if (a.args[1] === b.args[0]) return a.args[0]; }
    if (a.id > b.id) [a, b] = [b, a];
  }
  return mk("bvadd", a.w, [a, b]);
}
function neg(a) {
  if (isC(a)) return bv(-a.val, a.w);
  if (a.op === "bvneg") return a.args[0];
  return mk("bvneg", a.w, [a]);
}
function sub(a, b) {
  if (isC(b)) return add(a, bv(-b.val, b.w));
  if (a === b) return bv(0, a.w);
  if (a.op === "bvadd") { if (a.args[0] === b) return a.args[1]; if (a.args[1] === b) return a.args[0]; }
  return add(a, neg(b));
}
function mul(a, b) {
  if (isC(a) && isC(b)) return bv(a.val * b.val, a.w);
  if (isC(a)) [a, b] = [b, a];
  if (isC(b)) {
    if (b.val === 0n) return b;
    if (b.val === 1n) return a;
    if (a.op === "bvmul" && isC(a.args[1])) return mul(a.args[0], mul(a.args[1], b));
    // power of two -> concat with zeros
    const v = b.val;
    if ((v & (v - 1n)) === 0n) { const k = v.toString(2).length - 1; return concat(extract(a.w - 1 - k, 0, a), bv(0, k)); }
  } else if (a.id > b.id) [a, b] = [b, a];
  return mk("bvmul", a.w, [a, b]);
}
function bitop(op, f, a, b) {
  if (isC(a) && isC(b)) return bv(f(a.val, b.val), a.w);
  if (isC(a)) [a, b] = [b, a];
  if (isC(b)) {
    if (op === "bvand") { if (b.val === 0n) return b; if (b.val === mask(a.w)) return a; }
    if (op === "bvor") { if (b.val === 0n) return a; if (b.val === mask(a.w)) return b; }
    if (op === "bvxor") { if (b.val === 0n) return a; if (b.val === mask(a.w)) return bvnot(a); }
    if (op === "bvand" || op === "bvor") {
      // split the constant into runs of equal bits
      const s = b.val.toString(2).padStart(a.w, "0");
      const parts = [];
      let i = 0;
      while (i < s.length) { let j = i; while (j < s.length && s[j] === s[i]) j++; parts.push([s[i], a.w - 1 - i, a.w - j]); i = j; }
      if (parts.length <= 3) {
        return concat(...parts.map(([bit, hi, lo]) => (bit === "1") === (op === "bvand") ? extract(hi, lo, a) : bit === "1" ? bv(mask(hi - lo + 1), hi - lo + 1) : bv(0, hi - lo + 1)));
      }
    }
    if (a.op === op && isC(a.args[1])) return bitop(op, f, a.args[0], bv(f(a.args[1].val, b.val), a.w));
  } else {
    if (a === b) return op === "bvxor" ? bv(0, a.w) : a;
    if (op === "bvxor") {
      if (b.op === "bvxor") { if (b.args[0] === a) return b.args[1]; if (b.args[1] === a) return b.args[0]; }
      if (a.op === "bvxor") { if (a.args[0] === b) return a.args[1]; if (a.args[1] === b) return a.args[0]; }
    }
    if (op !== "bvand" || true) {
      // align pieces so that or-ing disjoint shifted fields becomes a concatenation
      const cuts = cutsOf(a, b);
      if (cuts) {
        const ps = [];
        let prev = a.w;
        for (const c of cuts) { ps.push(bitop(op, f, extract(prev - 1, c, a), extract(prev - 1, c, b))); prev = c; }
        return concat(...ps);
      }
    }
    if (a.id > b.id) [a, b] = [b, a];
  }
  return mk(op, a.w, [a, b]);
}
function pieces(a) { // [[width, isConst]] from the top, or null when monolithic
  if (a.op === "concat") { const r = []; let x = a; while (x.op === "concat") { r.push(...(pieces(x.args[0]) ?? [x.args[0].w])); x = x.args[1]; } r.push(...(pieces(x) ?? [x.w])); return r; }
  if (a.op === "zext") { return [a.w - a.args[0].w, ...(pieces(a.args[0]) ?? [a.args[0].w])]; }
  return null;
}
function cutsOf(a, b) {
  const pa = pieces(a), pb = pieces(b);
  if (!pa && !pb) return null;
  const hasZero = (t) => t.op === "zext" || t.op === "concat" && (isC(t.args[0]) || hasZero(t.args[0]) || isC(t.args[1]) || hasZero(t.args[1]));
  if (!hasZero(a) && !hasZero(b)) return null;
  const set = new Set([0]);
  for (const p of [pa, pb]) if (p) { let pos = a.w; for (const w of p) { pos -= w; set.add(pos); } }
  if (set.size < 2) return null;
  return [...set].sort((x, y) => y - x);
}
const bvand = (a, b) => bitop("bvand", (x, y) => x & y, a, b);
const bvor = (a, b) => bitop("bvor", (x, y) => x | y, a, b);
const bvxor = (a, b) => bitop("bvxor", (x, y) => x ^ y, a, b);
function bvnot(a) {
  if (isC(a)) return bv(~a.val, a.w);
  if (a.op === "bvnot") return a.args[0];
  return mk("bvnot", a.w, [a]);
}
function shl(a, b) {
  if (isC(b)) {
    const k = b.val >= BigInt(a.w) ? a.w : Number(b.val);
    if (k === 0) return a;
    if (k >= a.w) return bv(0, a.w);
    return concat(extract(a.w - 1 - k, 0, a), bv(0, k));
  }
  if (isC(a) && a.val === 0n) return a;
  return mk("bvshl", a.w, [a, b]);
}
function lshr(a, b) {
  if (isC(b)) {
    const k = b.val >= BigInt(a.w) ? a.w : Number(b.val);
    if (k === 0) return a;
    if (k >= a.w) return bv(0, a.w);
    return zext(extract(a.w - 1, k, a), a.w);
  }
  if (isC(a) && a.val === 0n) return a;
  return mk("bvlshr", a.w, [a, b]);
}
function ashr(a, b) {
  if (isC(b)) {
    const k = b.val >= BigInt(a.w) ? a.w - 1 : Number(b.val);
    if (k === 0) return a;
    return sext(extract(a.w - 1, k, a), a.w);
  }
  return mk("bvashr", a.w, [a, b]);
}
function udiv(a, b) {
  if (isC(b) && b.val !== 0n) {
    if (isC(a)) return bv(a.val / b.val, a.w);
    const v = b.val;
    if ((v & (v - 1n)) === 0n) return lshr(a, bv(v.toString(2).length - 1, a.w));
  }
  return mk("bvudiv", a.w, [a, b]);
}
function urem(a, b) {
  if (isC(b) && b.val !== 0n) {
    if (isC(a)) return bv(a.val % b.val, a.w);
    const v = b.val;
    if ((v & (v - 1n)) === 0n) return bvand(a, bv(v - 1n, a.w));
  }
  return mk("bvurem", a.w, [a, b]);
}
function sdiv(a, b) {
  if (isC(b) && b.val !== 0n && isC(a)) return bv(toSigned(a.val, a.w) / toSigned(b.val, b.w), a.w);
  return mk("bvsdiv", a.w, [a, b]);
}
function srem(a, b) {
  if (isC(b) && b.val !== 0n && isC(a)) return bv(toSigned(a.val, a.w) % toSigned(b.val, b.w), a.w);
  return mk("bvsrem", a.w, [a, b]);
}
function ult(a, b) {
  if (a === b) return FALSE;
  if (isC(a) && isC(b)) return bool(a.val < b.val);
  if (isC(b) && b.val === 0n) return FALSE;
  if (a.op === "zext" && b.op === "zext" && a.args[0].w === b.args[0].w) return ult(a.args[0], b.args[0]);
  return mk("bvult", 0, [a, b]);
}
function slt(a, b) {
  if (a === b) return FALSE;
  if (isC(a) && isC(b)) return bool(toSigned(a.val, a.w) < toSigned(b.val, b.w));
  return mk("bvslt", 0, [a, b]);
}
const ule = (a, b) => not(ult(b, a));
const sle = (a, b) => not(slt(b, a));

// ---- concrete evaluation under a model {name -> bigint}; ufs: (name,argsVals)->bigint
function evaluate(root, model, ufEval) {
  const memo = new Map();
  const stack = [root];
  while (stack.length) {
    const t = stack[stack.length - 1];
    if (memo.has(t.id)) { stack.pop(); continue; }
    if (t.val !== undefined) { memo.set(t.id, t.val); stack.pop(); continue; }
    let ready = true;
    for (const a of t.args) if (!memo.has(a.id)) { stack.push(a); ready = false; }
    if (!ready) continue;
    stack.pop();
    const v = t.args.map((a) => memo.get(a.id));
    const m = t.w > 0 ? mask(t.w) : 1n, aw = t.args[0]?.w;
    let r;
    switch (t.op) {
      case "var": r = model.get(t.name) ?? 0n; break;
      case "uf": r = ufEval ? ufEval(t.name, v) : undefined; if (r === undefined) return undefined; break;
      case "not": r = v[0] ? 0n : 1n; break;
      case "and": r = v.every(Boolean) ? 1n : 0n; break;
      case "or": r = v.some(Boolean) ? 1n : 0n; break;
      case "ite": r = v[0] ? v[1] : v[2]; break;
      case "=": r = v[0] === v[1] ? 1n : 0n; break;
      case "extract": r = (v[0] >> BigInt(t.lo)) & m; break;
      case "concat": r = (v[0] << BigInt(t.args[1].w)) | v[1]; break;
      case "zext": r = v[0]; break;
      case "sext": r = toSigned(v[0], aw) & m; break;
      case "bvadd": r = (v[0] + v[1]) & m; break;
      case "bvneg": r = (-v[0]) & m; break;
      case "bvmul": r = (v[0] * v[1]) & m; break;
      case "bvand": r = v[0] & v[1]; break;
      case "bvor": r = v[0] | v[1]; break;
      case "bvxor": r = v[0] ^ v[1]; break;
      case "bvnot": r = (~v[0]) & m; break;
      case "bvshl": r = v[1] >= BigInt(aw) ? 0n : (v[0] << v[1]) & m; break;
      case "bvlshr": r = v[1] >= BigInt(aw) ? 0n : v[0] >> v[1]; break;
      case "bvashr": r = (toSigned(v[0], aw) >> (v[1] >= BigInt(aw) ? BigInt(aw) : v[1])) & m; break;
      case "bvudiv": r = v[1] === 0n ? m : v[0] / v[1]; break;
      case "bvurem": r = v[1] === 0n ? v[0] : v[0] % v[1]; break;
      case "bvsdiv": { const x = toSigned(v[0], aw), y = toSigned(v[1], aw); r = (y === 0n ? (x < 0n ? 1n : -1n) : x / y) & m; break; }
      case "bvsrem": { const x = toSigned(v[0], aw), y = toSigned(v[1], aw); r = (y === 0n ? x : x % y) & m; break; }
      case "bvult": r = v[0] < v[1] ? 1n : 0n; break;
      case "bvslt": r = toSigned(v[0], aw) < toSigned(v[1], aw) ? 1n : 0n; break;
      default: throw new Error("eval " + t.op);
    }
    memo.set(t.id, r);
  }
  return memo.get(root.id);
}
const SMT = { not: "not", and: "and", or: "or", ite: "ite", "=": "=", concat: "concat" };
const sortOf = (w) => w === 0 ? "Bool" : `(_ BitVec ${w})`;
const q = (n) => "|" + n.replace(/[|\\]/g, "_") + "|";
// emit definitions needed for t through emit(line); returns its SMT reference
const ufDecl = new Map();
function ref(t, emit) {
  const stack = [t];
  while (stack.length) {
    const x = stack[stack.length - 1];
    if (x.smt) { stack.pop(); continue; }
    let ready = true;
    for (const a of x.args) if (!a.smt) { stack.push(a); ready = false; }
    if (!ready) continue;
    stack.pop();
    const A = x.args.map((a) => a.smt);
    if (x.op === "true" || x.op === "false") { x.smt = x.op; continue; }
    if (x.op === "const") { x.smt = x.w % 4 === 0 ? "#x" + x.val.toString(16).padStart(x.w / 4, "0") : "#b" + x.val.toString(2).padStart(x.w, "0"); continue; }
    if (x.op === "var") { emit(`(declare-const ${q(x.name)} ${sortOf(x.w)})`); x.smt = q(x.name); continue; }
    let body;
    switch (x.op) {
      case "uf": {
        if (!ufDecl.has(x.name)) { ufDecl.set(x.name, true); emit(`(declare-fun ${q(x.name)} (${x.args.map((a) => sortOf(a.w)).join(" ")}) ${sortOf(x.w)})`); }
        body = x.args.length ? `(${q(x.name)} ${A.join(" ")})` : q(x.name); break;
      }
      case "extract": body = `((_ extract ${x.hi} ${x.lo}) ${A[0]})`; break;
      case "zext": body = `((_ zero_extend ${x.w - x.args[0].w}) ${A[0]})`; break;
      case "sext": body = `((_ sign_extend ${x.w - x.args[0].w}) ${A[0]})`; break;
      default: body = `(${SMT[x.op] ?? x.op} ${A.join(" ")})`;
    }
    if (body.length < 40) { x.smt = body; continue; }
    emit(`(define-fun t${x.id} () ${sortOf(x.w)} ${body})`);
    x.smt = "t" + x.id;
  }
  return t.smt;
}
function collectVars(roots) {
  const seen = new Set(), vars = [], ufs = [];
  const st = [...roots];
  while (st.length) { const t = st.pop(); if (seen.has(t.id)) continue; seen.add(t.id); if (t.op === "var") vars.push(t); if (t.op === "uf") ufs.push(t); for (const a of t.args) st.push(a); }
  return { vars, ufs };
}
// the value of a condition that is the same for all values of its one small variable, or undefined
function constant(t) {
  if (t.always !== undefined) return t.always ?? undefined;
  if (t === TRUE) return true; if (t === FALSE) return false;
  if (t.op === "not") { const r = constant(t.args[0]); t.always = r === undefined ? null : !r; return t.always ?? undefined; }
  if ((t.op === "and" || t.op === "or") && t.args.length <= 8) {
    const all = t.args.map(constant), end = t.op === "or";
    if (all.some((x) => x === end)) { t.always = end; return end; }
    if (all.every((x) => x === !end)) { t.always = !end; return !end; }
  }
  let v = null, n = 0;
  const seen = new Set(), st = [t];
  while (st.length) {
    const x = st.pop(); if (seen.has(x.id)) continue; seen.add(x.id);
    if (++n > 60 || x.op === "uf" || (x.op === "var" && ((v && v !== x) || x.w > 8))) { t.always = null; return undefined; }
    if (x.op === "var") v = x;
    for (const a of x.args) st.push(a);
  }
  let r = v ? undefined : null;
  if (v) for (let i = 0n; i < 1n << BigInt(v.w || 1); i++) { const y = evaluate(t, new Map([[v.name, i]])); if (r === undefined) r = y; else if (r !== y) { r = null; break; } }
  t.always = r === null || r === undefined ? null : r === 1n;
  return t.always ?? undefined;
}
module.exports = { constant, TRUE, FALSE, bool, bv, isC, toSigned, variable, uf, not, and, or, implies, ite, eq, extract, concat, zext, sext, add, sub, neg, mul, bvand, bvor, bvxor, bvnot, shl, lshr, ashr, udiv, urem, sdiv, srem, ult, slt, ule, sle, evaluate, ref, sortOf, q, mask, collectVars, table };
