"use strict";
// Backtracking regular expressions over strings with symbolic code units (forks on each symbolic character test).
const { E, unsupported } = require("./core.js");
const { Str, isSym } = require("./sym.js");
const rt = E.rt;
const cache = new Map();
function parse(re) {
  const key = re.source + "/" + re.flags;
  if (cache.has(key)) return cache.get(key);
  const s = re.source, flags = re.flags;
  if (flags.includes("u") || flags.includes("v")) { /* code points beyond the BMP match unit by unit; only used with BMP classes */ }
  let i = 0, ngroups = 0; const names = {};
  const ranges = (...r) => r;
  const D = [[48, 57]], W = [[48, 57], [65, 90], [95, 95], [97, 122]], SP = [[9, 13], [32, 32], [0xA0, 0xA0], [0xFEFF, 0xFEFF], [0x1680, 0x1680], [0x2000, 0x200A], [0x2028, 0x2029], [0x202F, 0x202F], [0x205F, 0x205F], [0x3000, 0x3000]];
  const neg = (r) => { const o = []; let p = 0; for (const [a, b] of r.slice().sort((x, y) => x[0] - y[0])) { if (a > p) o.push([p, a - 1]); p = b + 1; } if (p <= 65535) o.push([p, 65535]); return o; };
  function esc(inClass) {
    const c = s[i++];
    switch (c) {
      case "d": return { r: D }; case "D": return { r: neg(D) }; case "w": return { r: W }; case "W": return { r: neg(W) }; case "s": return { r: SP }; case "S": return { r: neg(SP) };
      case "n": return { c: 10 }; case "r": return { c: 13 }; case "t": return { c: 9 }; case "v": return { c: 11 }; case "f": return { c: 12 }; case "0": return { c: 0 };
      case "x": { const h = s.slice(i, i + 2); i += 2; return { c: parseInt(h, 16) }; }
      case "u": if (s[i] === "{") { const e = s.indexOf("}", i); const h = s.slice(i + 1, e); i = e + 1; return { c: parseInt(h, 16) }; } { const h = s.slice(i, i + 4); i += 4; return { c: parseInt(h, 16) }; }
      case "b": if (inClass) return { c: 8 }; return { wb: true }; case "B": return { nwb: true };
      case "p": case "P": unsupported("unicode property in a regular expression");
    }
    if (/[1-9]/.test(c)) return { back: Number(c) };
    return { c: c.charCodeAt(0) };
  }
  function cls() {
    const n = s[i] === "^"; if (n) i++;
    const r = [];
    while (s[i] !== "]") {
      let a;
      if (s[i] === "\\") { i++; a = esc(true); } else { a = { c: s.charCodeAt(i++) }; }
      if (a.r) { r.push(...a.r); continue; }
      if (s[i] === "-" && s[i + 1] !== "]") {
        i++; let b; if (s[i] === "\\") { i++; b = esc(true); } else b = { c: s.charCodeAt(i++) };
        r.push([a.c, b.c]);
      } else r.push([a.c, a.c]);
    }
    i++;
    return { t: "set", r, n };
  }
  function atom() {
    const c = s[i];
    if (c === "(") {
      i++;
      let cap = null, look = null, name = null;
      if (s.startsWith("?:", i)) i += 2;
      else if (s.startsWith("?=", i)) { i += 2; look = "="; } else if (s.startsWith("?!", i)) { i += 2; look = "!"; }
      else if (s.startsWith("?<=", i) || s.startsWith("?<!", i)) unsupported("lookbehind");
      else if (s.startsWith("?<", i)) { const e = s.indexOf(">", i); name = s.slice(i + 2, e); i = e + 1; cap = ++ngroups; names[name] = cap; }
      else cap = ++ngroups;
      const body = alt(); i++;
      return look ? { t: "look", neg: look === "!", body } : { t: "group", cap, body };
    }
    if (c === "[") { i++; return cls(); }
    if (c === ".") { i++; return flags.includes("s") ? { t: "set", r: [[0, 65535]] } : { t: "set", r: [[10, 10], [13, 13], [0x2028, 0x2029]], n: true }; }
    if (c === "^") { i++; return { t: "bol" }; }
    if (c === "$") { i++; return { t: "eol" }; }
    if (c === "\\") { i++; const e = esc(false); if (e.wb) return { t: "wb" }; if (e.nwb) return { t: "wb", n: true }; if (e.back) return { t: "back", k: e.back }; return { t: "set", r: e.r ?? [[e.c, e.c]] }; }
    i++;
    return { t: "set", r: [[c.charCodeAt(0), c.charCodeAt(0)]] };
  }
  function seq() {
    const items = [];
    while (i < s.length && s[i] !== "|" && s[i] !== ")") {
      const g0 = ngroups;
      let a = atom(), mn = 1, mx = 1, q = true;
      if (s[i] === "*") { mn = 0; mx = Infinity; i++; } else if (s[i] === "+") { mx = Infinity; i++; } else if (s[i] === "?") { mn = 0; i++; }
      else if (s[i] === "{" && /^\{\d+(,\d*)?\}/.test(s.slice(i))) { const m = /^\{(\d+)(,(\d*))?\}/.exec(s.slice(i)); mn = Number(m[1]); mx = m[2] === undefined ? mn : m[3] ? Number(m[3]) : Infinity; i += m[0].length; } else q = false;
      let lazy = false; if (q && s[i] === "?") { lazy = true; i++; }
      if (q) a = { t: "rep", a, mn, mx, lazy, g0, g1: ngroups };
      items.push(a);
    }
    return { t: "seq", items };
  }
  function alt() { const opts = [seq()]; while (s[i] === "|") { i++; opts.push(seq()); } return opts.length === 1 ? opts[0] : { t: "alt", opts }; }
  const ast = alt();
  const r = { ast, ngroups, names };
  cache.set(key, r);
  return r;
}
function inSet(c, node, icase) {
  const R = rt;
  let parts = [];
  const rs = node.r;
  for (const [a, b] of rs) parts.push(a === b ? R.seq(c, a) : R.landv(R.ge(c, a), R.le(c, b)));
  if (icase) for (const [a, b] of rs) for (const [lo, hi, d] of [[65, 90, 32], [97, 122, -32]]) { const l = Math.max(a, lo), h = Math.min(b, hi); if (l <= h) parts.push(R.landv(R.ge(c, l + d), R.le(c, h + d))); }
  const r = R.lorv(...parts);
  return R.cond(node.n ? R.not(r) : r);
}
function exec(re, str, from) {
  const { ast, ngroups, names } = parse(re);
  const u = Str.of(str).u, n = u.length, icase = re.flags.includes("i"), ml = re.flags.includes("m");
  let caps = new Array(ngroups + 1).fill(undefined);
  const word = (k) => k >= 0 && k < n && inSet(u[k], { r: [[48, 57], [65, 90], [95, 95], [97, 122]] }, false);
  const m = (node, p, k) => {
    switch (node.t) {
      case "set": return p < n && inSet(u[p], node, icase) ? k(p + 1) : false;
      case "seq": { const go = (j, p) => j === node.items.length ? k(p) : m(node.items[j], p, (p2) => go(j + 1, p2)); return go(0, p); }
      case "alt": for (const o of node.opts) if (m(o, p, k)) return true; return false;
      case "group": { const old = node.cap ? caps[node.cap] : 0; if (m(node.body, p, (p2) => { const o2 = node.cap ? caps[node.cap] : 0; if (node.cap) caps[node.cap] = [p, p2]; if (k(p2)) return true; if (node.cap) caps[node.cap] = o2; return false; })) return true; if (node.cap) caps[node.cap] = old; return false; }
      case "look": { const saved = caps.slice(); const r = m(node.body, p, () => true); if (node.neg) { caps = saved; return !r && k(p); } if (!r) { caps = saved; return false; } return k(p) || (caps = saved, false); }
      case "rep": {
        const go = (c, p) => {
          const more = () => c < node.mx && m(node.a, p, (p2) => (p2 === p && c >= node.mn) ? false : go(c + 1, p2));
          if (c < node.mn) return more();
          if (node.lazy) return k(p) || more();
          return more() || k(p);
        };
        return go(0, p);
      }
      case "bol": return (p === 0 || ml && inSet(u[p - 1], { r: [[10, 10], [13, 13], [0x2028, 0x2029]] })) && k(p);
      case "eol": return (p === n || ml && inSet(u[p], { r: [[10, 10], [13, 13], [0x2028, 0x2029]] })) && k(p);
      case "wb": return (word(p - 1) !== word(p)) !== !!node.n && k(p);
      case "back": unsupported("backreference");
    }
    throw new Error("regex node " + node.t);
  };
  const last = re.sticky ? from : n;
  for (let p = from; p <= last; p++) {
    caps = new Array(ngroups + 1).fill(undefined);
    let end = -1;
    if (m(ast, p, (e) => { end = e; return true; })) {
      const r = [Str.norm(u.slice(p, end))];
      for (let g = 1; g <= ngroups; g++) r.push(caps[g] ? Str.norm(u.slice(caps[g][0], caps[g][1])) : undefined);
      r.index = p; r.input = str; r.end = end;
      r.groups = Object.keys(names).length ? Object.fromEntries(Object.entries(names).map(([k, g]) => [k, r[g]])) : undefined;
      return r;
    }
  }
  return null;
}
rt.regexExec = (re, s) => {
  const st = re.global || re.sticky;
  const from = st ? re.lastIndex : 0;
  if (from > s.length) { re.lastIndex = 0; return null; }
  const r = exec(re, s, from);
  if (st) re.lastIndex = r ? r.end : 0;
  return r;
};
rt.regexAll = (re, s) => { const out = []; let p = 0; while (p <= s.length) { const r = exec(re, s, p); if (!r) break; out.push(r); p = r.end > r.index ? r.end : r.end + 1; if (!re.global) break; } return out; };
rt.regexMatch = (s, re) => { if (typeof re === "string") re = new RegExp(re); if (!re.global) return rt.regexExec(re, s); const all = rt.regexAll(re, s); return all.length ? all.map((m) => m[0]) : null; };
rt.regexMatchAll = (s, re) => rt.regexAll(re, s)[Symbol.iterator]();
rt.regexReplace = (s, re, b) => {
  const u = Str.of(s).u, out = []; let p = 0;
  for (const m of rt.regexAll(re, s)) {
    out.push(...u.slice(p, m.index));
    let r;
    if (typeof b === "function") r = rt.str(b(...m, m.index, s));
    else { b = rt.str(b); r = typeof b === "string" ? expand(b, m) : b; }
    out.push(...Str.of(r).u); p = m.end;
  }
  out.push(...u.slice(p));
  return Str.norm(out);
};
function expand(b, m) { if (!b.includes("$")) return b; let r = []; for (let i = 0; i < b.length; i++) { if (b[i] === "$" && b[i + 1] === "&") { r.push(...Str.of(m[0]).u); i++; } else if (b[i] === "$" && b[i + 1] === "$") { r.push(36); i++; } else if (b[i] === "$" && /[1-9]/.test(b[i + 1] ?? "")) { const g = m[Number(b[i + 1])]; if (g !== undefined) r.push(...Str.of(g).u); i++; } else r.push(b.charCodeAt(i)); } return Str.norm(r); }
rt.regexSplit = (s, re) => { const g = new RegExp(re.source, re.flags.includes("g") ? re.flags : re.flags + "g"); const u = Str.of(s).u, out = []; let p = 0; for (const m of rt.regexAll(g, s)) { if (m.end === m.index && (m.index === 0 || m.index >= u.length)) continue; out.push(Str.norm(u.slice(p, m.index)), ...m.slice(1)); p = m.end; } out.push(Str.norm(u.slice(p))); return out; };
