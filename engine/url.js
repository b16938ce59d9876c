"use strict";
// URLs whose text is partly symbolic. Two exact cases: letters and digits anywhere behind the host (the URL parser copies them),
// and arbitrary characters in the path or query of a link whose scheme and host are given (parsing cannot fail; only the parts before are known).
const C = require("./core.js");
const { T } = C;
const Sy = require("./sym.js");
const { Str, isSym, bt } = Sy;
const { rt, models } = require("./rt.js");
const plain = (c) => {
  const lo = Number(c.lo), hi = Number(c.hi), within = (a, b) => lo >= a && hi <= b;
  if (within(48, 57) || within(65, 90) || within(97, 122)) return true;
  const r = (a, b) => rt.landv(rt.ge(c, a), rt.le(c, b)), any = rt.lorv(r(48, 57), r(65, 90), r(97, 122));
  return any === true || isSym(any) && C.implied(bt(any));
};
const token = (i) => `zq${String.fromCharCode(97 + i / 26 | 0, 97 + i % 26)}qz`;
class URLM {
  constructor(input, base) {
    input = rt.str(input);
    if (typeof input === "string") return base === undefined ? new URL(input) : new URL(input, base);
    if (base !== undefined) C.unsupported("URL with a base");
    const u = input.u, first = u.findIndex((x) => typeof x !== "number");
    const prefix = String.fromCharCode(...u.slice(0, first));
    if (u.every((c) => c !== 58 && (!isSym(c) || isSym(rt.seq(c, 58)) && C.implied(T.not(bt(rt.seq(c, 58)))) || rt.seq(c, 58) === false))) throw new TypeError("Invalid URL"); // no colon, so no scheme
    if (/^[A-Za-z0-9.]*[/?#]/.test(prefix)) throw new TypeError("Invalid URL"); // no scheme, whatever follows
    if (!/^[a-z]+:\/\/[A-Za-z0-9.]+(:[0-9]+)?[/?]/.test(prefix)) C.unsupported("URL whose scheme or host is symbolic");
    const sym = u.filter((x) => typeof x !== "number");
    const hide = (v, own) => Object.defineProperty(this, "inner", { value: own, enumerable: false }) && v;
    if (sym.length < 600 && !prefix.includes("zq") && sym.every(plain)) {
      let n = 0; const tokens = [], text = [];
      for (const x of u) { if (typeof x === "number") text.push(String.fromCharCode(x)); else { tokens.push(x); text.push(token(n++)); } }
      const real = new URL(text.join(""));
      const back = (s) => { if (typeof s !== "string") return s; const out = []; for (const part of s.split(/(zq[a-z]{2}qz)/)) { const m = /^zq([a-z])([a-z])qz$/.exec(part); if (m) out.push(tokens[(m[1].charCodeAt(0) - 97) * 26 + m[2].charCodeAt(0) - 97]); else for (let i = 0; i < part.length; i++) out.push(part.charCodeAt(i)); } return Str.norm(out); };
      for (const k of ["href", "protocol", "host", "hostname", "port", "origin", "pathname", "search", "hash", "username", "password"]) this[k] = back(real[k]);
      hide(0, real);
      this.searchParams = { get: (k) => back(real.searchParams.get(k)), has: (k) => real.searchParams.has(k), getAll: (k) => real.searchParams.getAll(k).map(back) };
      return;
    }
    if (!/^https?:/.test(prefix)) C.unsupported("URL with arbitrary symbolic characters");
    const real = new URL(prefix);
    hide(0, real);
    for (const k of ["protocol", "host", "hostname", "port", "origin", "username", "password"]) this[k] = real[k];
    for (const k of ["href", "pathname", "search", "hash", "searchParams"]) Object.defineProperty(this, k, { get() { C.unsupported("part of a URL that is symbolic"); } });
  }
  toString() { return this.href; }
  static canParse(s, b) { try { new URLM(s, b); return true; } catch (e) { rt.caught(e); return false; } }
}
Object.defineProperty(URLM, Symbol.hasInstance, { value: (v) => v instanceof URL || v !== null && typeof v === "object" && Object.getPrototypeOf(v) === URLM.prototype });
models.URL = URLM;
