"use strict";
// Loads modules of the repository (TypeScript, current working tree) as instrumented code bound to the symbolic runtime.
const fs = require("fs"), path = require("path"), crypto = require("crypto");
const { E, unsupported } = require("./core.js");
const { rt, models } = require("./rt.js");
const REPO = process.env.VERIF_REPO || "/repo";
const IMPORT_MAP = "/opt/mtkruto-deps/import_map.json";
const mapDir = path.dirname(IMPORT_MAP);
const imports = JSON.parse(fs.readFileSync(IMPORT_MAP, "utf8")).imports;
const cacheDir = process.env.VERIF_CACHE || null;
const VERIF = path.dirname(__dirname) + "/";
const DATA = /(tl\/1_\w+_api|media-types\/_db)\.ts$/; // pure data: evaluated natively once
const engineVersion = crypto.createHash("sha1").update(fs.readFileSync(path.join(__dirname, "instrument.js"))).digest("hex");
let tsx = null;
const tsTools = () => tsx ??= require("./instrument.js");
const compiled = new Map();
function toPlain(file, src) {
  return file.startsWith(VERIF) ? src : tsTools().transpile(src, file);
}
// {text, functions}
function prepare(file, src, raw) {
  const key = crypto.createHash("sha1").update(engineVersion + (raw ? "raw" : "") + file + "\0" + src).digest("hex");
  const cf = cacheDir && path.join(cacheDir, key + ".json");
  if (cf && fs.existsSync(cf)) return JSON.parse(fs.readFileSync(cf, "utf8"));
  const js = toPlain(file, src);
  const r = raw ? { text: js, functions: [] } : tsTools().instrument(js, file);
  if (cf) { const tmp = cf + "." + process.pid; fs.writeFileSync(tmp, JSON.stringify(r)); fs.renameSync(tmp, cf); }
  return r;
}
const quiet = new Proxy({}, { get: () => () => {} });
const timers = {
  setTimeout: (f, ms, ...a) => E.env.setTimeout(f, ms, ...a), clearTimeout: (h) => E.env.clear(h),
  setInterval: (f, ms, ...a) => E.env.setInterval(f, ms, ...a), clearInterval: (h) => E.env.clear(h),
  setImmediate: (f, ...a) => E.env.setTimeout(f, 0, ...a), clearImmediate: (h) => E.env.clear(h),
  queueMicrotask: (f) => Promise.resolve().then(f),
};
const performanceM = { now: () => rt.sub(E.env.now(), E.env.base), mark() {}, measure() {} };
// errors whose message may be symbolic
const errorModel = (K) => new Proxy(K, {
  construct(t, [m, ...rest], nt) { if (m === null || typeof m !== "object" || !(m instanceof require("./sym.js").Sym)) return Reflect.construct(t, [m, ...rest], nt); const e = Reflect.construct(t, [undefined, ...rest], nt); Object.defineProperty(e, "message", { value: m, writable: true, configurable: true }); return e; },
  apply(t, _, args) { return new (errorModel(t))(...args); },
});
// compression is an environment model: an invertible coding the harness supplies (S.gzipHook)
const codec = (dir) => class { constructor(format) {
  if (format !== "gzip") unsupported("compression format " + format);
  const ins = [], env = E.env; let closed; const end = new Promise((r) => closed = r); let sent = false;
  if (!env.gzip) unsupported("compression without S.gzipHook");
  this.writable = { getWriter: () => ({ write: async (b) => { ins.push(b.slice()); }, close: async () => { closed(); } }) };
  this.readable = { getReader: () => ({ read: async () => { if (sent) return { done: true, value: undefined }; await end; sent = true; const all = new models.Uint8Array(ins.flatMap((b) => [...b])); return { done: false, value: env.gzip[dir](all) }; } }) };
} };
require("./url.js");
const SHADOW = {
  URL: models.URL,
  CompressionStream: codec("compress"), DecompressionStream: codec("decompress"),
  Error: errorModel(Error), TypeError: errorModel(TypeError), RangeError: errorModel(RangeError),
  Uint8Array: models.Uint8Array, ArrayBuffer: models.ArrayBuffer, DataView: models.DataView, Map: models.Map, Set: models.Set, Date: models.Date,
  Math: models.Math, Number: models.Number, BigInt: models.BigInt, String: models.String, Boolean: models.Boolean, Array: models.Array, Object: models.Object, JSON: models.JSON,
  TextEncoder: models.TextEncoder, TextDecoder: models.TextDecoder, crypto: models.crypto, atob: models.atob, btoa: models.btoa,
  parseInt: models.parseInt, parseFloat: models.parseFloat, isNaN: models.isNaN, isFinite: models.isFinite,
  ...timers, console: quiet, performance: performanceM, process: undefined, Buffer: undefined, Deno: undefined, fetch: undefined, WebSocket: undefined, window: undefined, self: undefined, document: undefined,
  structuredClone: (v) => cloneDeep(v),
};
function cloneDeep(v) {
  if (v === null || typeof v !== "object" || v instanceof require("./sym.js").Sym) return v;
  if (v instanceof models.Uint8Array) return v.slice();
  if (Array.isArray(v)) return v.map(cloneDeep);
  if (v instanceof Map) { const m = new models.Map(); for (const [k, x] of v) m.set(cloneDeep(k), cloneDeep(x)); return m; }
  if (v instanceof Set) { const m = new models.Set(); for (const x of v) m.add(cloneDeep(x)); return m; }
  if (v instanceof models.Date) return new models.Date(v.getTime());
  if (typeof v === "function") throw new Error("DataCloneError");
  const o = {}; for (const k of Object.keys(v)) o[k] = cloneDeep(v[k]); return o;
}
const globals = (extra) => {
  const g = { ...SHADOW, ...extra };
  g.globalThis = new Proxy(g, { get: (t, k) => k in t ? t[k] : undefined, has: (t, k) => k in t && t[k] !== undefined });
  return g;
};
let G = globals({}), NAMES = Object.keys(G);
function setGlobals(extra) { G = globals(extra); NAMES = Object.keys(G); compiled.clear(); shared.clear(); }
const OVERRIDE = {
  "jsr:@std/bytes@1.0.6/equals": () => ({ equals: models.bytesEquals }),
  "jsr:@std/bytes@1.0.6/starts-with": () => ({ startsWith: models.bytesStartsWith }),
  "jsr:@std/crypto@1.1.0": () => ({ crypto: models.crypto }),
  "jsr:@roj/tgcrypto@1.0.3": () => models.tgcrypto, "jsr:@roj/tgcrypto@0.4.1": () => models.tgcrypto,
  "jsr:@std/assert@1.0.19/equals": () => ({ assertEquals(a, b) { if (!rt.cond(E.deepEq(a, b))) throw new Error("assertEquals"); } }),
  "jsr:@std/encoding@1.0.11/base64": () => ({ encodeBase64: (d) => rt.base64Encode(d instanceof models.Uint8Array ? d : new models.Uint8Array(d)), decodeBase64: (s) => rt.base64Decode(s) }),
  "jsr:@std/encoding@1.0.11/hex": () => ({ encodeHex: (d) => rt.hexEncode(d instanceof models.Uint8Array ? d : new models.Uint8Array(d)), decodeHex: (s) => rt.hexDecode(s) }),
};
const fileOverride = new Map(); // absolute path -> () => exports
const patches = new Map(); // absolute path -> (exports) => void, applied after loading
function resolve(spec, from) {
  if (spec.startsWith(".")) return path.resolve(path.dirname(from), spec);
  if (spec.startsWith("/")) return spec;
  if (imports[spec]) return path.resolve(mapDir, imports[spec]);
  return null;
}
const shared = new Map();
let instances = new Map();
function compile(file) {
  let c = compiled.get(file);
  if (c) return c;
  const src = fs.readFileSync(file, "utf8");
  const raw = DATA.test(file);
  const p = prepare(file, src, raw);
  const rel = file.startsWith(REPO + "/") ? file.slice(REPO.length + 1) : file;
  const meta = { name: rel, functions: p.functions, repo: file.startsWith(REPO + "/") };
  const fn = raw ? new Function("exports", "require", "module", p.text) : new Function("exports", "require", "module", "__rt", "__file", ...NAMES, p.text + "\n//# sourceURL=" + rel + ".inst.js");
  c = { fn, meta, raw };
  compiled.set(file, c);
  E.files ??= new Map(); E.files.set(rel, meta);
  return c;
}
function load(file) {
  const hit = instances.get(file) ?? shared.get(file);
  if (hit) return hit.exports;
  if (file.endsWith(".json")) { const m = { exports: { default: JSON.parse(fs.readFileSync(file, "utf8")), __esModule: true } }; shared.set(file, m); return m.exports; }
  const ov = fileOverride.get(file);
  if (ov) { const m = { exports: ov() }; instances.set(file, m); return m.exports; }
  const c = compile(file);
  const m = { exports: {} };
  (c.raw ? shared : instances).set(file, m);
  const req = (spec) => {
    if (OVERRIDE[spec]) { const k = "o:" + spec; let h = instances.get(k); if (!h) instances.set(k, h = { exports: OVERRIDE[spec]() }); return h.exports; }
    const f = resolve(spec, file);
    if (!f) return externals[spec] ?? new Proxy({}, { get: (t, k) => k === "__esModule" ? true : k === "default" ? undefined : undefined });
    if (f.endsWith(".d.ts")) return {};
    return load(f);
  };
  try {
    if (c.raw) c.fn(m.exports, req, m); else c.fn(m.exports, req, m, rt, c.meta, ...NAMES.map((n) => G[n]));
  } catch (e) { instances.delete(file); throw e; }
  patches.get(file)?.(m.exports);
  return m.exports;
}
// node's sockets, with their events only: harnesses say what they do
class Emitter {
  on(e, f) { ((this.handlers ??= new Map()).get(e) ?? this.handlers.set(e, []).get(e)).push({ f }); return this; }
  once(e, f) { ((this.handlers ??= new Map()).get(e) ?? this.handlers.set(e, []).get(e)).push({ f, once: true }); return this; }
  off(e, f) { const l = this.handlers?.get(e) ?? []; const i = l.findLastIndex((x) => x.f === f); if (i >= 0) l.splice(i, 1); return this; }
  emit(e, ...a) { const l = this.handlers?.get(e) ?? []; for (const x of [...l]) { if (x.once) l.splice(l.indexOf(x), 1); x.f.call(this, ...a); } return l.length > 0; }
}
Emitter.prototype.addListener = Emitter.prototype.on; Emitter.prototype.removeListener = Emitter.prototype.off;
const externals = { "node:net": { Socket: class Socket extends Emitter {} } };
function freshInstances() { instances = new Map(); }
function harness(file) { // an instrumented harness module (CommonJS text)
  const src = fs.readFileSync(file, "utf8");
  const p = prepare(file, src, false);
  const m = { exports: {} };
  const fn = new Function("exports", "require", "module", "__rt", "__file", ...NAMES, p.text + "\n//# sourceURL=" + path.basename(file));
  const req = (spec) => harness(path.resolve(path.dirname(file), spec));
  fn(m.exports, req, m, rt, { name: "harness:" + path.basename(file), functions: p.functions }, ...NAMES.map((n) => G[n]));
  return m.exports;
}
module.exports = { externals, load, harness, freshInstances, setGlobals, REPO, fileOverride, patches, OVERRIDE, resolve, cloneDeep, globalsNow: () => G };
