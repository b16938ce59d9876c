// Runs a harness on the real code (Deno, unmodified TypeScript of the repository) with the values of solver models.
// argv: jobs.json out.json   jobs: [{harness, case, tier, model}]
const [jobsPath, outPath] = Deno.args;
const { repo, jobs } = JSON.parse(Deno.readTextFileSync(jobsPath));
const real = { setTimeout: globalThis.setTimeout, setInterval: globalThis.setInterval, now: Date.now, random: Math.random, grv: crypto.getRandomValues.bind(crypto) };
const tick = () => new Promise<void>((r) => real.setTimeout(r, 0));
let model: Map<string, bigint> = new Map();
let counters = new Map<string, number>();
let env: any;
const BASE = 1_700_000_000_000;
function newEnv() { return { time: 0, timers: [] as any[], seq: 0, rnd: 0, mrnd: 0, manual: false, errors: [] as any[], nowHook: null as any, randomHook: null as any, fixedRandom: false, pending: 0 }; }
function val(name: string, w: number): bigint { return model.get(name + "@" + w) ?? 0n; }
function toSigned(v: bigint, w: number) { return (v >> BigInt(w - 1)) & 1n ? v - (1n << BigInt(w)) : v; }
function wFor(lo: bigint, hi: bigint) { const need = (v: bigint) => v >= 0n ? v.toString(2).length + (v === 0n ? 0 : 1) : (-v - 1n).toString(2).length + (v === -1n ? 0 : 1); return Math.max(1, need(lo), need(hi)); }
const fresh = (base: string) => { const n = (counters.get(base) ?? 0) + 1; counters.set(base, n); return n === 1 ? base : base + "#" + n; };
function toBytes(v: bigint, n: number) { const u = new Uint8Array(n); for (let i = n - 1; i >= 0; i--) { u[i] = Number(v & 255n); v >>= 8n; } return u; }
// ---- environment
const now = () => env.nowHook ? env.nowHook() : BASE + env.time;
const RD = Date;
class VDate extends RD { constructor(...a: any[]) { if (a.length === 0) super(now()); else super(...(a as [any])); } static override now() { return now(); } }
globalThis.Date = VDate as any;
Math.random = () => { if (env.mathRandomHook) { const r = env.mathRandomHook(); if (r !== undefined) return r; } const name = "Math.random_" + (++env.rnd); return Number(val(name, 16)) / 65536; };
(crypto as any).getRandomValues = (u: Uint8Array) => {
  const b = new Uint8Array(u.buffer, u.byteOffset, u.byteLength);
  const i = ++env.rnd;
  if (env.randomHook) { const r = env.randomHook(b, i); if (r) { b.set(r); return u; } }
  if (env.fixedRandom) { for (let k = 0; k < b.length; k++) b[k] = (i * 37 + k * 11) & 255; return u; }
  if (b.length) b.set(toBytes(val("random_" + i, b.length * 8), b.length));
  return u;
};
for (const k of ["digest", "importKey", "sign", "encrypt", "decrypt", "deriveBits"]) { const f = (crypto.subtle as any)[k].bind(crypto.subtle); (crypto.subtle as any)[k] = async (...a: any[]) => { const e = env; e.pending++; try { return await f(...a); } finally { e.pending--; } }; }
const g = globalThis as any;
g.setTimeout = (f: any, ms: any = 0, ...args: any[]) => { const t = { f, at: env.time + Math.max(0, Number(ms) || 0), id: ++env.seq, args, every: 0 }; env.timers.push(t); const e = env; return { id: t.id, t, ref() { return this; }, unref() { return this; }, hasRef() { return true; }, refresh() { t.at = e.time + ms; return this; }, [Symbol.toPrimitive]() { return t.id; } }; };
g.setInterval = (f: any, ms: any, ...args: any[]) => { const h = g.setTimeout(f, ms, ...args); h.t.every = Math.max(1, ms); return h; };
g.clearTimeout = g.clearInterval = (h: any) => { if (h === undefined || h === null) return; const id = typeof h === "object" ? h.id : h; env.timers = env.timers.filter((t: any) => t.id !== id); };
g.queueMicrotask = (f: any) => { Promise.resolve().then(f); };
g.fetch = () => { throw new Error("no network"); };
Deno.unrefTimer = () => {}; Deno.refTimer = () => {};
for (const [name, dir] of [["CompressionStream", "compress"], ["DecompressionStream", "decompress"]]) {
  const K = g[name];
  g[name] = class { writable: any; readable: any; constructor(format: any) {
    if (!env.gzip) return new K(format);
    const h = env.gzip, ins: number[] = []; let closed: any; const end = new Promise<void>((r) => closed = r); let sent = false;
    this.writable = { getWriter: () => ({ write: async (b: Uint8Array) => { ins.push(...b); }, close: async () => { closed(); } }) };
    this.readable = { getReader: () => ({ read: async () => { if (sent) return { done: true, value: undefined }; await end; sent = true; return { done: false, value: h[dir](new Uint8Array(ins)) }; } }) };
  } };
}
const quiet = new Proxy({}, { get: () => () => {} });
const realConsole = console; g.console = quiet;
function nextTimer() { let b: any = null; for (const t of env.timers) if (!b || t.at < b.at || t.at === b.at && t.id < b.id) b = t; return b; }
function fireNext() { const t = nextTimer(); if (!t) return false; env.timers = env.timers.filter((x: any) => x !== t); env.time = Math.max(env.time, t.at); if (t.every) { t.at += t.every; env.timers.push(t); } t.f(...t.args); return true; }
async function drain() { for (let i = 0, quietRounds = 0; i < 20000 && quietRounds < 4; i++) { await tick(); if (env.pending === 0) quietRounds++; else quietRounds = 0; } }
globalThis.addEventListener("unhandledrejection", (e: any) => { e.preventDefault(); env?.errors.push(e.reason); });
// ---- harness interface
class AssertFailed extends Error {}
class Discard extends Error {}
function deepEq(a: any, b: any): boolean {
  if (a === b) return true;
  if (a === null || b === null || typeof a !== "object" || typeof b !== "object") return typeof a === "number" && typeof b === "number" && Number.isNaN(a) && Number.isNaN(b);
  if (a instanceof Uint8Array || b instanceof Uint8Array) return a instanceof Uint8Array && b instanceof Uint8Array && a.length === b.length && a.every((x, i) => x === b[i]);
  if (a instanceof RD || b instanceof RD) return a instanceof RD && b instanceof RD && a.getTime() === b.getTime();
  if (Array.isArray(a) || Array.isArray(b)) return Array.isArray(a) && Array.isArray(b) && a.length === b.length && a.every((x, i) => deepEq(x, b[i]));
  if (a instanceof Map || a instanceof Set) { if (a instanceof Map !== b instanceof Map || a instanceof Set !== b instanceof Set || a.size !== (b as any).size) return false; return deepEq([...a], [...(b as any)]); }
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) if (!deepEq(a[k], b[k])) return false;
  return true;
}
let notes: [string, any][] = [], asserts = 0, failures: string[] = [];
const modules = new Map<string, any>();
async function busy(f: any) { const e = env; e.busy = (e.busy ?? 0) + 1; try { return await f(); } finally { e.busy--; } }
const S: any = {
  symbolic: false,
  int(name: string, lo: any, hi: any) { name = fresh(name); lo = BigInt(lo); hi = BigInt(hi); if (lo === hi) return Number(lo); const w = wFor(lo, hi); let v = toSigned(val(name, w), w); if (v < lo || v > hi) v = lo; return Number(v); },
  big(name: string, lo: any, hi: any) { name = fresh(name); lo = BigInt(lo); hi = BigInt(hi); const w = wFor(lo, hi); let v = toSigned(val(name, w), w); if (v < lo || v > hi) v = lo; return v; },
  bool(name: string) { return val(fresh(name), 1) === 1n; },
  bytes(name: string, n: number) { name = fresh(name); return toBytes(n ? val(name, n * 8) : 0n, n); },
  blob(name: string, lo: number, hi: number) { const n = S.int(name + ".length", lo, hi); fresh(name); const u = new Uint8Array(n); for (let i = 0; i < n; i++) u[i] = (i * 131 + 7) & 255; return u; },
  f64(name: string) { const d = new DataView(new ArrayBuffer(8)); d.setBigUint64(0, val(fresh(name), 64)); return d.getFloat64(0); },
  str(name: string, n: number) { name = fresh(name); if (n === 0) return ""; const b = toBytes(val(name, n * 16), n * 2); let s = ""; for (let i = 0; i < n; i++) s += String.fromCharCode(b[2 * i] << 8 | b[2 * i + 1]); return s; },
  choose(name: string, values: any[]) { if (values.length === 1) return values[0]; return values[S.int(name, 0, values.length - 1)]; },
  conc: (v: any) => v,
  assume(c: any) { if (!c) throw new Discard(); },
  assert(c: any, msg: string) { asserts++; if (!c) { failures.push(msg); throw new AssertFailed(msg); } },
  fail(msg: string) { asserts++; failures.push(msg); throw new AssertFailed(msg); },
  eq: deepEq,
  assertEq(a: any, b: any, msg: string) { S.assert(deepEq(a, b), msg); },
  note(k: string, v: any) { notes.push([k, v]); },
  cover() {},
  load(p: string) { const m = modules.get(p); if (!m) throw new NeedModule(p); return m; },
  dep(p: string) { return S.load(p); },
  bytesOf: (...xs: any[]) => new Uint8Array(xs.flat()),
  isBytes: (v: any) => v instanceof Uint8Array,
  tick: () => busy(tick),
  settle: () => busy(drain),
  advance: (ms: number) => busy(async () => { const until = env.time + ms; await drain(); while (nextTimer() && nextTimer().at <= until) { fireNext(); await drain(); } env.time = until; await drain(); }),
  now, timers: () => env.timers.length,
  manualTime() { env.manual = true; }, randomHook(f: any) { env.randomHook = f; }, mathRandomHook(f: any) { env.mathRandomHook = f; }, fixedRandom() { env.fixedRandom = true; }, gzipHook(h: any) { env.gzip = h; }, nowHook(f: any) { env.nowHook = f; },
  async peek(p: Promise<any>) { let r: any = "pending"; p.then((value) => r = { value }, (error) => r = { error }); await S.settle(); return r; },
  async outcome(p: any) { try { return { ok: true, value: await (typeof p === "function" ? p() : p) }; } catch (e) { if (e instanceof AssertFailed || e instanceof Discard || e instanceof NeedModule) throw e; return { ok: false, error: e }; } },
  attempt(f: any) { try { return { ok: true, value: f() }; } catch (e) { if (e instanceof AssertFailed || e instanceof Discard || e instanceof NeedModule) throw e; return { ok: false, error: e }; } },
  unhandled: () => env.errors,
  allocLimit(n: number) {
    const watch = (K: any) => new Proxy(K, { construct(t, a, nt) { if (a.length === 1 && typeof a[0] === "number" && a[0] > n && !failures.length) failures.push("allocates out of proportion to its input"); return Reflect.construct(t, a[0] > n ? [0] : a, nt === g[K.name] ? t : nt); } });
    if (n !== Infinity && !env.watching) { env.watching = [Array, Uint8Array]; g.Array = watch(Array); g.Uint8Array = watch(Uint8Array); }
  },
  collisionFree() {}, blockCipher() {}, maxAlloc() {}, noMerge() {},
  distinct(...xs: any[]) { if (new Set(xs).size !== xs.length) throw new Discard(); },
  byteAt: (u: Uint8Array, i: number) => u[i],
  modExp(a: bigint, b: bigint, n: bigint) { let r = 1n; a %= n; while (b > 0n) { if (b & 1n) r = r * a % n; a = a * a % n; b >>= 1n; } return r; },
  abstractModExp() {},
  quiet() {},
  override() {},
};
class NeedModule extends Error { constructor(public p: string) { super(p); } }
function plain(v: any): any {
  if (typeof v === "bigint") return "n:" + v;
  if (v === undefined) return null;
  if (v instanceof Uint8Array) return "x:" + [...v].map((b) => b.toString(16).padStart(2, "0")).join("");
  if (Array.isArray(v)) return v.map(plain);
  if (v instanceof RD) return { date: v.getTime() };
  if (v instanceof Map || v instanceof Set) return plain([...v]);
  if (v !== null && typeof v === "object") { const o: any = {}; for (const k of Object.keys(v).sort()) if (v[k] !== undefined) o[k] = plain(v[k]); return o; }
  if (typeof v === "function") return "function";
  return v;
}
const harnesses = new Map<string, any>();
async function harness(file: string): Promise<any> {
  let h = harnesses.get(file);
  if (h) return h;
  const m = { exports: {} as any };
  const text = Deno.readTextFileSync(file);
  const deps = new Map<string, any>();
  for (const x of text.matchAll(/require\("(\.[^"]+)"\)/g)) { const p = new URL(x[1], "file://" + file).pathname; deps.set(x[1], await harness(p)); }
  new Function("exports", "require", "module", text)(m.exports, (s: string) => deps.get(s), m);
  harnesses.set(file, m.exports);
  return m.exports;
}
async function runOnce(c: any) {
  if (env?.watching) { g.Array = env.watching[0]; g.Uint8Array = env.watching[1]; }
  env = newEnv(); counters = new Map(); notes = []; asserts = 0; failures = [];
  let done = false, err: any;
  let p: Promise<any>;
  try { p = Promise.resolve(c.run(S)); } catch (e) { p = Promise.reject(e); }
  p.then(() => { done = true; }, (e) => { done = true; err = e; });
  const t0 = performance.now();
  for (let n = 0;; n++) {
    if (done) break;
    await tick();
    if (done) break;
    if (env.busy) { if (performance.now() - t0 > 60000) { err = new Error("stuck: the harness never comes to rest"); break; } continue; }
    await drain();
    if (done) break;
    if (env.busy) continue;
    if (env.manual) { for (let i = 0; i < 50 && !done; i++) await drain(); if (!done) err = new Error("stuck"); break; }
    let fired; try { fired = fireNext(); } catch (e) { env.errors.push(e); fired = true; }
    if (!fired || n > 20000 || performance.now() - t0 > 60000) { err = new Error("stuck: no event can make progress"); break; }
  }
  return err;
}
// a stand-in whose entries are its own properties
function enumerable(o: any) {
  return new Proxy(o, {
    get: (_t, k) => { const e = k in o ? undefined : o[Symbol.for("entries")]().find((e: any) => e[0] === k); if (e) return e[1]; const v = o[k]; return typeof v === "function" ? v.bind(o) : v; },
    ownKeys: () => o[Symbol.for("entries")]().map((e: any) => e[0]),
    getOwnPropertyDescriptor: (_t, k) => { const e = o[Symbol.for("entries")]().find((e: any) => e[0] === k); return e && { value: e[1], enumerable: true, configurable: true, writable: true }; },
  });
}
const results: any[] = [];
for (const job of jobs) {
  const h = await harness(job.harness);
  const c = h.cases(job.tier).find((x: any) => x.name === job.case);
  for (const [k, v] of Object.entries(c.globals ?? {}) as [string, any][]) if (k === "Deno") Object.defineProperty(Deno, "connect", { configurable: true, writable: true, value: (...a: any[]) => v.connect(...a) }); else Object.defineProperty(globalThis, k, { configurable: true, writable: true, value: v?.[Symbol.for("entries")] ? enumerable(v) : v });
  model = new Map(Object.entries(job.model).map(([k, v]) => [k, BigInt(v as string)]));
  let err;
  for (let tries = 0; tries < 60; tries++) {
    err = await runOnce(c);
    if (err instanceof NeedModule) { const spec = err.p; modules.set(spec, await import(/^(jsr|npm|node):/.test(spec) ? spec : "file://" + repo + "/" + spec)); continue; }
    break;
  }
  const discarded = err instanceof Discard;
  const exception = err && !discarded && !(err instanceof AssertFailed) ? `${err?.name}: ${err?.message}` : null;
  results.push({ discarded, exception, failures: [...failures], asserts, notes: notes.map(([k, v]) => [k, plain(v)]) });
}
Deno.writeTextFileSync(outPath, JSON.stringify(results));
Deno.exit(0);
