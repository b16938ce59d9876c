"use strict";
// C19 All storage back ends behave as one ordered map
const { IDBKeyRange, IDB, KV } = require("./lib/idb.js");
exports.title = "All storage back ends behave as one ordered map";
exports.assumptions = [
  "web storage keeps strings under string names in insertion order; IndexedDB orders keys and ranges as the Indexed Database API 3.0 says and completes requests in the order they are made; the key-value store of Deno lists and commits as its documentation says",
  "keys whose parts at one position have one kind; ranges and prefixes with a fixed first part that does not start with __S, as all of the client's are; limits of at least 1; for the key-value store of Deno, prefixes that are not themselves keys and ranges whose start is not after their end; storage names one of which is not the other followed by digits that make the rest a canonical key (see the known finding)",
];
const webStorage = () => ({
  items: [],
  getItem(k) { const e = this.items.find((e) => e[0] === k); return e ? e[1] : null; },
  setItem(k, v) { if (typeof v !== "string") throw new TypeError("only strings are stored"); const e = this.items.find((e) => e[0] === k); if (e) e[1] = v; else this.items.push([k, v]); },
  removeItem(k) { this.items = this.items.filter((e) => e[0] !== k); },
  [Symbol.for("entries")]() { return this.items.map((e) => [e[0], e[1]]); },
});
const local = webStorage(), session = webStorage(), idb = new IDB(); let kv = new KV();
const globals = { localStorage: local, sessionStorage: session, indexedDB: idb, IDBKeyRange };
const KINDS = ["memory", "local", "session", "indexed-db", "deno-kv"];
function create(S, kind, name = "main") {
  if (kind === "memory") return new (S.load("storage/2_storage_memory.ts").StorageMemory)();
  if (kind === "local") return new (S.load("storage/2_storage_local_storage.ts").StorageLocalStorage)(name);
  if (kind === "session") return new (S.load("storage/2_storage_session_storage.ts").StorageSessionStorage)(name);
  if (kind === "deno-kv") { const st = new (S.load("storage/1_storage_deno_kv.ts").StorageDenoKV)(); st.kv = kv; return st; }
  return new (S.load("storage/2_storage_indexed_db.ts").StorageIndexedDB)(name);
}
const reset = () => { local.items = []; session.items = []; idb.reset(); kv = new KV(); };
// a branch of a storage; the database of a key-value store is opened by a handle of its own
const branch = (st, id) => { const b = st.branch(id); if ("kv" in b) b.kv = kv; return b; };
// the ordered map
const order = (a, b) => { for (let i = 0; i < a.length && i < b.length; i++) { if (a[i] < b[i]) return -1; if (a[i] > b[i]) return 1; } return a.length === b.length ? 0 : a.length < b.length ? -1 : 1; };
const equalKeys = (a, b) => { if (a.length !== b.length) return false; for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return false; return true; };
class Oracle {
  constructor() { this.e = []; }
  get(k) { const e = this.e.find((e) => equalKeys(e[0], k)); return e ? e[1] : null; }
  set(k, v) {
    const i = this.e.findIndex((e) => equalKeys(e[0], k));
    if (v === null) { if (i >= 0) this.e.splice(i, 1); return; }
    if (i >= 0) { this.e[i][1] = v; return; }
    let j = 0; while (j < this.e.length && order(this.e[j][0], k) < 0) j++;
    this.e.splice(j, 0, [k, v]);
  }
  many(f, { limit, reverse } = {}) {
    let out = this.e.filter(([k]) => f.prefix ? k.length >= f.prefix.length && equalKeys(k.slice(0, f.prefix.length), f.prefix) : order(k, f.start) >= 0 && order(k, f.end) <= 0);
    if (reverse) out = [...out].reverse();
    return limit === undefined ? out : out.slice(0, limit);
  }
}
async function listed(st, f, params) { const out = []; for await (const [k, v] of await st.getMany(f, params)) out.push([[...k], v]); return out; }
async function sameMany(S, st, o, f, params, msg) {
  const got = await listed(st, f, params), want = o.many(f, params);
  S.assert(got.length === want.length, msg + " returns another number of entries");
  for (let i = 0; i < got.length; i++) { S.assert(equalKeys(got[i][0], want[i][0]), msg + " returns other keys or another order"); S.assertEq(got[i][1], want[i][1], msg + " returns another value"); }
}
// shapes of keys
const SHAPES = {
  number: (S, n, deep) => ["m", S.int(n, deep ? -12 : -1, deep ? 120 : 10)],
  bigint: (S, n, deep) => ["m", S.big(n, deep ? -12n : -1n, deep ? 120n : 10n)],
  string: (S, n, deep) => ["m", S.str(n, S.choose(n + ".n", deep ? [0, 1, 2] : [0, 1]), 0, 0xFFFF)],
  nested: (S, n) => { const l = S.choose(n + ".l", [1, 2, 3]); return ["m", ...(l > 1 ? [S.int(n + "a", 0, 3)] : []), ...(l > 2 ? [S.str(n + "b", 1, 0, 0xFFFF)] : [])]; },
  first: (S, n) => [S.choose(n + ".f", ["m", "mm", "l"]), S.int(n, 0, 3)],
};
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const all = ["get", "prefix", "range"];
  const plan = deep
    ? Object.fromEntries(KINDS.map((k) => [k, Object.fromEntries(Object.keys(SHAPES).map((s) => [s, all]))]))
    : {
      memory: { number: all, bigint: ["range"], string: all, nested: ["get", "prefix"], first: ["prefix"] },
      local: { number: all, string: ["get", "prefix"], nested: ["prefix"], first: ["prefix"] },
      session: { number: all, first: ["prefix"] },
      "deno-kv": { number: all, nested: ["prefix"], first: ["prefix"] },
      "indexed-db": { number: all, string: ["prefix"], nested: ["get", "prefix"], first: ["prefix"] },
    };
  const shapesOf = (kind) => Object.keys(plan[kind]);
  for (const kind of KINDS) for (const shape of shapesOf(kind)) for (const branched of deep || shape === "number" && (kind === "memory" || kind === "indexed-db") ? [false, true] : [false]) for (const ask of plan[kind][shape]) cs.push({ name: `${kind}-${shape}${branched ? "-branch" : ""}-${ask}`, globals, weight: 1, bounds: `every sequence of ${deep ? 3 : 2} operations (writes, then a write, a deletion or an increment) with keys of the shape ${shape}, then one ${ask === "get" ? "read" : ask + " query with every bound, either direction and no limit or the limit 1"}`, run: async (S) => {
    reset();
    let st = create(S, kind); await st.initialize();
    if (branched) { st = branch(st, "b1"); await st.initialize(); }
    const o = new Oracle(), key = (S, n) => SHAPES[shape](S, n, deep);
    const n = deep ? 3 : 2;
    for (let i = 0; i < n; i++) {
      const k = key(S, "k" + i);
      const op = S.choose("op" + i, i === 0 ? ["set"] : i === n - 1 ? ["set", "delete", "incr"] : ["set"]);
      if (op === "set") { const v = S.int("v" + i, -9, 9); await st.set(k, v); o.set(k, v); }
      else if (op === "delete") { await st.set(k, null); o.set(k, null); }
      else { const by = S.int("by" + i, -9, 9); await st.incr(k, by); o.set(k, (o.get(k) ?? 0) + by); }
    }
    if (ask === "get") { const k = key(S, "q"); S.assertEq(await st.get(k), o.get(k), "a read does not return the last value written"); return; }
    const params = S.choose("params", deep ? [undefined, { limit: 1 }, { limit: 2, reverse: true }, { reverse: true }] : [undefined, { limit: 1, reverse: true }]);
    if (ask === "prefix") { const p = S.choose("whole", [true, false]) ? ["m"] : key(S, "p"); if (kind === "deno-kv") S.assume(o.get(p) === null); await sameMany(S, st, o, { prefix: p }, params, "a prefix query"); return; }
    const a = key(S, "start"), b = key(S, "end"); if (kind === "deno-kv") S.assume(order(a, b) <= 0);
    await sameMany(S, st, o, { start: a, end: b }, params, "a range query");
  } });
  for (const kind of KINDS) cs.push({ name: kind + "-isolation", globals, bounds: "a storage, two branches of it, a branch of a branch, and storages of other names (account, account1, account16, accountS): one write in each of two of them under every pair of keys, then reads and queries in both", covers: ["equal", "different"], run: async (S) => {
    reset();
    const root = create(S, kind, "account"), places = [["root", root], ["branch", branch(root, "2")], ["media", branch(root, "2_media")], ["inner", branch(branch(root, "2"), "1")]];
    if (kind !== "memory" && kind !== "deno-kv") for (const n of ["account1", "account16", "accountS", "acc"]) places.push([n, create(S, kind, n)]);
    for (const [, p] of places) await p.initialize();
    const i = S.choose("i", places.map((_, i) => i)), j = S.choose("j", places.map((_, i) => i)); S.assume(i !== j);
    const [x, y] = [places[i][1], places[j][1]], ox = new Oracle(), oy = new Oracle();
    const ka = ["m", S.int("a", 0, 12)], kb = S.choose("short", kind === "deno-kv" ? [false] : [true, false]) ? ["m"] : ["m", S.int("b", 0, 12)], extra = ["m", 3, "x"];
    await x.set(ka, 1); ox.set(ka, 1); await y.set(kb, 2); oy.set(kb, 2); await x.set(extra, 3); ox.set(extra, 3); await y.set(extra, 4); oy.set(extra, 4);
    S.cover(equalKeys(ka, kb) ? "equal" : "different");
    for (const [st, o] of [[x, ox], [y, oy]]) {
      S.assertEq(await st.get(ka), o.get(ka), "an entry of another storage is read"); S.assertEq(await st.get(kb), o.get(kb), "an entry of another storage is read");
      await sameMany(S, st, o, { prefix: ["m"] }, undefined, "a query beside another storage");
      await sameMany(S, st, o, { start: ["m", 0], end: ["m", 99] }, undefined, "a range query beside another storage");
    }
    await x.set(extra, null); await x.set(ka, null);
    S.assertEq(await y.get(kb), 2, "a deletion reaches another storage"); S.assertEq(await y.get(extra), 4, "a deletion reaches another storage");
    for (const [n, p] of places) if (p !== x && p !== y) S.assert((await listed(p, { prefix: ["m"] })).length === 0, "an entry appears in a third storage");
  } });
  for (const kind of KINDS) cs.push({ name: kind + "-concurrent", globals, bounds: "two increments, and an increment and a write, that are started together, of every two keys and by every amount, over an entry or none", covers: ["same", "different"], run: async (S) => {
    reset();
    const st = create(S, kind, "account"), key = (n) => ["m", S.int(n, 0, 12)]; await st.initialize();
    const a = key("a"), b = key("b"), v = S.int("v", -9, 9), w = S.int("w", -9, 9), had = S.choose("had", [true, false]);
    if (had) await st.set(a, 5);
    const second = S.choose("second", ["incr", "set"]);
    await Promise.all([st.incr(a, v), second === "incr" ? st.incr(b, w) : st.set(b, w)]);
    const x = await st.get(a), y = await st.get(b), first = (had ? 5 : 0) + v;
    if (!equalKeys(a, b)) { S.cover("different"); S.assertEq(x, first, "an increment is lost"); S.assertEq(y, w, "a write is lost"); return; }
    S.cover("same");
    if (second === "incr") S.assertEq(x, first + w, "one of two increments is lost"); else S.assert(x === w || x === w + v, "an increment restores an overwritten value");
  } });
  for (const kind of ["local", "session"]) cs.push({ name: kind + "-values", globals, bounds: "values of every kind the text encoding has", run: async (S) => {
    reset();
    const st = create(S, kind), v = S.choose("v", [() => S.str("s", 3, 0, 0xFFFF), () => S.bytes("b", 4), () => S.big("w", -(1n << 64n), 1n << 64n), () => S.choose("x", [false, true, "", 0]), () => ({ a: [S.int("n", -99, 99), "y"], b: { c: S.str("s", 1, 0, 0xFFFF) } }), () => [new Date(5).getTime(), []]])();
    await st.set(["k"], v);
    S.assertEq(await st.get(["k"]), v, "a value does not read back equal");
    const [e] = await listed(st, { prefix: ["k"] });
    S.assertEq(e[1], v, "a query does not return an equal value");
  } });
  cs.push({ name: "local-colliding-names", globals, bounds: "storages named account and account6, every key of the second made of x and 57 characters of which the last two are arbitrary", run: async (S) => {
    reset();
    const a = create(S, "local", "account"), b = create(S, "local", "account6");
    await b.set(["x", "y".repeat(54) + S.str("s", 2, 32, 126)], 1);
    S.assert((await listed(a, { prefix: [] })).length === 0, "a storage whose name is another one's followed by 6 is visible in the other under certain keys");
  } });
  return cs;
};
