"use strict";
// Key order and ranges of the Indexed Database API 3.0, for keys made of numbers, strings and arrays.
const rank = (v) => typeof v === "number" ? 1 : typeof v === "string" ? 2 : Array.isArray(v) ? 3 : 0;
function cmp(a, b) {
  const x = rank(a), y = rank(b);
  if (x === 0 || y === 0) throw new TypeError("not a valid key");
  if (x !== y) return x < y ? -1 : 1;
  if (x < 3) { if (typeof a === "number" && (Number.isNaN(a) || Number.isNaN(b))) throw new TypeError("not a valid key"); return a < b ? -1 : a > b ? 1 : 0; }
  for (let i = 0; i < a.length && i < b.length; i++) { const c = cmp(a[i], b[i]); if (c !== 0) return c; }
  return a.length === b.length ? 0 : a.length < b.length ? -1 : 1;
}
class Range {
  constructor(lower, upper, lowerOpen, upperOpen) { this.lower = lower; this.upper = upper; this.lowerOpen = lowerOpen; this.upperOpen = upperOpen; }
  includes(key) {
    if (this.lower !== undefined) { const c = cmp(key, this.lower); if (c < 0 || this.lowerOpen && c === 0) return false; }
    if (this.upper !== undefined) { const c = cmp(key, this.upper); if (c > 0 || this.upperOpen && c === 0) return false; }
    return true;
  }
}
const IDBKeyRange = {
  bound(lower, upper, lowerOpen = false, upperOpen = false) { const c = cmp(lower, upper); if (c > 0 || c === 0 && (lowerOpen || upperOpen)) throw new RangeError("DataError: the lower bound is above the upper bound"); return new Range(lower, upper, lowerOpen, upperOpen); },
  lowerBound(lower, open = false) { cmp(lower, lower); return new Range(lower, undefined, open, false); },
  upperBound(upper, open = false) { cmp(upper, upper); return new Range(undefined, upper, false, open); },
};
// A database server: a transaction's requests run in order, each in a task of its own; a transaction is over when a task of its ends without a further request; transactions of which one writes run one after the other, in the order in which they were created.
class IDB {
  constructor() { this.databases = []; }
  reset() { this.databases = []; }
  cmp(a, b) { return cmp(a, b); }
  open(name) {
    let data = this.databases.find((d) => d.name === name); const fresh = !data;
    if (fresh) this.databases.push(data = { name, entries: [], txs: [] });
    const request = {};
    const db = {
      createObjectStore() {}, close() {},
      transaction: (_, mode) => {
        const tx = { writes: mode === "readwrite", queue: [], running: false, over: false };
        data.txs.push(tx);
        const later = (r, f) => { if (tx.over) throw new TypeError("TransactionInactiveError"); tx.queue.push([r, f]); run(data); return r; };
        return { objectStore: () => ({
          get: (k) => later({}, () => data.entries.find((e) => cmp(e[0], k) === 0)?.[1]),
          put: (v, k) => later({}, () => { if (!tx.writes) throw new TypeError("ReadOnlyError"); cmp(k, k); const e = data.entries.find((e) => cmp(e[0], k) === 0); if (e) e[1] = v; else { let i = 0; while (i < data.entries.length && cmp(data.entries[i][0], k) < 0) i++; data.entries.splice(i, 0, [k, v]); } }),
          delete: (k) => later({}, () => { if (!tx.writes) throw new TypeError("ReadOnlyError"); const i = data.entries.findIndex((e) => cmp(e[0], k) === 0); if (i >= 0) data.entries.splice(i, 1); }),
          openKeyCursor: (range, direction) => {
            const r = {}; let keys, i = 0;
            const step = () => later(r, () => { if (!keys) { keys = data.entries.map((e) => e[0]).filter((k) => !range || range.includes(k)); if (direction === "prev") keys.reverse(); } if (i >= keys.length) return null; const key = keys[i++]; return { key, continue: step }; });
            step();
            return r;
          },
        }) };
      },
    };
    queueMicrotask(() => { request.result = db; if (fresh) request.onupgradeneeded(); queueMicrotask(() => request.onsuccess()); });
    return request;
  }
}
function run(data) {
  for (const tx of data.txs) {
    const blocked = data.txs.some((o) => data.txs.indexOf(o) < data.txs.indexOf(tx) && (o.writes || tx.writes));
    if (blocked || tx.running || tx.queue.length === 0) continue;
    tx.running = true;
    const [request, f] = tx.queue.shift();
    queueMicrotask(() => {
      let e; try { request.result = f(); } catch (x) { e = x; }
      if (e) request.onerror?.(e); else request.onsuccess();
      hops(6, () => { tx.running = false; if (tx.queue.length === 0) { tx.over = true; data.txs.splice(data.txs.indexOf(tx), 1); } run(data); });
    });
  }
}
// after the microtasks of the current task
const hops = (n, f) => queueMicrotask(() => n > 0 ? hops(n - 1, f) : f());
// A key-value store of Deno: prefix queries leave out the prefix itself, a range excludes its end, atomic operations check versions.
const krank = (v) => v instanceof Uint8Array ? 0 : typeof v === "string" ? 1 : typeof v === "number" ? 2 : typeof v === "bigint" ? 3 : 4;
function kcmp(a, b) {
  for (let i = 0; i < a.length && i < b.length; i++) {
    const x = krank(a[i]), y = krank(b[i]);
    if (x !== y) return x < y ? -1 : 1;
    if (x === 0) continue;
    if (a[i] < b[i]) return -1; if (a[i] > b[i]) return 1;
  }
  return a.length === b.length ? 0 : a.length < b.length ? -1 : 1;
}
class KV {
  constructor() { this.entries = []; this.stamp = 0; }
  close() {}
  at(k) { return this.entries.findIndex((e) => kcmp(e.key, k) === 0); }
  async get(key) { const i = this.at(key); return i >= 0 ? { ...this.entries[i] } : { key, value: null, versionstamp: null }; }
  put(key, value) { const i = this.at(key), e = { key, value, versionstamp: String(++this.stamp).padStart(6, "0") }; if (i >= 0) this.entries[i] = e; else { let j = 0; while (j < this.entries.length && kcmp(this.entries[j].key, key) < 0) j++; this.entries.splice(j, 0, e); } }
  async set(key, value) { this.put(key, value); return { ok: true }; }
  async delete(key) { const i = this.at(key); if (i >= 0) this.entries.splice(i, 1); }
  async *list(sel, { limit, reverse } = {}) {
    if (!sel.prefix && kcmp(sel.start, sel.end) > 0) throw new TypeError("Start key is greater than end key");
    let out = this.entries.filter((e) => sel.prefix ? e.key.length > sel.prefix.length && kcmp(e.key.slice(0, sel.prefix.length), sel.prefix) === 0 : kcmp(e.key, sel.start) >= 0 && kcmp(e.key, sel.end) < 0);
    if (reverse) out.reverse();
    if (limit !== undefined) out = out.slice(0, limit);
    for (const e of out) yield e;
  }
  atomic() {
    const checks = [], puts = [], op = { check: (...c) => { checks.push(...c); return op; }, set: (k, v) => { puts.push([k, v]); return op; }, commit: async () => {
      for (const c of checks) { const i = this.at(c.key); if ((i >= 0 ? this.entries[i].versionstamp : null) !== c.versionstamp) return { ok: false }; }
      for (const [k, v] of puts) this.put(k, v);
      return { ok: true };
    } };
    return op;
  }
}
module.exports = { cmp, IDBKeyRange, IDB, KV };
