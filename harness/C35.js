"use strict";
// C35 Exported sessions restore the same account
exports.title = "Exported sessions restore the same account";
exports.assumptions = ["the platform's base64 decoder is that of the language's standard, or the fallback this repository uses where there is none", "SHA-1 is a function without further properties"];
const DCS = ["1", "2", "3", "4", "5", "1-test", "2-test", "3-test"];
// a storage that keeps what it is given as text
const storage = (S) => {
  const { toString, fromString } = S.load("storage/1_utilities.ts"), m = new Map();
  return { m, supportsFiles: false, mustSerialize: true, isMemory: false, initialize() {}, close() {}, async get(k) { await S.tick(); const v = m.get(toString(k)); return v === undefined ? null : fromString(v); }, async set(k, v) { await S.tick(); if (v === null) m.delete(toString(k)); else m.set(toString(k), toString(v)); } };
};
const open = async (S, st) => { const { StorageOperations } = S.load("client/0_storage_operations.ts"), o = new StorageOperations(st ?? storage(S)); await o.initialize(); return o; };
// a key with some symbolic bytes in places, zeros in the given runs and other bytes elsewhere
const key = (S, runs, free = [0, 1, 2, 100, 101, 254, 255]) => {
  const k = new Uint8Array(256); for (let i = 0; i < 256; i++) k[i] = 1 + (i * 37) % 255;
  const b = S.bytes("key", free.length); free.forEach((at, i) => { k[at] = b[i]; });
  free.forEach((at, i) => { if (!runs.some(([f, n]) => at >= f && at < f + n)) S.assume(b[i] !== 0); });
  for (const [at, n] of runs) k.fill(0, at, at + n);
  return k;
};
const check = (S, got, want) => {
  S.assert(got !== null && got.dc === want.dc, "an imported session belongs to another datacenter");
  S.assert(got.authKey instanceof Uint8Array, "an imported session has no key"); S.assertEq(got.authKey, want.authKey, "an imported session has another key");
  S.assertEq(got.userId, want.userId, "an imported session belongs to another account"); S.assertEq(got.apiId, want.apiId, "an imported session has another application identifier"); S.assert(got.isBot === want.isBot, "an imported session takes a bot for a user or the other way round");
};
const RUNS = [[], [[0, 1]], [[255, 1]], [[0, 256]], [[10, 2], [13, 200]], [[100, 1], [102, 1], [104, 3]], [[1, 255]], [[0, 255]]];
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const trip = (name, bounds, make, many = false) => cs.push({ name, bounds, run: async (S) => {
    const want = make(S), a = await open(S), st = storage(S), b = await open(S, st), later = many && S.choose("stored", [false, true]), over = many && S.choose("over", [false, true]);
    await a.auth.set({ ...want, apiId: many && S.choose("override", [false, true]) ? want.apiId : 0, authKey: want.authKey.slice() });
    const keep = want.authKey.slice(), text = await a.exportAuthString(want.apiId);
    S.assert(typeof text === "string" && /^[A-Za-z0-9_-]+$/.test(text.slice(0, 8)), "an exported session is not a text of letters, digits, '-' and '_'");
    S.assertEq(a.auth.mustGet().authKey, keep, "exporting a session alters it");
    if (over) await b.auth.set({ dc: "5", authKey: new Uint8Array(256).fill(9), apiId: 7, isBot: !want.isBot, userId: 1 });
    await b.importAuthString(text);
    check(S, b.auth.mustGet(), want); S.assertEq(await b.getAccountId(), want.userId, "an imported session belongs to another account");
    const { sha1 } = S.load("1_utilities.ts"), h = (await sha1(want.authKey)).slice(-8); let id = 0n; for (let i = 7; i >= 0; i--) id = id * 256n + BigInt(h[i]);
    const ids = BigInt.asIntN(64, b.auth.authKeyId) === BigInt.asIntN(64, id); S.assert(ids, "an imported key has a wrong identifier");
    if (later) { await b.commit(true); check(S, (await open(S, st)).auth.mustGet(), want); }
  } });
  trip("keys", "256-byte keys with every seven bytes at the ends and in the middle, without zero bytes or with them in seven patterns", (S) => ({ dc: "2", authKey: key(S, S.choose("runs", RUNS)), apiId: 5, isBot: false, userId: 123456789012 }), true);
  trip("accounts", "every account identifier up to 2^53-1", (S) => ({ dc: "4", authKey: new Uint8Array(256).fill(3), apiId: 6, isBot: true, userId: S.int("userId", 1, Number.MAX_SAFE_INTEGER) }));
  trip("applications", "every application identifier, datacenter and kind of account", (S) => ({ dc: S.choose("dc", DCS), authKey: new Uint8Array(256).fill(3), apiId: S.int("apiId", 1, 0x7fffffff), isBot: S.choose("bot", [false, true]), userId: 42 }));
  cs.push({ name: "cut", bounds: "every text that breaks off before its end, for keys with every first and last byte and four account identifiers", covers: ["refused"], run: async (S) => {
    const a = await open(S), b = await open(S), before = S.choose("before", [null, { dc: "5", authKey: new Uint8Array(256).fill(9), apiId: 7, isBot: false, userId: 1 }]);
    await a.auth.set({ dc: S.choose("dc", ["1", "3-test"]), authKey: key(S, [], [0, 255]), apiId: 255, isBot: S.choose("bot", [false, true]), userId: S.choose("user", [1, 5000000000, 0x01010101010101, 256]) });
    const text = await a.exportAuthString();
    if (before) await b.auth.set({ ...before });
    const k = S.choose("cut", deep ? Array.from({ length: text.length }, (_, i) => i) : [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 100, 200, 300, ...Array.from({ length: 24 }, (_, i) => text.length - 24 + i)]);
    const r = await S.outcome(Promise.resolve().then(() => b.importAuthString(text.slice(0, k))));
    S.assert(!r.ok, "a text that breaks off is taken for an exported session"); S.cover("refused");
    if (before) { check(S, b.auth.mustGet(), before); } else S.assert(b.auth.mustGet().dc === null, "a refused text leaves something behind");
  } });
  cs.push({ name: "unauthorized", bounds: "clients without a datacenter, a key, an application or an account", covers: ["refused"], run: async (S) => {
    const { InputError } = S.load("4_errors.ts"), a = await open(S), good = { dc: "1", authKey: new Uint8Array(256).fill(1), apiId: 1, isBot: false, userId: 1 };
    const lack = S.choose("lack", [["dc", null], ["authKey", null], ["apiId", 0], ["userId", 0], null]);
    if (lack !== null) { const [k, v] = lack; await a.auth.set({ ...good, [k]: v }); }
    const r = await S.outcome(Promise.resolve().then(() => a.exportAuthString(S.choose("apiId", lack && lack[0] === "apiId" ? [undefined, null, 0] : [undefined, null, 5]))));
    S.assert(!r.ok && r.error instanceof InputError, "a client that is not authorized exports a session"); S.cover("refused");
  } });
  return cs;
};
