"use strict";
// C18 Storage keys and values are encoded reversibly and order-preservingly
const { cmp, IDBKeyRange } = require("./lib/idb.js");
exports.title = "Storage keys and values are encoded reversibly and order-preservingly";
exports.assumptions = ["numbers are integers up to 2^53; the order and the ranges of IndexedDB keys are those of the Indexed Database API 3.0"];
const globals = { indexedDB: { cmp }, IDBKeyRange };
const same = (a, b) => typeof a === typeof b && a === b;
const sameKey = (a, b) => { if (a.length !== b.length) return false; for (let i = 0; i < a.length; i++) if (!same(a[i], b[i])) return false; return true; };
const startsWith = (k, p) => k.length >= p.length && sameKey(k.slice(0, p.length), p);
const LEN = [0, 1, 2];
// a key part of one of the given kinds
function part(S, name, kinds, len = LEN, top = 120) {
  const kind = S.choose(name + ".kind", kinds);
  if (kind === "string") return S.str(name, S.choose(name + ".n", len), 0, 0xFFFF);
  if (kind === "digits") return S.str(name, S.choose(name + ".n", [1, 2]), 48, 57);
  if (kind === "number") return S.int(name, -top, top);
  return S.big(name, BigInt(-top), BigInt(top));
}
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const roundTrip = (S, v, msg) => { const { toString, fromString } = S.load("storage/1_utilities.ts"); S.assertEq(fromString(toString(v)), v, msg); };
  cs.push({ name: "values", bounds: "every string of up to 4 units; every safe integer; every 65-bit integer; booleans; every date; every byte array of up to 5 bytes", covers: ["string", "number", "bigint", "boolean", "date", "bytes"], run: (S) => {
    const kind = S.choose("kind", ["string", "number", "bigint", "boolean", "date", "bytes"]);
    S.cover(kind);
    const { toString, fromString } = S.load("storage/1_utilities.ts");
    if (kind === "date") { const t = S.int("t", -8640000000000000, 8640000000000000); const d = fromString(toString(new Date(t))); S.assert(d instanceof Date, "a date does not come back as a date"); S.assertEq(d.getTime(), t, "a date is altered"); return; }
    const v = kind === "string" ? S.str("s", S.choose("n", [0, 1, 2, 3, 4]), 0, 0xFFFF) : kind === "number" ? S.int("v", -Number.MAX_SAFE_INTEGER, Number.MAX_SAFE_INTEGER) : kind === "bigint" ? S.big("v", -(1n << 64n), 1n << 64n) : kind === "boolean" ? S.choose("b", [false, true]) : S.bytes("b", S.choose("n", [0, 1, 2, 3, 4, 5]));
    roundTrip(S, v, "a " + kind + " is altered");
    S.assert(typeof fromString(toString(v)) === typeof v, "the kind of a value is altered");
  } });
  cs.push({ name: "special-numbers", bounds: "the numbers NaN, infinite, fractional, large and small ones in a list", run: (S) => {
    const { toString, fromString } = S.load("storage/1_utilities.ts");
    for (const v of [NaN, Infinity, -Infinity, 0.1, -1.5, 1e21, 1.5e-7, 5e-324, Number.MAX_VALUE, 2 ** 53]) S.assert(Object.is(fromString(toString(v)), v), "a number is altered");
  } });
  cs.push({ name: "arrays", bounds: "every array of up to 3 strings of up to 2 units, mixed with integers, big integers, byte arrays and nested arrays", run: (S) => {
    const n = S.choose("n", [0, 1, 2, 3]), out = [];
    for (let i = 0; i < n; i++) out.push(S.choose("kind" + i, [() => S.str("s" + i, S.choose("l" + i, [0, 1, 2]), 0, 0xFFFF), () => S.int("v" + i, -1000, 1000), () => [S.big("w" + i, -20n, 20n), [S.str("t" + i, 1, 0, 0xFFFF)]], () => []])());
    roundTrip(S, out, "an array is altered");
  } });
  cs.push({ name: "lengths", bounds: "items of 7..12 and 97..101 units, in one and two levels of arrays, whose other content is arbitrary at the start and the end", run: (S) => {
    const n = S.choose("n", [7, 8, 9, 10, 11, 12, 97, 98, 99, 100, 101, 998, 999]), s = S.str("a", 2, 0, 0xFFFF) + "x".repeat(n - 4) + S.str("b", 2, 0, 0xFFFF);
    roundTrip(S, S.choose("in", [[s], [[s], s], [s, s + "y", 1], { k: s, [s.length]: [s] }]), "a long item is altered");
  } });
  cs.push({ name: "objects", bounds: "objects with up to 2 of the property names a, 1, the empty one, 2\\n, __proto__; values as in arrays", run: (S) => {
    const names = ["a", "1", "", "2\n22", "constructor"], o = {};
    for (let i = 0; i < S.choose("n", [0, 1, 2]); i++) o[S.choose("name" + i, i ? names : names.slice(0, 3))] = S.choose("kind" + i, [() => S.str("s" + i, S.choose("l" + i, [0, 2]), 0, 0xFFFF), () => S.int("v" + i, -20, 20), () => ({ x: S.big("w" + i, -20n, 20n) }), () => true, () => []])();
    roundTrip(S, o, "an object is altered");
    const { fromString, toString } = S.load("storage/1_utilities.ts"), back = fromString(toString(o));
    S.assert(Object.keys(back).join("|") === Object.keys(o).join("|"), "the properties of an object are altered");
  } });
  cs.push({ name: "distinct-keys", bounds: "every two keys of up to 2 parts: strings of up to 2 units, digits, integers and big integers up to 20", covers: ["same", "different"], run: (S) => {
    const { toString } = S.load("storage/1_utilities.ts");
    const key = (nm) => Array.from({ length: S.choose(nm, [1, 2]) }, (_, i) => part(S, nm + i, i ? ["string", "number"] : ["string", "digits", "number", "bigint"], nm === "a" && i ? [1] : [0, 2], 20));
    const a = key("a"), b = key("b");
    if (toString(a) === toString(b)) { S.cover("same"); S.assert(sameKey(a, b), "two different keys have the same text"); } else { S.cover("different"); S.assert(!sameKey(a, b), "one key has two texts"); }
  } });
  cs.push({ name: "order", bounds: "every three keys of one part, and of two parts in the second of which they may differ: strings of up to 2 units, digits, integers and big integers up to 120", run: (S) => {
    const { compareKeys, isInRange } = S.load("storage/1_utilities.ts");
    const first = S.choose("first", [[], ["p"]]);
    const key = (nm) => [...first, ...S.choose(nm + ".short", first.length ? [true, false] : [false]) ? [] : [part(S, nm, ["string", "digits", "number", "bigint"], [1, 2])]];
    const a = key("a"), b = key("b"), c = key("c"), ab = compareKeys(a, b), ba = compareKeys(b, a), bc = compareKeys(b, c), ac = compareKeys(a, c);
    S.assert(ab === -ba || ab === 0 && ba === 0, "the comparison is not antisymmetric");
    S.assert((ab === 0) === sameKey(a, b), "the comparison is not consistent with equality");
    if (ab <= 0 && bc <= 0) S.assert(ac <= 0, "the comparison is not transitive");
    S.assert(isInRange(b, a, c) === (ab <= 0 && bc <= 0), "the range is not the interval");
  } });
  cs.push({ name: "order-like-kinds", bounds: "every two keys of two parts whose parts have pairwise the same kind", run: (S) => {
    const { compareKeys, fixKey } = S.load("storage/1_utilities.ts");
    const k1 = S.choose("k1", ["string", "number", "bigint"]), k2 = S.choose("k2", ["string", "number", "bigint"]);
    const key = (nm) => [part(S, nm + 1, [k1], [1, 2]), part(S, nm + 2, [k2], [1])];
    const a = key("a"), b = key("b");
    const want = a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : a[1] < b[1] ? -1 : a[1] > b[1] ? 1 : 0;
    S.assert(compareKeys(a, b) === want, "keys are not ordered part by part");
    S.assert(cmp(fixKey(a), fixKey(b)) === want, "database keys are not ordered like the keys");
  } });
  cs.push({ name: "database-keys", globals, bounds: "every key of up to 2 parts (strings of up to 2 units, integers up to 120, the first part's up to 1200)", run: (S) => {
    const { fixKey, restoreKey } = S.load("storage/1_utilities.ts");
    const key = Array.from({ length: S.choose("n", [0, 1, 2]) }, (_, i) => part(S, "p" + i, ["string", "number", "bigint"], LEN, i === 0 ? 1200 : 120)), back = restoreKey(fixKey(key));
    S.assert(sameKey(back, key), "a key does not come back from the database as it was");
  } });
  cs.push({ name: "prefix-range", globals, bounds: "every prefix of up to 2 and key of up to 3 parts (strings of up to 2 units, integers and big integers up to 120)", covers: ["inside", "outside"], run: (S) => {
    const { fixKey, getPrefixKeyRange } = S.load("storage/1_utilities.ts");
    const kinds = ["string", "number", "bigint"];
    const p = Array.from({ length: S.choose("p", [1, 2]) }, (_, i) => part(S, "p" + i, i ? kinds : ["string"], [0, 1]));
    const k = Array.from({ length: S.choose("k", [1, 2, 3]) }, (_, i) => part(S, "k" + i, i === 1 && p.length > 1 ? kinds : ["string"], [0, 1, 2]));
    const r = getPrefixKeyRange(fixKey(p)), inside = r.includes(fixKey(k));
    S.assert(inside === startsWith(k, p), inside ? "a key outside the prefix is in its range" : "a key with the prefix is not in its range");
    S.cover(inside ? "inside" : "outside");
  } });
  return cs;
};
