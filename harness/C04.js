"use strict";
// C04 Deserializing arbitrary bytes stays inside the input and fails cleanly
const { kit } = require("./lib/tl.js");
exports.title = "Deserializing arbitrary bytes stays inside the input and fails cleanly";
exports.assumptions = ["the field lists of the schemas are taken from the repository", "reference decoding follows the same tables and the protocol's layout of primitive values"];
class Bad { constructor(id) { this.id = id; } }
// A decoder of the protocol's layout. It throws Bad where the input is malformed or too short.
function reference(S, K, b, schema) {
  const st = { o: 0 };
  const need = (n) => { if (b.length - st.o < n) throw new Bad(); const o = st.o; st.o += n; return o; };
  const uint = (n) => { const o = need(n); let v = 0; for (let i = n - 1; i >= 0; i--) v = v * 256 + b[o + i]; return v; };
  const big = (n) => { const o = need(n); let v = 0n; for (let i = n - 1; i >= 0; i--) v = (v << 8n) | BigInt(b[o + i]); return BigInt.asIntN(n * 8, v); };
  const raw = () => {
    let n = b[need(1)], h = 1;
    if (n >= 254) { const o = need(3); n = b[o] + b[o + 1] * 256 + b[o + 2] * 65536; h = 4; }
    const o = need(n);
    const pad = (4 - ((h + n) & 3)) & 3;
    need(pad);
    return b.slice(o, o + n);
  };
  const R = { st };
  R.prim = (t) => {
    switch (t) {
      case "int": return [uint(4) | 0];
      case "long": return [big(8)];
      case "int128": return [big(16)];
      case "int256": return [big(32)];
      case "double": { const o = need(8); const d = new DataView(new ArrayBuffer(8)); for (let i = 0; i < 8; i++) d.setUint8(i, b[o + i]); return [d.getFloat64(0, true)]; }
      case "bytes": return [raw()];
      case "string": return [new TextDecoder("utf-8", { ignoreBOM: true }).decode(raw())];
      case "true": return [true];
      case "Bool": { const id = uint(4); if (id === 0x997275b5) return [true]; if (id === 0xbc799737) return [false]; throw new Bad(); }
    }
  };
  R.fields = (name) => {
    const v = { _: name }, flags = {};
    for (const [f, t] of schema.definitions[name][1]) {
      if (t === "#") { flags[f] = uint(4) | 0; continue; }
      const o = K.opt(t);
      if (o) { if ((flags[o.flags] >> o.bit & 1) === 1) v[f] = R.field(o.inner); } else v[f] = R.field(t);
    }
    return v;
  };
  R.vector = (q) => {
    if (!q.bare) { if (uint(4) !== K.VECTOR) throw new Bad(); }
    const n = uint(4) | 0;
    if (n < 0) throw new Bad();
    const out = [];
    for (let i = 0; i < n; i++) out.push(R.field(q.item));
    return out;
  };
  R.field = (t) => { const p = R.prim(t); if (p) return p[0]; if (schema.definitions[t]) return R.fields(t); const q = K.vec(t); if (q) return R.vector(q); return R.boxed(t); };
  R.boxed = (t) => {
    const id = uint(4);
    if (t === "X") { if (id === 0x997275b5) return true; if (id === 0xbc799737) return false; }
    const name = schema.identifierToName[id];
    if (name === undefined) throw new Bad(id);
    if (t !== "X" && t !== schema.definitions[name][2]) throw new Bad(id);
    return R.fields(name);
  };
  return R;
}
function compare(S, K, b, got, want, reader, st, TLError, what) {
  if (want.ok) {
    S.assert(got.ok, `${what}: well-formed input is refused`);
    S.assertEq(got.value, want.value, `${what}: another value is read`);
    S.assertEq(reader.buffer.length, b.length - st.o, `${what}: the reader is not after the value`);
    S.cover("read");
  } else {
    if (!(want.error instanceof Bad)) throw want.error;
    S.assert(!got.ok, `${what}: malformed input is accepted`);
    S.assert(got.error instanceof TLError, `${what}: malformed input fails with something other than the library's error`);
    if (want.error.id !== undefined) S.assert(got.error.message.includes(want.error.id.toString(16)), `${what}: the unknown constructor is not reported`);
    S.cover("refused");
  }
}
exports.cases = (tier) => {
  const cs = [];
  const T = tier !== "quick";
  const load = (S) => ({ ...S.load("tl/1_tl_reader.ts"), ...S.load("0_errors.ts") });
  cs.push({ name: "primitives", bounds: "every primitive type, every input of 0..20 (int256: ..36) bytes, after 0, 1 or 3 earlier bytes of the same buffer", covers: ["read", "refused"], run: async (S) => {
    const { TLReader, TLError } = load(S); const K = kit(S);
    const t = S.choose("type", ["int", "long", "int128", "int256", "double", "Bool", "true"]);
    const size = { int: 4, long: 8, int128: 16, int256: 32, double: 8, Bool: 4, true: 0 }[t];
    const n = S.choose("n", [0, 1, size - 1, size, size + 1, size + 4].filter((x) => x >= 0));
    const pre = S.choose("pre", [0, 1, 3]);
    const whole = S.bytes("b", pre + n + 2), b = whole.subarray(pre, pre + n);
    S.allocLimit(64);
    const r = new TLReader(b), R = reference(S, K, b, { definitions: {} });
    const got = S.attempt(() => r.readType(t, { definitions: {}, identifierToName: {} })), want = S.attempt(() => R.prim(t)[0]);
    compare(S, K, b, got, want, r, R.st, TLError, t);
  } });
  for (const t of ["bytes", "string"]) cs.push({ name: t, bounds: `every input of 0..${T ? 16 : 9} bytes${t === "string" ? " with ASCII content" : ""}`, covers: ["read", "refused"], weight: 2, run: async (S) => {
    const { TLReader, TLError } = load(S); const K = kit(S);
    const n = S.choose("n", Array.from({ length: T ? 17 : 10 }, (_, i) => i));
    const b = S.bytes("b", n);
    if (t === "string") for (let i = 1; i < n; i++) S.assume(b[i] < 128);
    S.allocLimit(64 + n);
    const r = new TLReader(b), R = reference(S, K, b, { definitions: {} });
    const got = S.attempt(() => r.readType(t, { definitions: {}, identifierToName: {} })), want = S.attempt(() => R.prim(t)[0]);
    compare(S, K, b, got, want, r, R.st, TLError, t);
  } });
  cs.push({ name: "bytes-long", bounds: "every length prefix of either form over inputs of every length 0..2^24+7", covers: ["read", "refused"], run: async (S) => {
    const { TLReader, TLError } = load(S);
    const n = S.int("n", 4, 2 ** 24 + 7), head = S.bytes("head", 4), fill = S.blob("fill", 0, 2 ** 24 + 7);
    S.assume(fill.length === n - 4);
    const b = new Uint8Array(n); b.set(head, 0); b.set(fill, 4);
    const long = head[0] >= 254, L = long ? head[1] + head[2] * 256 + head[3] * 65536 : head[0], h = long ? 4 : 1;
    const total = h + L + ((4 - ((h + L) & 3)) & 3);
    const r = new TLReader(b), got = S.attempt(() => r.readBytes());
    if (total > n) { S.assert(!got.ok, "bytes beyond the input are read"); S.assert(got.error instanceof TLError, "not the library's error"); S.cover("refused"); return; }
    S.assert(got.ok, "well-formed bytes are refused");
    S.assert(got.value.length === L, "the wrong number of bytes is read");
    S.assert(r.buffer.length === n - total, "the reader is not after the value");
    const i = S.int("i", 0, 2 ** 24);
    if (i < L && h + i >= 4) S.assert(got.value[i] === fill[h + i - 4], "a byte does not come from its place in the input");
    S.cover("read");
  } });
  for (const [t, max] of [["Vector<int>", T ? 28 : 20], ["vector<long>", T ? 36 : 24], ["Vector<bytes>", T ? 20 : 14], ["vector<Bool>", 16], ["Vector<string>", T ? 18 : 13], ["vector<Vector<int>>", T ? 28 : 24], ["Vector<double>", 24]]) cs.push({ name: `vector-${t.replace(/[<>]/g, "_")}`, bounds: `${t}: every input of up to ${max} bytes, every declared size`, covers: ["read", "refused"], weight: 2, run: async (S) => {
    const { TLReader, TLError } = load(S); const K = kit(S);
    const n = S.choose("n", Array.from({ length: max + 1 }, (_, i) => i).filter((i) => i % 4 === 0 || i === max || i % 4 === 3));
    const b = S.bytes("b", n);
    if (t.includes("string")) for (let i = 9; i < n; i++) S.assume(b[i] < 128);
    S.allocLimit(64 + n);
    const r = new TLReader(b), schema = { definitions: {}, identifierToName: {} }, R = reference(S, K, b, schema);
    const got = S.attempt(() => r.readType(t, schema)), want = S.attempt(() => R.field(t));
    compare(S, K, b, got, want, r, R.st, TLError, t);
  } });
  for (const [label, file, sizes] of [["mtproto", "tl/1_mtproto_api.ts", T ? [0, 3, 4, 8, 12, 16, 20, 24] : [0, 3, 4, 8, 12]], ["secret", "tl/1_secret_chats_api.ts", T ? [0, 3, 4, 8, 12, 16] : [0, 3, 4, 8]]]) for (const n of sizes) cs.push({ name: `${label}-any-${n}`, bounds: `every input of ${n} bytes read as any object of the ${label} schema; at most one bit set in each flag word; text is ASCII`, weight: n / 4, run: async (S) => {
    const { TLReader, TLError } = load(S); const K = kit(S);
    const schema = S.load(file).schema;
    const b = S.bytes("b", n);
    const rpcError = label === "mtproto" && n > 4 && b[0] === 0x19 && b[1] === 0xCA && b[2] === 0x44 && b[3] === 0x21;
    for (let i = 4; i < n; i++) if (label !== "mtproto" || rpcError) S.assume(b[i] < 128);
    if (n >= 8) { const f = b[4] + b[5] * 256 + b[6] * 65536 + b[7] * 16777216; if (label !== "mtproto") S.assume((f & (f - 1)) === 0); }
    S.allocLimit(64 + n);
    const r = new TLReader(b), R = reference(S, K, b, schema);
    const got = S.attempt(() => r.readType("X", schema)), want = S.attempt(() => R.boxed("X"));
    compare(S, K, b, got, want, r, R.st, TLError, "X");
  } });
  const parts = 12;
  for (let part = 0; part < parts; part++) cs.push({ name: `telegram-body-${part}`, bounds: `every constructor of the telegram schema whose index is ${part} modulo ${parts}, read by its type from its identifier followed by every sequence of ${T ? "0, 4, 8 and 12" : "4 (with a flag word 8)"} bytes; the schema is restricted to the constructor, up to three constructors of each type it mentions and one of another type; at most one bit set in each word that can be a flag word; text is ASCII`, weight: 3, validate: 1, run: async (S) => {
    const { TLReader, TLError } = load(S); const K = kit(S);
    const full = S.load("tl/1_telegram_api.ts").schema;
    const names = Object.values(full.identifierToName).filter((x, i) => i % parts === part && !["boolTrue", "boolFalse", "true"].includes(x));
    const name = S.choose("constructor", names), n = S.choose("n", T ? [0, 4, 8, 12] : full.definitions[name][1].some(([, t]) => t === "#") ? [8] : [4]);
    const schema = { definitions: {}, identifierToName: {} };
    const add = (c) => { schema.definitions[c] = full.definitions[c]; schema.identifierToName[full.definitions[c][0]] = c; };
    add(name); add(name === "error" ? "ipPort" : "error");
    const types = new Set();
    for (const [, t] of full.definitions[name][1]) { let x = K.opt(t) ? K.opt(t).inner : t; while (K.vec(x)) x = K.vec(x).item; types.add(x); }
    const count = {};
    for (const c of Object.values(full.identifierToName)) { const t = full.definitions[c][2]; if (types.has(t) && (count[t] = (count[t] ?? 0) + 1) <= 3 || types.has(c)) add(c); }
    const [id, fields, type] = full.definitions[name];
    const b = new Uint8Array(4 + n);
    for (let i = 0; i < 4; i++) b[i] = (id >>> (8 * i)) & 255;
    b.set(S.bytes("b", n), 4);
    if (fields.some(([, t]) => t.includes("string"))) for (let i = 4; i < 4 + n; i++) S.assume(b[i] < 128);
    const words = fields.filter(([, t]) => t === "#").length, nested = Object.values(schema.definitions).some((d) => d !== full.definitions[name] && d[1].some(([, t]) => t === "#"));
    for (let o = 4; o + 4 <= 4 + n; o += 4) if (o / 4 <= words || o >= 12 && nested) { const f = b[o] + b[o + 1] * 256 + b[o + 2] * 65536 + b[o + 3] * 16777216; S.assume((f & (f - 1)) === 0); }
    S.allocLimit(64 + n);
    const r = new TLReader(b), R = reference(S, K, b, schema);
    const got = S.attempt(() => r.readType(type, schema)), want = S.attempt(() => R.boxed(type));
    compare(S, K, b, got, want, r, R.st, TLError, name);
  } });
  for (const n of T ? [0, 15, 16, 19, 20, 24, 28, 40, 44, 48, 52, 56] : [0, 15, 16, 19, 20, 24, 28, 40, 44, 48]) cs.push({ name: `message-${n}`, bounds: `every input of ${n} bytes read as a message, with containers inside containers`, weight: n / 10, run: async (S) => {
    const { TLReader, TLError } = load(S); const { deserializeMessage } = S.load("tl/2_message.ts"); const K = kit(S);
    const b = S.bytes("b", n);
    S.allocLimit(64 + n);
    const message = (b, st) => {
      const R = reference(S, K, b, { definitions: {} }); R.st.o = st.o;
      const msg_id = R.prim("long")[0], seqno = R.prim("int")[0], len = R.prim("int")[0];
      if (len < 0 || len > b.length - R.st.o) throw new Bad();
      const o = R.st.o, body = b.slice(o, o + len);
      st.o = o + len;
      if (body.length < 4) throw new Bad();
      const id = body[0] + body[1] * 256 + body[2] * 65536 + body[3] * 16777216;
      if (id !== 0x73F1F8DC) return { _: "message", msg_id, seqno, body };
      if (body.length < 8) throw new Bad();
      const count = (body[4] + body[5] * 256 + body[6] * 65536 + body[7] * 16777216) | 0;
      if (count < 0) throw new Bad();
      const messages = [], st2 = { o: 8 };
      for (let i = 0; i < count; i++) messages.push(message(body, st2));
      return { _: "message", msg_id, seqno, body: { _: "msg_container", messages } };
    };
    const r = new TLReader(b), st = { o: 0 };
    const got = S.attempt(() => deserializeMessage(r)), want = S.attempt(() => message(b, st));
    compare(S, K, b, got, want, r, st, TLError, "message");
  } });
  cs.push({ name: "cursor", bounds: `every sequence of ${T ? "three" : "two"} reads, views and steps back of -2^31..2^31-1 bytes over every input of 0, 1, 2 and 5 bytes`, run: async (S) => {
    const { TLReader, TLError } = load(S);
    const n = S.choose("n", [0, 1, 2, 5]);
    const b = S.bytes("b", n);
    const r = new TLReader(b);
    let o = 0;
    for (let k = 0; k < (T ? 3 : 2); k++) {
      const c = S.int("c" + k, -(2 ** 31), 2 ** 31 - 1);
      const op = S.choose("op" + k, ["read", "readView", "unread"]);
      if (op === "unread") S.assume(c >= 0);
      const got = S.attempt(() => r[op](c));
      const ok = op === "unread" ? c <= o : c >= 0 && c <= n - o;
      if (!ok) { S.assert(!got.ok, `${op} outside the input succeeds`); S.assert(got.error instanceof TLError, "not the library's error"); }
      else { S.assert(got.ok, `${op} inside the input fails`); if (op === "unread") o -= c; else { S.assertEq(got.value, b.slice(o, o + c), `${op} returns other bytes`); o += c; } }
      S.assertEq(r.buffer, b.slice(o), "the rest of the input is wrong");
    }
  } });
  return cs;
};
