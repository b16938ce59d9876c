"use strict";
// Both ends of a secret chat, and what the end-to-end protocol prescribes for a message.
const { hash, keys, u32 } = require("./session.js");
const { kit } = require("./tl.js");
const OWN = 100, OTHER = 200, CHAT = 7, HASH = 99n;
const PRIME = 0xC71CAEB9C6B1C9048E6C522F70F13F73980D40238E3E21C14934D037563D930F48198A0AA7C14058229493D22530F4DBFA336F6E0AC925139543AED44CCE7C3720FD51F69458705AC68CD4FE6B6B13ABDC9746512969328454F18FAF8C595F642477FE96BB2A941D5BCD1D4AC8CC49880708FA9B378E3C4F3A9060BEE67CF9A4A4A695811051907E162753B56B0F6B410DBA74D8A84B2A14B3144E0EF1284754FD17ED950D5965B4B9DD46582DB1178D169C6BC465B0D6FF9CA3928FEF5B9AE4E418FC15E83EBEA0F87FA9FF5EED70050DED2849F47BF959D956850CE929851F0D8115F635B105EE2E4E15D04B2454BF6F4FADF034B10403119CD8E3B92FCC5Bn;
const be = (v, n) => { const out = []; for (let i = n - 1; i >= 0; i--) out.push(Number(BigInt.asUintN(8, v >> BigInt(8 * i)))); return out; };
const le32 = (v) => [v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24 & 255];
const KEY = new Uint8Array(256).map((_, i) => (i * 7 + 3) & 255);
const flat = (...a) => { const r = []; for (const x of a) for (let i = 0; i < x.length; i++) r.push(x[i]); return new Uint8Array(r); };
// x is 0 for what the creator of the chat sends and 8 for what the other one sends
async function seal(S, key, plain, x, over = {}) {
  const { ige256Encrypt } = S.load("0_deps.ts");
  const messageKey = over.messageKey ?? (await hash("SHA-256", key.subarray(88 + x, 120 + x), plain)).slice(8, 24);
  const [k, iv] = await keys(key, messageKey, x);
  const id = over.keyId ?? (await hash("SHA-1", key)).slice(12, 20);
  return flat(id, messageKey, ige256Encrypt(plain, k, iv));
}
async function messageKeyOf(key, plain, x) { return (await hash("SHA-256", key.subarray(88 + x, 120 + x), plain)).slice(8, 24); }
function pad(body, length = body.length, padding) {
  const n = padding ?? 12 + (16 - (4 + body.length + 12) % 16) % 16, tail = [];
  for (let i = 0; i < n; i++) tail.push(i & 255);
  return flat(le32(length), body, tail);
}
// reads what was sent and checks its form
async function open(S, key, data, x) {
  const { ige256Decrypt } = S.load("0_deps.ts"), { SecretChats, X: Types } = S.load("2_tl.ts");
  S.assertEq(data.slice(0, 8), (await hash("SHA-1", key)).slice(12, 20), "a secret message starts with another key identifier");
  S.assert(data.length >= 40 && (data.length - 24) % 16 === 0, "a secret message is no whole number of blocks");
  const messageKey = data.slice(8, 24), [k, iv] = await keys(key, messageKey, x), plain = ige256Decrypt(data.slice(24), k, iv);
  S.assertEq(await messageKeyOf(key, plain, x), messageKey, "a secret message's key is not that of its content");
  const length = u32(plain, 0), padding = plain.length - 4 - length;
  S.assert(length % 4 === 0 && padding >= 12 && padding <= 1024, "the padding of a secret message is not between 12 and 1024 bytes");
  const body = plain.slice(4, 4 + length), layer = SecretChats.deserializeType(Types, body);
  S.assert(layer._ === "decryptedMessageLayer" && layer.random_bytes.length >= 15, "a secret message has another form");
  return { layer, body, plain };
}
const layerOf = (S) => { const K = kit(S), { SecretChats } = S.load("2_tl.ts"); return (o) => new Uint8Array(K.encObject({ _: "decryptedMessageLayer", random_bytes: new Uint8Array(15), layer: 144, ...o }, SecretChats.schema)); };
const text = (message, random_id, more = {}) => ({ _: "decryptedMessage", random_id, ttl: 0, message, ...more });
const action = (a, random_id = 1n) => ({ _: "decryptedMessageService", random_id, action: a });
const chatOf = (creator, more = {}) => ({ _: "encryptedChat", id: CHAT, access_hash: HASH, date: 1, admin_id: BigInt(creator), participant_id: BigInt(creator === OWN ? OTHER : OWN), g_a_or_b: new Uint8Array(256), key_fingerprint: 1n, ...more });
// a storage that keeps copies of what it is given
const copy = (v) => v instanceof Uint8Array ? v.slice() : Array.isArray(v) ? v.map(copy) : v !== null && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, copy(x)])) : v;
function copies() {
  const m = [], same = (a, b) => a.length === b.length && a.every((v, i) => v === b[i]);
  return { m, initialize() {}, close() {}, async get(k) { const e = m.find((e) => same(e[0], k)); return e ? copy(e[1]) : null; }, async set(k, v) { const i = m.findIndex((e) => same(e[0], k)); if (i >= 0) m.splice(i, 1); if (v !== null) m.push([[...k], copy(v)]); },
    async *getMany({ prefix }) { for (const [k, v] of [...m]) if (prefix.every((p, i) => k[i] === p)) yield [[...k], copy(v)]; } };
}
// a storage that keeps what it is given as text
function memory(S) {
  const { toString, fromString } = S.load("storage/1_utilities.ts"), m = new Map();
  return { m, initialize() {}, close() {}, async get(k) { const v = m.get(toString(k)); return v === undefined ? null : fromString(v); }, async set(k, v) { if (v === null) m.delete(toString(k)); else m.set(toString(k), toString(v)); },
    async *getMany({ prefix }) { for (const [k, v] of [...m]) { const key = fromString(k); if (prefix.every((p, i) => key[i] === p)) yield [key, fromString(v)]; } } };
}
// one end: `sent` has what it asks the server for, `updates` what it tells the user
function end(S, self, { storage = copies(), answer, upload } = {}) {
  const { SecretChatManager } = S.load("client/3_secret_chat_manager.ts");
  const t = { self, storage, requests: [], sent: [], updates: [], texts: [], fail: null, hold: null, discarded: 0 };
  t.c = { parseMode: null, storage: { assertUser() {} }, messageStorage: { storage }, getSelfId: async () => self, getInputUser: async (id) => ({ _: "inputUser", user_id: BigInt(id), access_hash: 1n }),
    handleUpdate: (u) => { t.updates.push(u); if (u.secretMessage && u.secretMessage.type === "text") t.texts.push(u.secretMessage.text); },
    fileManager: { upload: async (...a) => upload(...a) },
    invoke: async (f) => {
      t.requests.push(f);
      if (t.hold) await t.hold(f);
      if (f._.startsWith("messages.sendEncrypted")) t.sent.push(f);
      if (t.fail) { const e = t.fail(f); if (e) throw e; }
      if (f._ === "messages.discardEncryption") { t.discarded++; return true; }
      if (f._ === "messages.getDhConfig") return t.dh ?? { _: "messages.dhConfig", g: 3, p: new Uint8Array(be(PRIME, 256)), version: 1, random: new Uint8Array(256) };
      const r = answer && await answer(f, t);
      if (r) return r;
      if (f._ === "messages.sendEncryptedFile") return { _: "messages.sentEncryptedFile", date: 1, file: { _: "encryptedFile", id: 31n, access_hash: 32n, size: 33n, dc_id: 2, key_fingerprint: 0 } };
      return { _: "messages.sentEncryptedMessage", date: 1 };
    } };
  t.start = async () => { t.manager = new SecretChatManager(t.c); await t.manager.loadSecretChats(); };
  // starts with a chat under way
  t.begin = async ({ creator = OWN, key = KEY, ...state } = {}) => {
    const { SecretChatState } = S.load("client/0_secret_chat_state.ts"), st = new SecretChatState(), { outgoing = [], ...rest } = state;
    const id = (await hash("SHA-1", key)).slice(12, 20);
    let n = 0n; for (let i = 7; i >= 0; i--) n = n << 8n | BigInt(id[i]);
    Object.assign(st, { encryptedChat: chatOf(creator), authKey: key.slice(), authKeyId_: id, authKeyId: BigInt.asIntN(64, n), g: 3, prime: PRIME, ...rest });
    for (const [k, v] of outgoing) st.outgoingMessages.set(k, v);
    t.key = key; t.out = self === creator ? 0 : 8; t.in = 8 - t.out; t.x = self === creator ? 1 : 0;
    await st.commit(storage); await t.start();
  };
  t.state = async () => await storage.get(["secretChats", CHAT]);
  t.receive = (bytes, more = {}) => S.outcome(t.manager.handleUpdate({ _: "updateNewEncryptedMessage", qts: 1, message: { _: "encryptedMessageService", random_id: 1n, chat_id: CHAT, date: 1, bytes: bytes instanceof Uint8Array ? bytes.slice() : new Uint8Array(bytes), ...more } }));
  // what the other end would send; sequence numbers count its messages
  t.says = async (message, out, seen = 0, more = {}) => await seal(S, more.key ?? t.key, pad(layerOf(S)({ in_seq_no: more.in_seq_no ?? 2 * seen + t.x, out_seq_no: more.out_seq_no ?? 2 * out + 1 - t.x, message })), t.in);
  t.read = async (key = t.key) => { const r = []; for (const f of t.sent.splice(0)) r.push({ method: f._.slice(9), ...(await open(S, key, f.data, t.out)).layer }); return r; };
  return t;
}
module.exports = { OWN, OTHER, CHAT, HASH, PRIME, KEY, be, flat, seal, open, pad, layerOf, text, action, chatOf, memory, copies, end, messageKeyOf, hash, keys };
