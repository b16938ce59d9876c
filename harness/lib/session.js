"use strict";
// A server for SessionEncrypted, written from the MTProto 2.0 specification.
const bytesOf = (v, n) => { v = BigInt.asUintN(8 * n, BigInt(v)); const r = []; for (let i = 0; i < n; i++) r.push(Number((v >> BigInt(8 * i)) & 255n)); return r; };
const uint = (b, o, n) => { let v = 0n; for (let i = 0; i < n; i++) v = v | BigInt(b[o + i]) << BigInt(8 * i); return v; };
const u32 = (b, o) => b[o] + b[o + 1] * 256 + b[o + 2] * 65536 + b[o + 3] * 16777216;
const i32 = (b, o) => b[o] + b[o + 1] * 256 + b[o + 2] * 65536 + (b[o + 3] >= 128 ? b[o + 3] - 256 : b[o + 3]) * 16777216;
const i64 = (b, o) => BigInt.asIntN(64, uint(b, o, 8));
const hash = async (alg, ...parts) => new Uint8Array(await crypto.subtle.digest(alg, new Uint8Array(parts.flatMap((p) => [...p]))));
const ID = { container: 0x73f1f8dc, rpc_result: 0xf35c6d01, rpc_error: 0x2144ca19, gzip: 0x3072cfa1, acks: 0x62d6b459, pong: 0x347773c5, bad_msg: 0xa7eff811, bad_salt: 0xedab447b, new_session: 0x9ec20908, detailed: 0x276d3ec6, new_detailed: 0x809db6df, ping_delay: 0xf3427b8c };
async function keys(authKey, messageKey, x) { // x = 0 client to server, 8 server to client
  const a = await hash("SHA-256", messageKey, authKey.subarray(x, x + 36)), b = await hash("SHA-256", authKey.subarray(40 + x, 76 + x), messageKey);
  return [new Uint8Array([...a.subarray(0, 8), ...b.subarray(8, 24), ...a.subarray(24, 32)]), new Uint8Array([...b.subarray(0, 8), ...a.subarray(8, 24), ...b.subarray(24, 32)])];
}
// packet of the server; `over` replaces parts
async function seal(S, authKey, plain, over = {}) {
  const { ige256Encrypt } = S.load("0_deps.ts");
  const key = over.messageKey ?? (await hash("SHA-256", authKey.subarray(96, 128), plain)).slice(8, 24);
  const [k, iv] = await keys(authKey, key, 8);
  const id = over.keyId ?? (await hash("SHA-1", authKey)).slice(12, 20);
  return new Uint8Array([...id, ...key, ...ige256Encrypt(plain, k, iv)]);
}
// checks a client packet against the specification and returns its plaintext
async function unseal(S, authKey, packet) {
  const { ige256Decrypt } = S.load("0_deps.ts");
  S.assertEq(packet.slice(0, 8), (await hash("SHA-1", authKey)).slice(12, 20), "a packet starts with another key identifier");
  S.assert(packet.length >= 24 + 48 && (packet.length - 24) % 16 === 0, "the encrypted part of a packet is not a whole number of blocks");
  const key = packet.slice(8, 24);
  const [k, iv] = await keys(authKey, key, 0);
  const plain = ige256Decrypt(packet.slice(24), k, iv);
  S.assertEq((await hash("SHA-256", authKey.subarray(88, 120), plain)).slice(8, 24), key, "a packet's message key is not that of its content");
  return plain;
}
function parse(S, plain) {
  const r = { salt: i64(plain, 0), session: i64(plain, 8), msgId: uint(plain, 16, 8), seqno: u32(plain, 24), length: u32(plain, 28) };
  S.assert(r.length % 4 === 0 && 32 + r.length <= plain.length, "a message's length does not fit its packet");
  r.body = plain.slice(32, 32 + r.length);
  r.padding = plain.length - 32 - r.length;
  S.assert(r.padding >= 12 && r.padding <= 1024, "a packet's padding is not between 12 and 1024 bytes");
  const id = u32(r.body, 0);
  if (id === ID.container) {
    r.messages = [];
    let o = 8;
    for (let n = u32(r.body, 4); n > 0; n--) { const m = { msgId: uint(r.body, o, 8), seqno: u32(r.body, o + 8), length: u32(r.body, o + 12) }; o += 16; m.body = r.body.slice(o, o + m.length); o += m.length; r.messages.push(m); }
    S.assert(o === r.length, "a container has another length than declared");
  }
  return r;
}
const acked = (body) => { if (u32(body, 0) !== ID.acks) return null; const r = []; for (let n = u32(body, 8), i = 0; i < n; i++) r.push(uint(body, 12 + 8 * i, 8)); return r; };
async function rig(S, { authKey = new Uint8Array(256).fill(7), salt = 0x1122334455667788n, connect = true, client = null } = {}) {
  const { SessionEncrypted } = S.load("session/2_session_encrypted.ts");
  const t = { sent: [], queue: [], waiting: [], opened: 0, closed: 0, authKey, salt, errors: [], failSend: null, failOpen: null };
  const connection = t.connection = {
    isConnected: false,
    open: async () => { if (t.failOpen) { const e = t.failOpen(); if (e) throw e; } t.opened++; connection.isConnected = true; connection.stateChangeHandler?.(true); },
    close: async () => { t.drop(); },
  };
  // the connection is lost
  t.drop = () => { if (!connection.isConnected) return; t.closed++; connection.isConnected = false; t.queue = []; const ws = t.waiting; t.waiting = []; for (const w of ws) w.reject(new Error("closed")); connection.stateChangeHandler?.(false); };
  const transport = {
    initialize: async () => {},
    send: async (b) => { if (t.failSend) { const e = t.failSend(b); if (e) throw e; } t.sent.push(b.slice()); if (t.hold) await t.hold; },
    receive: () => new Promise((resolve, reject) => { if (!connection.isConnected) return reject(new Error("not connected")); if (t.queue.length) resolve(t.queue.shift()); else t.waiting.push({ resolve, reject }); }),
  };
  t.feed = (packet) => { if (t.waiting.length) t.waiting.shift().resolve(packet); else t.queue.push(packet); };
  t.plain = ({ salt = t.salt, session = t.session.id, msgId, seqno = 0, body, length = body.length, padding }) => {
    const head = [...bytesOf(salt, 8), ...bytesOf(session, 8), ...bytesOf(msgId, 8), ...bytesOf(seqno, 4), ...bytesOf(length, 4), ...body];
    const n = padding ?? 12 + (16 - (head.length + 12) % 16) % 16;
    for (let i = 0; i < n; i++) head.push(i);
    return new Uint8Array(head);
  };
  t.say = async (m) => { t.feed(await seal(S, authKey, t.plain(m))); await S.settle(); };
  t.read = async () => { const r = []; for (const p of t.sent.splice(0)) r.push(parse(S, await unseal(S, authKey, p))); return r; };
  const transportProvider = () => ({ connection, transport, dcId: 2 });
  if (client) { const { ClientEncrypted } = S.load("client/2_client_encrypted.ts"); t.client = new ClientEncrypted("2", 12345, { transportProvider, ...client }); t.session = t.client.session; } else t.session = new SessionEncrypted("2", { transportProvider });
  await t.session.setAuthKey(authKey);
  t.session.serverSalt = salt;
  if (connect) await (t.client ?? t.session).connect();
  return t;
}
const B = {
  container: (ms) => [...bytesOf(ID.container, 4), ...bytesOf(ms.length, 4), ...ms.flatMap((m) => [...bytesOf(m.msgId, 8), ...bytesOf(m.seqno ?? 1, 4), ...bytesOf(m.body.length, 4), ...m.body])],
  result: (req, body) => [...bytesOf(ID.rpc_result, 4), ...bytesOf(req, 8), ...body],
  error: (code, text) => [...bytesOf(ID.rpc_error, 4), ...bytesOf(code, 4), ...tl([...text].map((c) => c.charCodeAt(0)))],
  gzip: (bytes) => [...bytesOf(ID.gzip, 4), ...tl(bytes)],
  pong: (req, ping) => [...bytesOf(ID.pong, 4), ...bytesOf(req, 8), ...bytesOf(ping, 8)],
  badMsg: (id, seqno, code) => [...bytesOf(ID.bad_msg, 4), ...bytesOf(id, 8), ...bytesOf(seqno, 4), ...bytesOf(code, 4)],
  badSalt: (id, seqno, salt) => [...bytesOf(ID.bad_salt, 4), ...bytesOf(id, 8), ...bytesOf(seqno, 4), ...bytesOf(48, 4), ...bytesOf(salt, 8)],
  newSession: (first, unique, salt) => [...bytesOf(ID.new_session, 4), ...bytesOf(first, 8), ...bytesOf(unique, 8), ...bytesOf(salt, 8)],
  detailed: (id, answer) => [...bytesOf(ID.detailed, 4), ...bytesOf(id, 8), ...bytesOf(answer, 8), ...bytesOf(40, 4), ...bytesOf(0, 4)],
  newDetailed: (answer) => [...bytesOf(ID.new_detailed, 4), ...bytesOf(answer, 8), ...bytesOf(40, 4), ...bytesOf(0, 4)],
};
function tl(bytes) { const h = bytes.length < 254 ? [bytes.length] : [254, ...bytesOf(bytes.length, 3)]; const r = [...h, ...bytes]; while (r.length % 4) r.push(0); return r; }
// an invertible coding standing for compression: 8 bytes naming the content, padded to a chosen size
function gzipModel(S, size = (n) => 16) {
  const table = [];
  const compress = (b) => { table.push(b.slice()); const r = [0x1f, 0x8b, 8, 0, table.length & 255, table.length >> 8, 0, 0]; const n = size(b.length); while (r.length < n) r.push(r.length & 255); return new Uint8Array(r); };
  const decompress = (b) => { if (b.length < 8 || b[0] !== 0x1f || b[1] !== 0x8b) throw new TypeError("invalid gzip"); const x = table[b[4] + b[5] * 256 - 1]; if (!x) throw new TypeError("invalid gzip"); return x.slice(); };
  S.gzipHook({ compress, decompress });
  return { compress, decompress, table };
}
module.exports = { bytesOf, uint, u32, i32, i64, hash, keys, seal, unseal, parse, acked, rig, B, ID, tl, gzipModel };
