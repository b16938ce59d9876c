"use strict";
// C11 Encrypted messages follow the prescribed wire format
const { rig, B, ID, tl, uint, u32, i64, bytesOf, acked, hash, gzipModel } = require("./lib/session.js");
exports.title = "Encrypted messages follow the prescribed wire format";
exports.assumptions = ["the time is before 2038-01-19, where the protocol's signed 64-bit message identifiers end", "AES-IGE is an arbitrary permutation per key and vector, SHA-1 and SHA-256 are arbitrary functions", "compression is an arbitrary invertible coding of a chosen size"];
const UPDATE = 0x12345678;
// the body as the peer takes it, decompressed if it is compressed
function content(S, gz, body) {
  if (body.length < 8 || u32(body, 0) !== ID.gzip) return body;
  let n = body[4], o = 5;
  if (n === 254) { n = body[5] + body[6] * 256 + body[7] * 65536; o = 8; }
  const end = o + n + (4 - (o + n) % 4) % 4;
  S.assert(end === body.length, "compressed data does not fill its message");
  return gz.decompress(body.slice(o, o + n));
}
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const SIZES = [4, 8, 12, 16, 20, 24, 28, 32, 36, 40, 60, 64, 68, 72, 76, 1020, 1024];
  cs.push({ name: "message", bounds: `one message of ${SIZES.join(", ")} bytes, every content, authorization key, salt, session identifier and time`, weight: 2, run: async (S) => {
    const authKey = S.bytes("authKey", 256), salt = S.big("salt", -(2n ** 63n), 2n ** 63n - 1n);
    const t = await rig(S, { authKey, salt });
    const ms = S.int("ms", 0, 2 ** 31 * 1000 - 1); S.nowHook(() => ms);
    const n = S.choose("n", SIZES);
    const body = new Uint8Array([...bytesOf(UPDATE, 4), ...S.bytes("body", n - 4)]), copy = body.slice();
    let told;
    await t.session.send(body, (id) => { told = id; return () => {}; });
    const [p, extra] = await t.read();
    S.assert(extra === undefined, "one message is sent as more than one packet");
    S.assert(p.salt === salt, "a packet carries another salt");
    S.assert(p.session === t.session.id, "a packet carries another session identifier");
    S.assert(p.msgId === told, "a packet carries another message identifier");
    S.assert(p.seqno === 1, "the first message has another sequence number");
    S.assert(p.length === n, "a message has another length");
    S.assertEq(p.body, copy, "the peer recovers another message");
    S.assertEq(body, copy, "the caller's message was modified");
    t.session.disconnect(); await S.settle();
  } });
  cs.push({ name: "acknowledging", bounds: "one message of 4, 16 or 72 bytes together with 1 to 3 acknowledgements, every content, key and salt, acknowledged identifiers of several sizes", weight: 2, run: async (S) => {
    S.fixedRandom();
    const authKey = S.bytes("authKey", 256), salt = S.big("salt", -(2n ** 63n), 2n ** 63n - 1n);
    const t = await rig(S, { authKey, salt });
    const acks = [];
    for (let k = S.choose("acks", [1, 2, 3]); k > 0; k--) { const id = S.choose("ackId", [5n, (1n << 62n) + 4097n]) + BigInt(8 * k); acks.push(id); await t.say({ msgId: id, seqno: 1, body: bytesOf(UPDATE, 4) }); }
    const n = S.choose("n", [4, 16, 72]);
    const body = new Uint8Array([...bytesOf(UPDATE, 4), ...S.bytes("body", n - 4)]);
    let told;
    await t.session.send(body, (id) => { told = id; return () => {}; });
    const [p, extra] = await t.read();
    S.assert(extra === undefined, "one message is sent as more than one packet");
    S.assert(p.salt === salt && p.session === t.session.id, "a packet carries another salt or session");
    S.assert(p.messages !== undefined && p.messages.length === 2, "a message and an acknowledgement are not sent in a container");
    const m = p.messages.find((m) => acked(m.body) === null), a = p.messages.find((m) => acked(m.body) !== null);
    S.assert(m !== undefined && a !== undefined, "the container does not hold the message and the acknowledgement");
    S.assert(m.msgId === told, "a message carries another identifier than told");
    S.assertEq(m.body, body, "the peer recovers another message");
    S.assertEq(acked(a.body), acks, "other messages are acknowledged");
    S.assert(a.body.length === 12 + 8 * acks.length, "an acknowledgement has another length");
    t.session.disconnect(); await S.settle();
  } });
  const GZ = [1024, 1028, 1100, 2048, ...(deep ? [4096] : [])];
  cs.push({ name: "compressed", bounds: `one message of ${GZ.join(", ")} bytes, every content, and a compressed size from 16 bytes to above the message's, with or without an acknowledgement`, weight: 2, run: async (S) => {
    S.fixedRandom();
    const t = await rig(S);
    const n = S.choose("n", GZ), z = S.choose("size", [16, 260, Math.floor(n * 0.9), Math.floor(n * 0.9) + 1, n + 20]);
    const gz = gzipModel(S, () => z);
    if (S.choose("ack", [false, true])) await t.say({ msgId: 5n, seqno: 1, body: bytesOf(UPDATE, 4) });
    const body = new Uint8Array([...bytesOf(UPDATE, 4), ...S.bytes("body", n - 4)]);
    let told;
    await t.session.send(body, (id) => { told = id; return () => {}; });
    const [p] = await t.read();
    const m = p.messages ? p.messages.find((m) => acked(m.body) === null) : p;
    S.assert(m.msgId === told, "a message carries another identifier than told");
    S.assertEq(content(S, gz, m.body), body, "the peer recovers another message");
    t.session.disconnect(); await S.settle();
  } });
  cs.push({ name: "large", bounds: "one message of 16380, 16384 and 20000 bytes whose middle compresses well or not, and whose whole compresses well or not", run: async (S) => {
    S.fixedRandom();
    const t = await rig(S);
    const n = S.choose("n", [16380, 16384, 20000]), mid = S.choose("middle", [16, 921, 922]), whole = S.choose("whole", [300, 19000]);
    const gz = gzipModel(S, (k) => k === 1024 ? mid : whole);
    const body = new Uint8Array(n); for (let i = 0; i < n; i++) body[i] = (i * 7 + (i >> 8)) & 255; body.set(bytesOf(UPDATE, 4));
    await t.session.send(body, () => () => {});
    const [p] = await t.read();
    S.assertEq(content(S, gz, p.body), body, "the peer recovers another message");
    t.session.disconnect(); await S.settle();
  } });
  cs.push({ name: "consecutive", bounds: "three messages sent at once, every content; a salt changed by the server in between", run: async (S) => {
    S.fixedRandom();
    const t = await rig(S);
    const bodies = [0, 1, 2].map((i) => new Uint8Array([...bytesOf(UPDATE, 4), ...S.bytes("body", 8)]));
    const ids = [];
    await Promise.all(bodies.slice(0, 2).map((b) => t.session.send(b, (id) => { ids.push(id); return () => {}; })));
    const ps = await t.read();
    S.assert(ps.length === 2, "messages are lost or repeated");
    for (let i = 0; i < 2; i++) { S.assertEq(ps[i].body, bodies[i], "the peer recovers other messages"); S.assert(ps[i].msgId === ids[i] && ps[i].seqno === 2 * i + 1 && ps[i].salt === t.salt, "a message's header is wrong"); }
    const salt = S.big("salt", -(2n ** 63n), 2n ** 63n - 1n);
    await t.say({ msgId: 5n, seqno: 1, body: S.choose("how", [B.badSalt(ids[0], 1, salt), B.newSession(ids[0], 7n, salt)]) });
    await t.session.send(bodies[2], () => () => {});
    const [q] = await t.read();
    S.assert(q.salt === salt, "the salt the server announced is not used");
    S.assertEq((q.messages ? q.messages[0] : q).body, bodies[2], "the peer recovers another message");
    t.session.disconnect(); await S.settle();
  } });
  // ---- perfect forward secrecy: the message that binds a temporary key to the permanent one
  const BIND = 0xcdd42a05, INNER = 0x75a3f765;
  // checks a packet that binds a key against the specification
  const binding = async (S, t, perm, p) => {
    const b = p.body;
    S.assert(u32(b, 0) === BIND, "something else than the binding is sent over an unbound key");
    const permId = (await hash("SHA-1", perm)).slice(12, 20), tempId = (await hash("SHA-1", t.authKey)).slice(12, 20);
    S.assertEq(b.slice(4, 12), permId, "another permanent key is bound");
    const nonce = b.slice(12, 20), expires = b.slice(20, 24);
    const n = b[24]; S.assert(n < 254 && b.length === 24 + n + 1 + (4 - (n + 1) % 4) % 4, "the encrypted binding does not fill its message");
    const m = b.slice(25, 25 + n);
    S.assert(n >= 24 && (n - 24) % 16 === 0, "the encrypted binding is not a whole number of blocks");
    S.assertEq(m.slice(0, 8), permId, "the binding is not encrypted under the permanent key");
    const key = m.slice(8, 24), A = await hash("SHA-1", key, perm.slice(0, 32)), Bh = await hash("SHA-1", perm.slice(32, 48), key, perm.slice(48, 64)), C = await hash("SHA-1", perm.slice(64, 96), key), D = await hash("SHA-1", key, perm.slice(96, 128));
    const { ige256Decrypt } = S.load("0_deps.ts");
    const plain = ige256Decrypt(m.slice(24), new Uint8Array([...A.slice(0, 8), ...Bh.slice(8, 20), ...C.slice(4, 16)]), new Uint8Array([...A.slice(8, 20), ...Bh.slice(0, 8), ...C.slice(16, 20), ...D.slice(0, 8)]));
    const length = u32(plain, 28);
    S.assert(length === 40 && plain.length - 32 - length >= 0 && plain.length - 32 - length < 16, "the binding has another length");
    S.assertEq((await hash("SHA-1", plain.slice(0, 32 + length))).slice(4, 20), key, "the binding's message key is not that of its content");
    S.assert(uint(plain, 16, 8) === p.msgId, "the binding names another message than the one it is sent in");
    S.assert(u32(plain, 24) === 0, "the binding has another sequence number");
    const inner = plain.slice(32, 32 + length);
    S.assert(u32(inner, 0) === INNER, "something else than a binding is encrypted");
    S.assertEq(inner.slice(4, 12), nonce, "the nonces differ");
    S.assertEq(inner.slice(12, 20), tempId, "another temporary key is bound");
    S.assertEq(inner.slice(20, 28), permId, "another permanent key is bound");
    S.assert(i64(inner, 28) === p.session, "the key is bound to another session");
    S.assertEq(inner.slice(36, 40), expires, "the times of expiry differ");
    return u32(expires, 0);
  };
  const TRUE = 0x997275b5;
  const pfs = async (S, { perm, temp, salt }) => {
    const { ClientPlain } = S.load("client/1_client_plain.ts");
    ClientPlain.prototype.connect = async () => {}; ClientPlain.prototype.disconnect = () => {};
    ClientPlain.prototype.createAuthKey = async (temporary) => { S.assert(temporary === true, "the permanent key is created again"); return [temp, salt]; };
    const t = await rig(S, { authKey: temp, salt, client: { isPerfectForwardSecrecyEnabled: true }, connect: false });
    await t.client.setAuthKey(perm);
    return t;
  };
  cs.push({ name: "temporary key", bounds: "every permanent and temporary key, salt, nonce and time; the clock moves on by up to two seconds whenever it is read", weight: 2, run: async (S) => {
    const perm = S.bytes("perm", 256), temp = S.bytes("temp", 256), salt = S.big("salt", -(2n ** 63n), 2n ** 63n - 1n);
    S.fixedRandom();
    const t = await pfs(S, { perm, temp, salt });
    const moves = S.choose("clock", ["stands", "moves"]);
    let ms = S.int("ms", 0, 2 ** 31 * 1000 - 10 ** 9), reads = 0; const start = ms; S.nowHook(() => { if (moves === "moves" && reads++ < 8) ms = ms + S.int("pass", 0, 2000); return ms; });
    let connected = false; const c = t.client.connect().then(() => { connected = true; });
    await S.settle();
    const [p, extra] = await t.read();
    S.assert(p !== undefined && extra === undefined, "not exactly one message is sent over an unbound key");
    S.assert(p.salt === salt, "a packet carries another salt");
    const expires = await binding(S, t, perm, p);
    S.assert(expires * 1000 > start && expires * 1000 <= start + 8 * 86400 * 1000, "the key is bound for no time or for more than a week");
    S.assert(!connected, "the client is connected before its key is bound");
    await t.say({ msgId: 5n, seqno: 1, body: B.result(p.msgId, bytesOf(TRUE, 4)) });
    S.assert(connected, "the client is not connected although its key is bound");
    await c;
    t.client.disconnect(); await S.settle();
  } });
  cs.push({ name: "temporary key, repeated", bounds: "the message that binds a key is rejected for its salt or its identifier, or lost with its session, at any time", covers: ["salt", "low", "high", "session"], run: async (S) => {
    S.fixedRandom();
    const perm = new Uint8Array(256).fill(8), temp = new Uint8Array(256).fill(9), salt = 3n;
    const t = await pfs(S, { perm, temp, salt });
    let ms = 1.7e12 + 300; S.nowHook(() => ms);
    let failed; const c = t.client.connect().catch((e) => { failed = e; });
    await S.settle();
    const [p] = await t.read();
    await binding(S, t, perm, p);
    ms = ms + S.choose("pass", [0, 5000]);
    const how = S.choose("how", ["salt", "low", "high", "session"]); S.cover(how);
    const now = Math.floor(ms / 1000), server = (BigInt(now + S.choose("offset", [0, 40])) << 32n) + 1n;
    await t.say({ msgId: server, seqno: 1, body: how === "salt" ? B.badSalt(p.msgId, p.seqno, 77n) : B.badMsg(p.msgId, p.seqno, how === "low" ? 16 : how === "high" ? 17 : 32) });
    S.assert(!failed, "the client gives up binding its key");
    const q = (await t.read()).flatMap((q) => q.messages ? q.messages.filter((m) => acked(m.body) === null).map((m) => ({ ...m, session: q.session })) : [q]);
    S.assert(q.length === 1, "the binding is not sent once more");
    await binding(S, t, perm, q[0]);
    await t.say({ msgId: server + 4n, seqno: 3, body: B.result(q[0].msgId, bytesOf(TRUE, 4)) });
    S.assert(!failed, "the client is not connected although its key is bound");
    await c;
    t.client.disconnect(); await S.settle();
  } });
  return cs;
};
