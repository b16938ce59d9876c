"use strict";
// C07 The obfuscation handshake never collides and announces the right protocol
exports.title = "The obfuscation handshake never collides and announces the right protocol";
exports.assumptions = ["AES of one block is an arbitrary function of key and block, SHA-256 an arbitrary function", "at most one random draw (thorough: two) is rejected before one is accepted; counter carries stay within three bytes (all carries: C08)"];
const RESERVED = [0x44414548, 0x54534F50, 0x20544547, 0x4954504F, 0x02010316, 0xDDDDDDDD, 0xEEEEEEEE]; // HEAD, POST, GET, OPTI, TLS, padded intermediate, intermediate
const u32 = (b, o) => b[o] + b[o + 1] * 256 + b[o + 2] * 65536 + b[o + 3] * 16777216;
async function ctr(key, counter, data) { const k = await crypto.subtle.importKey("raw", key, "AES-CTR", false, ["encrypt"]); return new Uint8Array(await crypto.subtle.encrypt({ name: "AES-CTR", counter, length: 128 }, k, data)); }
async function kdf(key, secret) { return secret ? new Uint8Array(await crypto.subtle.digest("SHA-256", new Uint8Array([...key, ...secret]))) : key; }
const reverse = (b) => { const r = new Uint8Array(b.length); for (let i = 0; i < b.length; i++) r[i] = b[b.length - 1 - i]; return r; };
async function check(S, start, tag, { dcId, secret, transport }) {
  const w = [];
  const connection = { write: async (b) => { w.push(b.slice()); } };
  const params = await start(connection);
  S.assert(w.length === 1 && w[0].length === 64, "the handshake is not one write of 64 bytes");
  const init = w[0];
  S.assert(init[0] !== 0xEF, "the handshake starts like the abridged protocol");
  const first = u32(init, 0);
  for (const r of RESERVED) S.assert(first !== r, "the handshake starts with a sequence reserved by another protocol");
  S.assert(u32(init, 4) !== 0, "the second word of the handshake is zero");
  const s16 = secret && (secret.length >= 17 ? secret.subarray(1, 17) : secret);
  // the server's side
  const key = await kdf(init.slice(8, 40), s16), iv = init.slice(40, 56);
  const plain = await ctr(key, iv, init);
  S.assertEq(plain.slice(56, 60), new Uint8Array([tag, tag, tag, tag]), "the announced framing is not the chosen one");
  if (dcId !== undefined) S.assert(plain[60] === (dcId & 255) && plain[61] === ((dcId >> 8) & 255), "the announced datacenter is not the target");
  const rev = reverse(init.slice(8, 56));
  const key2 = await kdf(rev.slice(0, 32), s16), iv2 = rev.slice(32, 48);
  // the client's next bytes continue the stream after the 64 bytes; the server's first bytes start one
  const p = S.bytes("out", 20), q = S.bytes("in", 20);
  const stream = new Uint8Array(84); stream.set(p, 64);
  const want = (await ctr(key, iv, stream)).subarray(64), want2 = await ctr(key2, iv2, q);
  if (params) {
    S.assertEq(await params.encryptionCTR.call(p), want, "the sending direction uses other keys than the server derives");
    S.assertEq(await params.decryptionCTR.call(q), want2, "the receiving direction uses other keys than the server derives");
  }
  return { w, want, want2, p, q };
}
const DCS = [undefined, 1, 2, 3, 4, 5, -1, -2, -5, 10001, 10002, 10003, -10001, -10003];
exports.cases = (tier) => {
  const cs = [], MAX = tier === "quick" ? 1 : 2;
  // the last draw allowed is any acceptable one
  const limit = (S, max) => { let n = 0; S.randomHook((u) => { if (u.length !== 56) return; n++; const b = S.bytes("draw", 56); S.assume(b[53] !== 255 && b[10] !== 255); if (n === max + 1) { S.assume(b[0] !== 0xEF && u32(b, 4) !== 0); for (const r of RESERVED) S.assume(u32(b, 0) !== r); } S.assume(n <= max + 1); return b; }); };
  for (const [name, protocol, tag] of [["abridged", 0xEFEFEFEF, 0xEF], ["intermediate", 0xEEEEEEEE, 0xEE], ["padded", 0xDDDDDDDD, 0xDD]]) {
    cs.push({ name, bounds: `the ${name} framing, every random draw (up to one rejected), every datacenter`, covers: ["redraw"], run: async (S) => {
      const { getObfuscationParameters } = S.load("transport/0_obfuscation.ts");
      limit(S, MAX);
      const dcId = S.choose("dc", DCS);
      const r = await check(S, (c) => getObfuscationParameters(protocol, c, dcId === undefined ? undefined : { dcId }), tag, { dcId });
      S.cover("redraw"); S.note("w", r.w[0].slice(0, 56));
    } });
    cs.push({ name: name + "-secret", bounds: `the ${name} framing with a secret of 16, 17 or 25 bytes, every content`, run: async (S) => {
      const { getObfuscationParameters } = S.load("transport/0_obfuscation.ts");
      limit(S, MAX);
      const n = S.choose("n", [16, 17, 25]), dcId = S.choose("dc", [2, -4, 10002]);
      const secret = S.bytes("secret", n);
      await check(S, (c) => getObfuscationParameters(protocol, c, { dcId, secret }), tag, { dcId, secret });
    } });
  }
  cs.push({ name: "transports", bounds: "the handshake of each transport class, with every framing, secret and datacenter, followed by a packet in each direction", run: async (S) => {
    const { TransportAbridged } = S.load("transport/1_transport_abridged.ts"), { TransportIntermediate } = S.load("transport/1_transport_intermediate.ts");
    limit(S, 0);
    const kind = S.choose("kind", ["abridged", "intermediate", "padded"]);
    const dcId = kind === "abridged" ? undefined : S.choose("dc", [2, -3]), secret = kind === "padded" ? S.choose("s", [undefined, S.bytes("secret", 16), S.bytes("secret17", 17)]) : undefined;
    let t, incoming;
    const out = [];
    const r = await check(S, async (c) => {
      const conn = { write: (b) => { out.push(b.slice()); return c.write(b); }, read: async (b) => { b.set(incoming.subarray(0, b.length)); incoming = incoming.subarray(b.length); } };
      t = kind === "abridged" ? new TransportAbridged(conn, true) : new TransportIntermediate(conn, { isObfuscated: true, isPadded: kind === "padded", dcId, secret });
      await t.initialize();
    }, { abridged: 0xEF, intermediate: 0xEE, padded: 0xDD }[kind], { dcId, secret });
    const init = out[0];
    const s16 = secret && (secret.length >= 17 ? secret.subarray(1, 17) : secret);
    const packet = S.bytes("packet", 8);
    S.randomHook((u) => u.length === 4 ? new Uint8Array(4) : undefined);
    await t.send(packet);
    const body = kind === "abridged" ? new Uint8Array([2, ...packet]) : new Uint8Array([8, 0, 0, 0, ...packet]);
    const stream = new Uint8Array(64 + body.length); stream.set(body, 64);
    S.assertEq(out[1], (await ctr(await kdf(init.slice(8, 40), s16), init.slice(40, 56), stream)).subarray(64), "the first packet is not encrypted as the server expects");
    const rev = reverse(init.slice(8, 56));
    incoming = await ctr(await kdf(rev.slice(0, 32), s16), rev.slice(32, 48), body);
    S.assertEq(await t.receive(), packet, "the first received packet is not decrypted as the server sent it");
  } });
  return cs;
};
