"use strict";
// C06 Transport framing delivers every packet intact, in order, under any chunking
exports.title = "Transport framing delivers every packet intact, in order, under any chunking";
exports.assumptions = ["packets are multiples of four bytes, at least four bytes long and shorter than 2^24 bytes", "AES of one block is an arbitrary function; counter carries stay within three bytes (all carries: C08)"];
const u32 = (b, o) => b[o] + b[o + 1] * 256 + b[o + 2] * 65536 + b[o + 3] * 16777216;
async function ctr(key, counter, data) { const k = await crypto.subtle.importKey("raw", key, "AES-CTR", false, ["encrypt"]); return new Uint8Array(await crypto.subtle.encrypt({ name: "AES-CTR", counter, length: 128 }, k, data)); }
const reverse = (b) => { const r = new Uint8Array(b.length); for (let i = 0; i < b.length; i++) r[i] = b[b.length - 1 - i]; return r; };
// a connection whose reads are filled from `incoming`, waiting while it is too short
function pipe() {
  const c = { out: [], incoming: [], waiting: [], isConnected: true };
  c.write = async (b) => { c.out.push(b.slice()); };
  c.feed = (bytes) => { for (const b of bytes) c.incoming.push(b); c.serve(); };
  c.serve = () => { while (c.waiting.length && c.incoming.length >= c.waiting[0].p.length) { const w = c.waiting.shift(); const b = c.incoming.splice(0, w.p.length); for (let i = 0; i < b.length; i++) w.p[i] = b[i]; w.resolve(); } };
  c.read = (p) => new Promise((resolve) => { c.waiting.push({ p, resolve }); c.serve(); });
  c.bytes = () => { const r = []; for (const b of c.out) r.push(...b); return r; };
  return c;
}
function make(S, kind, c, obfuscated) {
  const { TransportAbridged } = S.load("transport/1_transport_abridged.ts"), { TransportIntermediate } = S.load("transport/1_transport_intermediate.ts");
  return kind === "abridged" ? new TransportAbridged(c, obfuscated) : new TransportIntermediate(c, { isObfuscated: obfuscated, isPadded: kind === "padded", dcId: obfuscated ? 2 : undefined });
}
const header = (kind, n) => kind === "abridged" ? n / 4 < 127 ? [n / 4] : [127, n / 4 & 255, n / 4 >> 8 & 255, n / 4 >> 16 & 255] : [n & 255, n >> 8 & 255, n >> 16 & 255, 0];
const TAG = { abridged: [0xEF], intermediate: [0xEE, 0xEE, 0xEE, 0xEE], padded: [0xDD, 0xDD, 0xDD, 0xDD] };
// reads the packets a peer would take from a byte stream
function parse(S, kind, bytes) {
  const packets = [];
  let i = 0;
  while (i < bytes.length) {
    let n;
    if (kind === "abridged") { n = bytes[i++]; S.assert(n <= 127, "a length byte is out of range"); if (n === 127) { n = bytes[i] + bytes[i + 1] * 256 + bytes[i + 2] * 65536; i += 3; S.assert(n >= 127, "a short packet uses the long form"); } n *= 4; } else { n = u32(bytes, i); i += 4; }
    S.assert(i + n <= bytes.length, "a packet is cut off");
    packets.push(bytes.slice(i, i + n)); i += n;
  }
  return packets;
}
function draw(S) { S.randomHook((u) => { if (u.length === 56) { const b = S.bytes("draw", 56); S.assume(b[53] !== 255 && b[10] !== 255 && b[0] !== 0xEF && b[0] !== 0x44 && b[0] !== 0x54 && b[0] !== 0x20 && b[0] !== 0x49 && b[0] !== 0x02 && b[0] !== 0xDD && b[0] !== 0xEE && u32(b, 4) !== 0 && b[0] !== 0x48 && b[0] !== 0x50 && b[0] !== 0x47 && b[0] !== 0x4f && b[0] !== 0x16); return b; } }); }
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const SIZES = [4, 8, 12, 100, 500, 504, 508, 512, 516, 1016, 1020, 1024, 1028];
  for (const kind of ["abridged", "intermediate", "padded"]) {
    cs.push({ name: kind + "-send", bounds: `two packets of ${SIZES.join(", ")} and 4, 40, 508 bytes, every content`, run: async (S) => {
      const c = pipe(), t = make(S, kind, c, false);
      await t.initialize();
      S.assertEq(c.bytes(), TAG[kind], "the protocol is not announced");
      c.out.length = 0;
      if (kind === "padded") { const pads = [S.choose("pad", [[0, 0, 0, 0], [1, 0, 0, 0], [15, 0, 0, 0], [255, 255, 255, 255], [7, 1, 2, 200]]), [3, 0, 0, 128]]; S.randomHook((u) => u.length === 4 ? new Uint8Array(pads.shift() ?? [0, 0, 0, 0]) : undefined); }
      const packets = [S.bytes("a", S.choose("n", SIZES)), S.bytes("b", S.choose("m", [4, 40, 508]))], copies = packets.map((p) => p.slice());
      for (const p of packets) await t.send(p);
      const got = parse(S, kind, c.bytes());
      S.assert(got.length === 2, "the stream does not hold the two packets");
      for (let i = 0; i < 2; i++) {
        if (kind === "padded") S.assert(got[i].length >= packets[i].length && got[i].length <= packets[i].length + 15, "the padding is longer than fifteen bytes");
        else S.assert(got[i].length === packets[i].length, "a packet has another length");
        S.assertEq(got[i].slice(0, copies[i].length), [...copies[i]], "a packet is altered");
        S.assertEq(packets[i], copies[i], "the caller's packet was modified");
      }
      if (kind === "padded") S.cover("padded"); else S.note("out", c.bytes().slice(0, 8));
    } });
    cs.push({ name: kind + "-receive", bounds: `three packets of ${SIZES.join(", ")}; 4 or 508; and 12 bytes, every content, arriving whole, bytewise at the headers, or in one piece`, run: async (S) => {
      const c = pipe(), t = make(S, kind, c, false);
      await t.initialize();
      const packets = [S.bytes("a", S.choose("n", SIZES)), S.bytes("b", S.choose("m", [4, 508])), S.bytes("c", 12)];
      const stream = [];
      for (const p of packets) stream.push(...header(kind, p.length), ...p);
      const how = S.choose("how", ["whole", "headers", "one", "late"]);
      const cuts = how === "whole" ? [stream.length] : how === "headers" ? [1, 2, 3, 4, 5, 6, 7, 8, 9, stream.length] : how === "one" ? [stream.length - 1, stream.length] : [packets[0].length, packets[0].length + 7, stream.length];
      let at = 0;
      const feed = async () => { for (const x of cuts) { if (x > at) { c.feed(stream.slice(at, x)); at = x; await S.settle(); } } };
      const fed = feed();
      for (const p of packets) S.assertEq(await t.receive(), p, "a received packet differs");
      await fed;
      S.assert(c.incoming.length === 0, "bytes are left over");
    } });
    cs.push({ name: kind + "-write", bounds: "a packet of 4, 508 or 1024 bytes, with and without obfuscation, whose write takes a while, then succeeds or fails", run: async (S) => {
      S.randomHook((u) => new Uint8Array(u.length).fill(3));
      const c = pipe(), t = make(S, kind, c, S.choose("obfuscated", [false, true]));
      await t.initialize();
      let done, fail, state = "open", error;
      c.write = () => new Promise((a, b) => { done = a; fail = b; });
      const p = t.send(new Uint8Array(S.choose("n", [4, 508, 1024])).fill(5)).then(() => { state = "sent"; }, (e) => { state = "failed"; error = e; });
      await S.settle();
      S.assert(state === "open" && done !== undefined, "a packet counts as sent before it is written");
      const good = S.choose("good", [true, false]), err = new Error("write failed");
      if (good) done(); else fail(err);
      await S.settle();
      await p;
      S.assert(good ? state === "sent" : state === "failed" && error === err, "a packet that is not written counts as sent");
    } });
    cs.push({ name: kind + "-any-length", bounds: `one packet of every length up to 2^24-4 bytes, every content`, run: async (S) => {
      const c = pipe(), t = make(S, kind, c, false);
      if (kind === "padded") S.randomHook((u) => u.length === 4 ? new Uint8Array([3, 0, 0, 0]) : undefined);
      const words = S.int("words", 1, deep ? 2 ** 22 - 1 : 2 ** 22 - 1);
      const all = S.blob("p", 2 ** 24, 2 ** 24), p = all.subarray(0, words * 4);
      c.write = async (b) => { c.out.push(b); };
      await t.send(p);
      S.assert(c.out.length === 1, "a packet is not written at once");
      const b = c.out[0], pad = kind === "padded" ? 3 : 0;
      const h = kind === "abridged" ? words < 127 ? 1 : 4 : 4;
      S.assert(b.length === h + words * 4 + pad, "the written length is wrong");
      if (kind === "abridged") { if (h === 1) S.assert(b[0] === words, "the length byte is wrong"); else S.assert(b[0] === 127 && b[1] + b[2] * 256 + b[3] * 65536 === words, "the long length is wrong"); } else S.assert(u32(b, 0) === words * 4 + pad, "the length is wrong");
      const i = S.int("i", 0, 2 ** 24);
      if (i < words * 4) S.assert(b[h + i] === p[i], "the content is altered");
    } });
    cs.push({ name: kind + "-receive-any-length", bounds: "a packet of every length up to 2^24-4 bytes, every content", run: async (S) => {
      const words = S.int("words", 1, 2 ** 22 - 1);
      const all = S.blob("p", 2 ** 24, 2 ** 24);
      let k = 0, asked = 0;
      const c = { isConnected: true, write: async () => {}, read: async (p) => {
        k++;
        if (kind === "abridged") { if (k === 1) { p[0] = words < 127 ? words : 127; S.assert(p.length === 1, "the header is not read as one byte"); return; } if (words >= 127 && k === 2) { S.assert(p.length === 3, "the long header is not read as three bytes"); p[0] = words & 255; p[1] = words >> 8 & 255; p[2] = words >> 16; return; } } else if (k === 1) { S.assert(p.length === 4, "the header is not read as four bytes"); p[0] = words * 4 & 255; p[1] = words * 4 >> 8 & 255; p[2] = words * 4 >> 16 & 255; p[3] = 0; return; }
        asked++;
        S.assert(p.length === words * 4, "another number of bytes than announced is read");
        p.set(all.subarray(0, words * 4));
      } };
      const t = make(S, kind, c, false);
      const r = await t.receive();
      S.assert(asked === 1, "the content is not read once");
      S.assert(r.length === words * 4, "the packet has another length");
      const i = S.int("i", 0, 2 ** 24);
      if (i < words * 4) S.assert(r[i] === all[i], "the content is altered");
    } });
    cs.push({ name: kind + "-obfuscated", bounds: "two packets each way of 4, 20, 500 or 508 bytes through the obfuscated stream, every content and key, the received stream arriving in pieces", weight: 3, run: async (S) => {
      draw(S);
      const c = pipe(), t = make(S, kind, c, true);
      await t.initialize();
      const init = c.out[0];
      const key = init.slice(8, 40), iv = init.slice(40, 56), rev = reverse(init.slice(8, 56)), key2 = rev.slice(0, 32), iv2 = rev.slice(32, 48);
      const n = S.choose("n", [4, 20, 500, 508]);
      const packets = [S.bytes("a", n), S.bytes("b", 20)];
      if (kind === "padded") { const pads = [S.choose("pad", [0, 5, 15]), 1]; S.randomHook((u) => u.length === 4 ? new Uint8Array([pads.shift() ?? 0, 0, 0, 0]) : undefined); }
      for (const p of packets) await t.send(p);
      const sent = await ctr(key, iv, new Uint8Array(c.bytes()));
      const got = parse(S, kind, [...sent.subarray(64)]);
      S.assert(got.length === 2, "the obfuscated stream does not hold the two packets");
      for (let i = 0; i < 2; i++) S.assertEq(got[i].slice(0, packets[i].length), [...packets[i]], "a packet is altered by the obfuscation");
      const back = [S.bytes("c", n), S.bytes("d", 8)];
      const stream = [];
      for (const p of back) stream.push(...header(kind, p.length), ...p);
      const enc = [...await ctr(key2, iv2, new Uint8Array(stream))];
      const cut = S.choose("cut", [1, 3, 6, 30]);
      const fed = (async () => { for (let i = 0; i < enc.length; i = i ? enc.length : cut) { c.feed(enc.slice(i, i ? enc.length : cut)); await S.settle(); } })();
      for (const p of back) S.assertEq(await t.receive(), p, "a received packet is altered by the obfuscation");
      await fed;
    } });
    cs.push({ name: kind + "-interleaved", bounds: "two packets sent without waiting while two are received; the writes complete in order, every content", run: async (S) => {
      const obf = S.choose("obfuscated", [false, true]);
      if (obf) draw(S);
      const c = pipe(), t = make(S, kind, c, obf);
      await t.initialize();
      const init = c.out[0];
      const a = S.bytes("a", 8), b = S.bytes("b", 16);
      if (kind === "padded") S.randomHook((u) => u.length === 4 ? new Uint8Array(4) : undefined);
      await Promise.all([t.send(a), t.send(b)]);
      let bytes = c.bytes();
      if (obf) bytes = [...(await ctr(init.slice(8, 40), init.slice(40, 56), new Uint8Array(bytes))).subarray(64)]; else bytes = bytes.slice(TAG[kind].length);
      const got = parse(S, kind, bytes);
      S.assertEq(got, [[...a], [...b]], "packets sent at once are mixed up");
    } });
  }
  cs.push({ name: "transport-error", bounds: "every four-byte error, over every framing, in a plain and in an encrypted session", run: async (S) => {
    const { SessionPlain } = S.load("session/2_session_plain.ts"), { SessionEncrypted } = S.load("session/2_session_encrypted.ts"), { TransportError } = S.load("0_errors.ts");
    const kind = S.choose("kind", ["abridged", "intermediate", "padded"]);
    const code = S.int("code", -(2 ** 31), 2 ** 31 - 1);
    const c = pipe();
    c.open = () => {}; c.close = () => { c.isConnected = false; };
    const transportProvider = () => ({ connection: c, transport: make(S, kind, c, false), dcId: 2 });
    const v = BigInt.asUintN(32, BigInt(code));
    const bytes = [...header(kind, 4), Number(v & 255n), Number((v >> 8n) & 255n), Number((v >> 16n) & 255n), Number((v >> 24n) & 255n)];
    if (S.choose("session", ["plain", "encrypted"]) === "plain") {
      const s = new SessionPlain("2", { transportProvider });
      c.feed(bytes);
      const r = await S.outcome(() => s.receive());
      S.assert(!r.ok && r.error instanceof TransportError, "a transport error is not reported as one");
      S.assertEq(r.error.code, code, "the transport error carries another code");
    } else {
      S.fixedRandom();
      c.isConnected = false; c.open = () => { c.isConnected = true; };
      const s = new SessionEncrypted("2", { transportProvider });
      await s.setAuthKey(new Uint8Array(256).fill(7));
      const seen = [];
      s.handlers = { onTransportError: (e) => { seen.push(e); } };
      await s.connect();
      c.feed(bytes);
      await S.settle();
      S.assert(seen.length === 1 && seen[0] instanceof TransportError, "a transport error is not reported once");
      S.assertEq(seen[0].code, code, "the transport error carries another code");
      s.disconnect();
      await S.settle();
    }
  } });
  return cs;
};
