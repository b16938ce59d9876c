"use strict";
// C32 Secret-chat messages are authentic and recover exactly
const X = require("./lib/secret.js");
const { OWN, OTHER, CHAT } = X;
exports.title = "Secret-chat messages are authentic and recover exactly";
exports.assumptions = ["AES-IGE is an arbitrary permutation per key and vector, SHA-1 and SHA-256 are arbitrary functions", "modular exponentiation of symbolic numbers is an uninterpreted function with results below the modulus in which the two orders of raising to two powers agree (the function itself: C34)"];
const pair = async (S, o = {}) => {
  const a = X.end(S, OWN, o), b = X.end(S, OTHER, o);
  const creator = S.choose("creator", [OWN, OTHER]);
  await a.begin({ creator, ...o }); await b.begin({ creator, ...o });
  return { a, b };
};
const xor = (a, d) => { const r = a.slice(); for (let i = 0; i < r.length; i++) r[i] ^= d[i]; return r; };
const zero = (S, d) => S.eq(d, new Uint8Array(d.length));
const flatten = (S, n, i) => { const r = new Uint8Array(n), b = S.bytes("key" + i, 6); for (let j = 0; j < n; j++) r[j] = j * 3 + i; [0, 1, 10, 16, 30, 31].forEach((at, j) => { r[at] = b[j]; }); return r; };
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  cs.push({ name: "texts", bounds: `texts of 1..${deep ? 40 : 17} printable characters, every identifier, lifetime, reply, silence and bot, both roles, every key`, covers: ["received"], run: async (S) => {
    const key = S.bytes("key", 256), { a, b } = await pair(S, { key });
    const text = S.str("text", S.choose("n", deep ? [1, 2, 5, 13, 16, 17, 29, 40] : [1, 5, 17]), 33, 126), ttl = S.int("ttl", 0, 2 ** 31 - 1), silent = S.choose("silent", [false, true]), reply = S.choose("reply", [undefined, "12345678901234567"]), viaBot = S.choose("bot", [undefined, "gif"]);
    let rid = null;
    S.randomHook((u) => { if (u.length === 8) { S.assert(rid === null, "more than one identifier is drawn"); rid = S.bytes("random_id", 8); return rid; } return S.bytes("random" + u.length, u.length); });
    await a.manager.sendSecretMessage(CHAT, text, { ttl, isSilent: silent, replyToMessageId: reply, viaBot });
    S.assert(a.sent.length === 1 && a.sent[0]._ === "messages.sendEncrypted", "a message is not sent once");
    const f = a.sent[0], { layer } = await X.open(S, key, f.data, a.out), m = layer.message;
    let id = 0n; for (let i = 7; i >= 0; i--) id = id << 8n | BigInt(rid[i]); id = BigInt.asIntN(64, id);
    S.assert(f.peer.chat_id === CHAT && f.peer.access_hash === X.HASH, "a message is sent to another chat"); S.assert(f.random_id === id && m.random_id === id, "the identifier of a message is not that of its content");
    S.assert(!!f.silent === silent && !!m.silent === silent, "the silence of a message is lost");
    S.assert(layer.layer === 144 && layer.out_seq_no === a.x && layer.in_seq_no === 1 - a.x, "a first message has other sequence numbers");
    S.assertEq(m.message, text, "another text is encrypted"); S.assert(m.ttl === ttl && m.via_bot_name === viaBot && (reply ? m.reply_to_random_id === BigInt(reply) : m.reply_to_random_id === undefined), "a message loses its lifetime, reply or bot");
    const r = await b.receive(f.data);
    S.assert(r.ok && b.updates.length === 1 && b.updates[0].type === "secretMessage", "a genuine message is not received once");
    const want = { type: "text", chatId: CHAT, id: String(id), isSilent: silent, ttl, text, entities: [] };
    if (reply) want.replyToMessageId = reply; if (viaBot) want.viaBot = viaBot;
    S.assertEq(b.updates[0].secretMessage, want, "a message is received differently"); S.assert(b.discarded === 0 && b.sent.length === 0, "a genuine message is answered"); S.cover("received");
  } });
  for (const n of [48, 112, ...(deep ? [64, 1088, 1104] : [1088])]) {
    cs.push({ name: "arbitrary-" + n, bounds: `messages of 24+${n} bytes with every key identifier, message key and text, 17 declared lengths, every key of the chat, both roles; then a genuine message`, covers: n === 48 ? [] : ["received"], weight: n > 200 ? 2 : 1, run: async (S) => {
      S.fixedRandom();
      const key = S.bytes("key", 256), b = X.end(S, OWN), creator = S.choose("creator", [OWN, OTHER]);
      await b.begin({ creator, key, inSeqNo: 3, outSeqNo: 5, remoteInSeqNo: 2 });
      const before = await b.state();
      const text = n === 48 ? "" : S.str("text", 21, 33, 126), body = n === 48 ? new Uint8Array(36) : X.layerOf(S)({ in_seq_no: 4 + b.x, out_seq_no: 6 + 1 - b.x, message: X.text(text, 77n) });
      const full = n - 4, LENGTHS = [body.length, full - 12, full - 8, full - 13, full - 11, full, full + 1, full + 4, full - 1024, full - 1025, full - 1028, 0, -1, -4, 2 ** 31 - 1, -(2 ** 31), body.length - 1].filter((v, i, l) => l.indexOf(v) === i && v >= -(2 ** 31));
      const length = S.choose("length", LENGTHS), rest = S.bytes("rest", full - body.length);
      const plain = X.flat([length & 255, length >> 8 & 255, length >> 16 & 255, length >> 24 & 255], body, rest);
      const d1 = S.bytes("keyDifference", 16), d2 = S.bytes("idDifference", 8);
      const packet = await X.seal(S, key, plain, b.in, { messageKey: xor(await X.messageKeyOf(key, plain, b.in), d1), keyId: xor((await X.hash("SHA-1", key)).slice(12, 20), d2) });
      const r = await b.receive(packet), fits = length >= 0 && length <= full - 12 && length >= full - 1024;
      S.assert(b.discarded === 0, "a message that is not genuine ends the chat");
      if (b.updates.length) {
        S.assert(zero(S, d2), "a message for another key is received"); S.assert(zero(S, d1), "a message whose key does not match its content is received"); S.assert(fits, "a message with an impossible length or padding is received");
        S.assert(b.updates.length === 1 && b.texts.length === 1, "a message is received more than once"); S.assertEq(b.texts[0], text, "another text is received"); S.cover("received");
      } else {
        S.assert(!(zero(S, d1) && zero(S, d2) && length === body.length && fits), "a genuine message is not received");
        const after = await b.state();
        S.assert(after.inSeqNo === 3 && after.remoteInSeqNo === 2 && after.pendingMessages.length === 0, "a message that is not received counts"); S.assert(b.sent.length === 0, "a message that is not received is answered");
        b.texts.length = 0;
        S.assert((await b.receive(await b.says(X.text("next", 5n), 3, 2))).ok, "a genuine message is refused after one that is not"); S.assertEq(b.texts, ["next"], "a genuine message is not received after one that is not");
      }
    } });
  }
  cs.push({ name: "sizes", bounds: "messages of 0..71 bytes that are no whole number of blocks or have none, under the current, the previous and no key", run: async (S) => {
    const b = X.end(S, OWN), n = S.choose("n", [0, 1, 7, 8, 9, 16, 23, 24, 25, 32, 39, 41, 47, 55, 57, 71]);
    await b.begin({});
    const id = S.choose("key", ["current", "any", "none"]), bytes = S.bytes("bytes", n);
    if (id === "current") { const k = (await X.hash("SHA-1", X.KEY)).slice(12, 20); for (let i = 0; i < 8 && i < n; i++) bytes[i] = k[i]; }
    if (id === "none") bytes.fill(0);
    const r = await b.receive(bytes);
    S.assert(b.updates.length === 0 && b.sent.length === 0 && b.discarded === 0, "something too short for a message has an effect");
    S.assert((await b.receive(await b.says(X.text("next", 5n), 0))).ok, "a genuine message is refused after a malformed one"); S.assertEq(b.texts, ["next"], "a genuine message is not received after a malformed one");
  } });
  cs.push({ name: "reflection", bounds: "the receiver's own first to third message come back, both roles, a key without equal parts, messages that are not by accident messages of the other end", run: async (S) => {
    let k = 1; S.randomHook((u) => { const r = new Uint8Array(u.length); for (let i = 0; i < r.length; i++) r[i] = (k = k * 75 % 65537) & 255; return r; });
    const b = X.end(S, OWN), creator = S.choose("creator", [OWN, OTHER]), n = S.choose("n", [1, 2, 3]);
    await b.begin({ creator });
    for (let i = 0; i < n; i++) await b.manager.sendSecretMessage(CHAT, "own " + i);
    const own = b.sent.slice();
    const { ige256Decrypt } = S.load("0_deps.ts");
    for (const f of own) { // not by accident a message of the other end
      const mk = f.data.slice(8, 24), [k, iv] = await X.keys(X.KEY, mk, b.in), plain = ige256Decrypt(f.data.slice(24), k, iv);
      S.assume(!S.eq(await X.messageKeyOf(X.KEY, plain, b.in), mk));
    }
    for (const f of own) { await b.receive(f.data); S.assert(b.updates.length === 0, "the receiver's own message is received"); }
    S.assert(b.discarded === 0, "a reflected message ends the chat");
    S.assert((await b.receive(await b.says(X.text("next", 5n), 0))).ok, "a genuine message is refused after a reflected one"); S.assertEq(b.texts, ["next"], "a genuine message is not received after a reflected one");
  } });
  // ---- the other kinds of content
  const content = (name, bounds, run) => cs.push({ name, bounds, covers: ["received"], run: async (S) => {
    S.quiet();
    let drawn = 0; S.randomHook((u) => u.length === 32 ? flatten(S, u.length, drawn++) : new Uint8Array(u.length).fill(++drawn));
    const seen = [], upload = async (...a) => { seen.push(a); return { inputEncryptedFile: { _: "inputEncryptedFileUploaded", id: 5n, parts: 1, md5_checksum: "", key_fingerprint: 6 }, fileSize: size }; };
    const { a, b } = await pair(S, { upload }), size = S.choose("size", [0, 123456789]), file = { _: "encryptedFile", id: 0x1122334455667788n, access_hash: -2n, size: 33n, dc_id: 4, key_fingerprint: 0 };
    const x = await run(S, a.manager, size);
    S.assert(a.sent.length === 1, "a message is not sent once");
    const f = a.sent[0];
    if (x.media) {
      S.assert(f._ === "messages.sendEncryptedFile" && f.file.id === 5n && seen.length === 1 && seen[0][0] === x.source, "a file is sent without itself");
      S.assert((await b.receive(f.data, { _: "encryptedMessage", file })).ok, "a genuine message is refused");
    } else { S.assert(f._ === "messages.sendEncrypted", "a message without a file is sent with one"); S.assert((await b.receive(f.data)).ok, "a genuine message is refused"); }
    S.assert(b.updates.length === 1, "a genuine message is not received once");
    const m = b.updates[0].secretMessage, { layer } = await X.open(S, X.KEY, f.data, a.out);
    S.assert(m.chatId === CHAT && m.id === String(layer.message.random_id) && m.id === String(f.random_id), "a message is received under another identifier");
    if (x.media) {
      const { key, iv } = seen[0][4], hex = (u) => [...u].map((v) => "0123456789abcdef"[v >> 4] + "0123456789abcdef"[v & 15]).join("");
      S.assert(key.length === 32 && iv.length === 32, "a file's key has another size");
      const want = "0" + hex(key) + hex(iv) + size;
      S.assertEq(m.fileInformation, want, "the recipient cannot decrypt the file");
      const { deserializeFileId, FileType } = S.load("types/_file_id.ts"), id = deserializeFileId(m[m.type].fileId);
      S.assert(id.type === FileType.Encrypted && id.dcId === 4 && id.location.id === file.id && id.location.accessHash === file.access_hash, "the recipient gets another file");
      S.assert(m[m.type].fileSize === size, "the recipient gets another size");
    }
    x.check(m); S.cover("received");
  } });
  const int = (S, n) => S.int(n, 0, 2 ** 31 - 1);
  content("location", "every location", async (S, m) => { const lat = S.f64("latitude"), long = S.f64("longitude"); await m.sendSecretLocation(CHAT, lat, long); return { check: (r) => { S.assert(r.type === "location", "a location is received as something else"); S.assertEq(r.location, { latitude: lat, longitude: long }, "another location is received"); } }; });
  content("venue", "every location, a title and an address of 3 characters", async (S, m) => { const lat = S.f64("latitude"), long = S.f64("longitude"), title = S.str("title", 3, 32, 126), address = S.str("address", 3, 32, 126); await m.sendSecretVenue(CHAT, lat, long, title, address); return { check: (r) => { S.assert(r.type === "venue", "a venue is received as something else"); S.assertEq(r.venue, { title, address, location: { latitude: lat, longitude: long } }, "another venue is received"); } }; });
  content("contact", "names of 3 characters and numbers of 5", async (S, m) => { const firstName = S.str("first", 3, 32, 126), phone = S.str("phone", 5, 48, 57), lastName = S.choose("last", [undefined, "Last"]); await m.sendSecretContact(CHAT, firstName, phone, { lastName }); return { check: (r) => { S.assert(r.type === "contact", "a contact is received as something else"); S.assert(r.contact.firstName === firstName && r.contact.phoneNumber === phone && r.contact.lastName === lastName, "another contact is received"); } }; });
  const FILES = [["Document", "document", (S) => ({ mimeType: "a/b" })], ["Video", "video", (S) => ({ width: int(S, "w"), height: int(S, "h"), duration: int(S, "d"), mimeType: "v/m" })], ["VideoNote", "videoNote", (S) => ({ duration: int(S, "d"), length: int(S, "l") })], ["Audio", "audio", (S) => ({ duration: int(S, "d"), title: "t", performer: "p", mimeType: "a/m" })], ["Voice", "voice", (S) => ({ duration: int(S, "d"), mimeType: "a/o" })], ["Animation", "animation", (S) => ({ width: int(S, "w"), height: int(S, "h"), duration: int(S, "d") })], ["Photo", "photo", (S) => ({ width: int(S, "w"), height: int(S, "h") })]];
  for (const [kind, type, make] of FILES) content(type, "six bytes of the key and vector, every measure, two sizes; with and without a caption and file name", async (S, m, size) => {
    const params = make(S), source = new Uint8Array([1]), caption = S.choose("caption", [undefined, "cap"]), fileName = type === "photo" ? undefined : S.choose("name", [undefined, "f.bin"]);
    await m["sendSecret" + kind](CHAT, source, { ...params, caption, fileName });
    return { media: true, source, check: (r) => {
      S.assert(r.type === type, "a file is received as something else"); S.assert(r.caption === (caption ?? ""), "a caption is lost");
      for (const k in params) S.assert(r[type][k] === params[k], "a measure of a file is lost: " + k);
      if (fileName && type !== "audio" && type !== "voice") S.assert(r[type].fileName === fileName, "a file's name is lost");
    } };
  });
  cs.push({ name: "formats", bounds: "two formats of 7 kinds with every place inside a text of 10 characters", covers: ["received"], run: async (S) => {
    S.fixedRandom();
    const { a, b } = await pair(S), KINDS = ["bold", "italic", "code", "underline", "strikethrough", "spoiler", "blockquote"], n = S.choose("n", [1, 2]), entities = [];
    for (let i = 0; i < n; i++) { const offset = S.int("offset", 0, 9), length = S.int("length", 1, 10); S.assume(offset + length <= 10); entities.push({ type: S.choose("kind" + i, KINDS), offset, length }); }
    const want = entities.map((e) => ({ ...e }));
    await a.manager.sendSecretMessage(CHAT, "0123456789", { entities });
    S.assert((await b.receive(a.sent[0].data)).ok && b.updates.length === 1, "a genuine message is refused");
    S.assertEq(b.updates[0].secretMessage.entities.map((e) => ({ type: e.type, offset: e.offset, length: e.length })), want, "formats are received differently"); S.cover("received");
  } });
  // ---- the key exchange
  const good = (v) => v >= 1n << 1984n && v <= X.PRIME - (1n << 1984n), bad = (v) => v < 1n << 1983n || v > X.PRIME - (1n << 1983n);
  const num = (b) => { let v = 0n; for (let i = 0; i < b.length; i++) v = (v << 8n) | BigInt(b[i]); return v; };
  const print = async (key) => { const id = (await X.hash("SHA-1", key)).slice(12, 20); let n = 0n; for (let i = 7; i >= 0; i--) n = n << 8n | BigInt(id[i]); return BigInt.asIntN(64, n); };
  cs.push({ name: "exchange", bounds: "every exponent of both ends with a usable power, every fingerprint in the answer; a text each way afterwards", covers: ["active", "ended"], weight: 2, run: async (S) => {
    S.abstractModExp(true);
    const big = (name) => { const h = [...S.bytes(name, 128)], r = []; for (let i = 0; i < 128; i++) { r[i] = h[i]; r[255 - i] = h[i]; } return new Uint8Array(r); };
    let draws = [], n = 0; S.randomHook((u) => { if (u.length === 256) { S.assume(draws.length > 0); return draws.shift(); } return new Uint8Array(u.length).fill(++n); });
    const ea = big("a"), eb = big("b"), ga = S.modExp(3n, num(ea), X.PRIME), gb = S.modExp(3n, num(eb), X.PRIME), secret = S.modExp(ga, num(eb), X.PRIME); S.assume(good(ga)); S.assume(good(gb));
    const key = new Uint8Array(X.be(secret, 256)), fp = await print(key), seen = [];
    const a = X.end(S, OWN, { answer: (f) => f._ === "messages.requestEncryption" ? (seen.push(f), { _: "encryptedChatWaiting", id: CHAT, access_hash: X.HASH, date: 1, admin_id: BigInt(OWN), participant_id: BigInt(OTHER) }) : null });
    const b = X.end(S, OTHER, { answer: (f) => f._ === "messages.acceptEncryption" ? (seen.push(f), X.chatOf(OWN, { g_a_or_b: seen[0].g_a.slice(), key_fingerprint: f.key_fingerprint })) : null });
    await a.start(); await b.start(); draws = [ea];
    const r1 = await a.manager.requestSecretChat(OTHER);
    S.assert(seen.length === 1, "a chat is not requested once"); S.assertEq(seen[0].g_a, new Uint8Array(X.be(ga, 256)), "another power is sent in a request");
    S.assertEq([r1.type, r1.id, r1.userId], ["pending", CHAT, OTHER], "a requested chat is not pending");
    const restart = S.choose("restart", [null, "requester", "accepter"]);
    if (restart === "requester") await a.start();
    await b.manager.handleUpdate({ _: "updateEncryption", date: 1, chat: { _: "encryptedChatRequested", id: CHAT, access_hash: X.HASH, date: 1, admin_id: BigInt(OWN), participant_id: BigInt(OTHER), g_a: seen[0].g_a.slice() } });
    if (restart === "accepter") await b.start();
    draws = [eb];
    const r2 = await b.manager.acceptSecretChat(CHAT);
    S.assert(seen.length === 2 && r2.type === "active" && r2.userId === OWN, "a chat is not accepted"); S.assertEq(seen[1].g_b, new Uint8Array(X.be(gb, 256)), "another power is sent in an answer"); S.assert(seen[1].key_fingerprint === fp && seen[1].peer.chat_id === CHAT && seen[1].peer.access_hash === X.HASH, "an answer has another fingerprint");
    const d = S.big("fingerprint", -(1n << 63n), (1n << 63n) - 1n), r3 = await S.outcome(a.manager.handleUpdate({ _: "updateEncryption", date: 1, chat: X.chatOf(OWN, { g_a_or_b: seen[1].g_b.slice(), key_fingerprint: d }) }));
    if (!(d === fp)) { S.assert(!r3.ok && a.discarded === 1, "a chat with another fingerprint is used"); S.assert(!(await S.outcome(a.manager.sendSecretMessage(CHAT, "x"))).ok && a.sent.length === 0, "an ended chat is written to"); S.cover("ended"); return; }
    S.assert(r3.ok && r3.value.secretChat.type === "active", "an accepted chat is not active"); S.assert(a.discarded === 0 && b.discarded === 0, "an accepted chat ends");
    await a.manager.sendSecretMessage(CHAT, "hello"); await b.manager.sendSecretMessage(CHAT, "there");
    const one = await X.open(S, key, a.sent[0].data, 0), two = await X.open(S, key, b.sent[0].data, 8);
    S.assert(one.layer.out_seq_no === 1 && one.layer.in_seq_no === 0 && two.layer.out_seq_no === 0 && two.layer.in_seq_no === 1, "first messages have other sequence numbers");
    S.assert((await b.receive(a.sent[0].data)).ok && (await a.receive(b.sent[0].data)).ok, "a genuine message is refused");
    S.assertEq([a.texts, b.texts], [["there"], ["hello"]], "first messages are not received"); S.cover("active");
  } });
  cs.push({ name: "bad-powers", bounds: "every g_a in a request and every g_b in an answer", covers: ["active", "ended"], run: async (S) => {
    S.abstractModExp(true);
    S.randomHook((u) => new Uint8Array(u.length).fill(77));
    const role = S.choose("role", ["requester", "accepter"]), v = S.bytes("power", 256), n = num(v), exponent = num(new Uint8Array(256).fill(77));
    const a = X.end(S, OWN, { answer: (f) => f._ === "messages.requestEncryption" ? { _: "encryptedChatWaiting", id: CHAT, access_hash: X.HASH, date: 1, admin_id: BigInt(OWN), participant_id: BigInt(OTHER) } : f._ === "messages.acceptEncryption" ? X.chatOf(OTHER, { g_a_or_b: v.slice(), key_fingerprint: f.key_fingerprint }) : null });
    await a.start();
    let r;
    if (role === "requester") {
      await a.manager.requestSecretChat(OTHER);
      const fp = await print(new Uint8Array(X.be(S.modExp(n, exponent, X.PRIME), 256)));
      r = await S.outcome(a.manager.handleUpdate({ _: "updateEncryption", date: 1, chat: X.chatOf(OWN, { g_a_or_b: v.slice(), key_fingerprint: fp }) }));
    } else {
      await a.manager.handleUpdate({ _: "updateEncryption", date: 1, chat: { _: "encryptedChatRequested", id: CHAT, access_hash: X.HASH, date: 1, admin_id: BigInt(OTHER), participant_id: BigInt(OWN), g_a: v.slice() } });
      r = await S.outcome(a.manager.acceptSecretChat(CHAT));
    }
    if (good(n)) { S.assert(r.ok && a.discarded === 0, "a good power is refused"); S.cover("active"); }
    if (bad(n)) { S.assert(!r.ok && a.discarded === 1, "a bad power is used"); S.assert(!a.requests.some((f) => f._ === "messages.acceptEncryption"), "a chat with a bad power is accepted"); S.cover("ended"); }
  } });
  cs.push({ name: "groups", bounds: "four changes of one byte at 6 positions of the prime, every 32-bit generator, both roles", covers: ["used", "refused"], run: async (S) => {
    S.abstractModExp(true);
    let n = 0; S.randomHook((u) => { if (u.length === 256) S.assume(n++ < 1); return new Uint8Array(u.length).fill(77); });
    const a = X.end(S, OWN, { answer: (f) => f._ === "messages.requestEncryption" ? { _: "encryptedChatWaiting", id: CHAT, access_hash: X.HASH, date: 1, admin_id: BigInt(OWN), participant_id: BigInt(OTHER) } : f._ === "messages.acceptEncryption" ? X.chatOf(OTHER) : null }), role = S.choose("role", ["requester", "accepter"]), what = S.choose("what", ["prime", "generator", "size"]);
    const p = X.be(X.PRIME, 256); let g = 3, ok = false;
    if (what === "prime") { const i = S.choose("i", [0, 1, 100, 128, 254, 255]); p[i] = p[i] ^ S.choose("d", [1, 8, 128, 255]); }
    if (what === "generator") { g = S.int("g", -(2 ** 31), 2 ** 31 - 1); ok = g === 3 && X.PRIME % 3n === 2n || g === 4 || g === 5 && [1n, 4n].includes(X.PRIME % 5n) || g === 7 && [3n, 5n, 6n].includes(X.PRIME % 7n); if (ok) g = S.conc(g); }
    if (what === "size") S.choose("longer", [false, true]) ? p.push(1) : p.shift();
    a.dh = { _: "messages.dhConfig", g, p: new Uint8Array(p), version: 1, random: new Uint8Array(256) };
    await a.start();
    if (role === "accepter") await a.manager.handleUpdate({ _: "updateEncryption", date: 1, chat: { _: "encryptedChatRequested", id: CHAT, access_hash: X.HASH, date: 1, admin_id: BigInt(OTHER), participant_id: BigInt(OWN), g_a: new Uint8Array(256).fill(100) } });
    const r = await S.outcome(role === "requester" ? a.manager.requestSecretChat(OTHER) : a.manager.acceptSecretChat(CHAT)), used = a.requests.some((f) => f._ === "messages.requestEncryption" || f._ === "messages.acceptEncryption");
    if (ok) { S.assert(r.ok && used, "a safe group is refused"); S.cover("used"); } else { S.assert(!r.ok && !used, "an unsafe group is used"); S.cover("refused"); }
  } });
  return cs;
};
