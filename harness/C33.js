"use strict";
// C33 Secret-chat messages are delivered in order, each exactly once
const X = require("./lib/secret.js");
const { OWN, OTHER, CHAT } = X;
exports.title = "Secret-chat messages are delivered in order, each exactly once";
exports.assumptions = ["AES-IGE is an arbitrary permutation per key and vector, SHA-1 and SHA-256 are arbitrary functions", "the server hands on what it accepted or loses it, and a client handles one incoming message at a time"];
const BIG = 2 ** 28;
// constant bytes, so that only sequence numbers are symbolic
const plainRandom = (S) => { let k = 1; S.randomHook((u) => { const r = new Uint8Array(u.length); for (let i = 0; i < r.length; i++) r[i] = (k = k * 75 % 65537) & 255; return r; }); };
const RESEND = "decryptedMessageActionResend";
// the two ends and what lies between them
async function both(S, { creator = OWN, storage, keyOf, state = {} } = {}) {
  const t = { a: X.end(S, OWN, { storage: storage?.() }), b: X.end(S, OTHER, { storage: storage?.() }), lose: () => false, relayed: 0 };
  await t.a.begin({ creator, ...state }); await t.b.begin({ creator, ...state });
  t.take = (from) => from.sent.splice(0).filter((f) => !t.lose(f, from));
  t.give = async (to, f) => { S.assert(++t.relayed < 200, "two clients exchange messages without end"); return await to.receive(f.data, f._ === "messages.sendEncryptedFile" ? { _: "encryptedMessage", file: { _: "encryptedFile", id: f.file.id, access_hash: f.file.access_hash, size: 5n, dc_id: 2, key_fingerprint: 0 } } : {}); };
  // hands everything on until nothing is left
  t.pump = async () => { for (;;) { const p = t.take(t.a), q = t.take(t.b); if (!p.length && !q.length) return; for (const f of p) await t.give(t.b, f); for (const f of q) await t.give(t.a, f); } };
  return t;
}
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  cs.push({ name: "verdicts", bounds: "every pair of 32-bit sequence numbers, every state of the three counters up to 2^28, both roles, just started or not", covers: ["delivered", "old", "gap", "ended"], run: async (S) => {
    S.quiet(); plainRandom(S);
    const b = X.end(S, OWN), creator = S.choose("creator", [OWN, OTHER]), loaded = S.choose("loaded", [true, false]);
    const next = S.int("inSeqNo", 0, BIG), out = S.int("outSeqNo", 0, BIG), remote = S.int("remoteInSeqNo", 0, BIG); S.assume(remote <= out);
    await b.begin({ creator, inSeqNo: next, outSeqNo: out, remoteInSeqNo: remote });
    if (!loaded) { await b.manager.sendSecretMessage(CHAT, "own"); b.sent.length = 0; }
    const mine = loaded ? out : out + 1, p = 1 - b.x, o = S.int("out_seq_no", -(2 ** 31), 2 ** 31 - 1), i = S.int("in_seq_no", -(2 ** 31), 2 ** 31 - 1);
    const r = await b.receive(await b.says(X.text("text", 5n), 0, 0, { out_seq_no: o, in_seq_no: i }));
    const oddO = o & 1, oddI = i & 1, delivered = b.texts.length;
    S.assert(delivered <= 1, "one message is delivered more than once");
    if (o < 0 || oddO !== p || i < 0 || oddI !== b.x || i > 2 * mine + b.x) { S.assert(delivered === 0, "a message with an impossible sequence number is delivered"); S.assert(!r.ok && b.discarded === 1, "an impossible sequence number does not end the chat"); S.cover("ended"); return; }
    if (o < 2 * next + p) { S.assert(r.ok && delivered === 0 && b.discarded === 0 && b.sent.length === 0, "a message already received has an effect"); S.cover("old"); return; }
    if (o > 2 * next + p) {
      S.assert(r.ok && delivered === 0 && b.discarded === 0, "a message is delivered before the ones before it"); S.assert(b.sent.length === 1, "missing messages are not asked for once");
      const [q] = await b.read(), a = q.message.action;
      S.assert(q.method === "sendEncryptedService" && a._ === RESEND, "missing messages are not asked for"); S.assert(a.start_seq_no === 2 * next + p && a.end_seq_no === o - 2, "another range than the missing one is asked for");
      S.assert(q.out_seq_no === 2 * mine + b.x && q.in_seq_no === 2 * next + p, "a request has other sequence numbers"); S.cover("gap"); return;
    }
    if (!loaded && i < 2 * remote + b.x) { S.assert(!r.ok && delivered === 0 && b.discarded === 1, "a peer that forgets messages does not end the chat"); S.cover("ended"); return; }
    S.assert(r.ok && delivered === 1 && b.discarded === 0 && b.sent.length === 0, "the next message is not delivered"); S.cover("delivered");
    b.texts.length = 0;
    await b.receive(await b.says(X.text("text", 5n), 0, 0, { out_seq_no: o, in_seq_no: i })); S.assert(b.texts.length === 0 && b.discarded === 0, "a message is delivered twice");
    await b.manager.sendSecretMessage(CHAT, "own"); const [q] = await b.read();
    S.assert(q.out_seq_no === 2 * mine + b.x && q.in_seq_no === 2 * (next + 1) + p, "a message has other sequence numbers than its place");
  } });
  for (const creator of [OWN, OTHER]) cs.push({ name: "orders-" + (creator === OWN ? "creator" : "other"), weight: 3, bounds: `every ${deep ? 5 : 4} arrivals out of six consecutive messages starting at every counter up to 2^28`, covers: ["delivered", "waiting"], run: async (S) => {
    S.quiet(); plainRandom(S);
    const b = X.end(S, OWN), base = S.int("base", 1, BIG), first = deep ? S.choose("stored", [false, true]) : creator === OTHER, n = deep ? 5 : 4;
    await b.begin({ creator, inSeqNo: base });
    const p = 1 - b.x;
    let next = 0, gap = null, shown = 0; const waiting = new Set();
    for (let k = 0; k < n; k++) {
      if (first && k === 2) await b.start(); // the client is started again
      const d = S.conc(S.int("d" + k, -1, 4)), wanted = [];
      const r = await b.receive(await b.says(X.text("text", 5n, { ttl: base + d }), base + d));
      S.assert(r.ok && b.discarded === 0, "a genuine message is refused");
      // what is expected of it
      if (d >= next && !waiting.has(d)) {
        if (d > next) { waiting.add(d); if (gap === null) { gap = d - 1; wanted.push([next, d - 1]); } }
        else {
          next++; while (waiting.delete(next)) next++;
          if (waiting.size === 0) gap = null; else if (next > gap) { const low = Math.min(...waiting); gap = low - 1; wanted.push([next, gap]); }
        }
      }
      S.assert(b.updates.length === next, b.updates.length > next ? "a message is delivered early or again" : "a message that can be delivered is not");
      for (; shown < next; shown++) S.assert(b.updates[shown].secretMessage.ttl === base + shown, "messages are delivered in another order");
      const asked = await b.read();
      S.assert(asked.length === wanted.length, "missing messages are asked for more or less often than a gap appears");
      wanted.forEach(([from, to], j) => { const a = asked[j].message.action; S.assert(a._ === RESEND && a.start_seq_no === 2 * (base + from) + p && a.end_seq_no === 2 * (base + to) + p, "another range than the missing one is asked for"); });
    }
    if (next > 0) S.cover("delivered"); if (waiting.size) S.cover("waiting");
  } });
  cs.push({ name: "resends", bounds: "every requested 32-bit range, after up to four sent messages (a text, a silent one, a service message, a file), both roles, started again or not; the request comes in place or early", covers: ["resent", "ended"], run: async (S) => {
    S.quiet(); plainRandom(S);
    const b = X.end(S, OWN, { upload: async () => ({ inputEncryptedFile: { _: "inputEncryptedFileUploaded", id: 5n, parts: 1, md5_checksum: "", key_fingerprint: 6 }, fileSize: 9 }) }), creator = S.choose("creator", [OWN, OTHER]), n = S.choose("n", [0, 1, 4]);
    await b.begin({ creator });
    if (n > 0) await b.manager.sendSecretMessage(CHAT, "one");
    if (n > 1) { await b.manager.sendSecretMessage(CHAT, "two", { isSilent: true }); await b.manager.sendSecretScreenshotNotification(CHAT, ["7"]); await b.manager.sendSecretDocument(CHAT, new Uint8Array([1]), {}); }
    const sent = b.sent.splice(0); S.assert(sent.length === n, "a message is not sent once");
    if (S.choose("again", [false, true])) await b.start();
    const early = S.choose("early", [false, true]), start = S.int("start", -(2 ** 31), 2 ** 31 - 1), end = S.int("end", -(2 ** 31), 2 ** 31 - 1);
    const packet = await b.says(X.action({ _: RESEND, start_seq_no: start, end_seq_no: end }), early ? 1 : 0, 0), r = await b.receive(packet);
    const fine = (start & 1) === b.x && (end & 1) === b.x && start >= 0 && end >= start && end < 2 * n;
    let again = b.sent.splice(0);
    if (!fine) { S.assert(!r.ok && b.discarded === 1 && again.length === 0, "an impossible request does not end the chat"); S.cover("ended"); return; }
    S.assert(r.ok && b.discarded === 0, "a request is refused"); S.cover("resent");
    if (early) { S.assert(again.length > 0, "a request that comes early is not answered"); const q = again.pop(), [l] = [(await X.open(S, X.KEY, q.data, b.out)).layer]; S.assert(l.message.action?._ === RESEND && l.message.action.start_seq_no === 1 - b.x && l.message.action.end_seq_no === 1 - b.x, "the message before an early request is not asked for"); }
    const from = S.conc(start) >> 1, to = S.conc(end) >> 1;
    S.assert(again.length === to - from + 1, "another number of messages is sent again than asked for");
    again.forEach((f, j) => {
      const was = sent[from + j];
      S.assert(f._ === was._ && !!f.silent === !!was.silent, "a message is sent again in another way"); S.assertEq(f.data, was.data, "another message is sent again"); S.assert(f.peer.chat_id === CHAT && f.peer.access_hash === X.HASH, "a message is sent again to another chat");
      if (was.file) S.assert(f.file._ === "inputEncryptedFile" && f.file.id === 31n && f.file.access_hash === 32n, "a message is sent again without its file");
    });
    if (early) { await b.receive(await b.says(X.text("late", 6n), 0, 0)); S.assertEq(b.texts, ["late"], "a late message is not delivered"); S.assert(b.sent.length === 0, "an early request is answered twice"); }
  } });
  cs.push({ name: "losses", weight: 2, bounds: `${deep ? 4 : 3} texts each way in turn, every set of them lost, either or both clients started again, both roles; what is asked for again arrives`, covers: ["recovered"], run: async (S) => {
    S.quiet(); plainRandom(S);
    const t = await both(S, { creator: S.choose("creator", [OWN, OTHER]) }), n = deep ? 4 : 3, at = S.choose("restart", [-1, 1, 2]);
    const lost = (name) => { const m = S.int(name, 0, (1 << n) - 1); return Array.from({ length: n }, (_, i) => (m >> i & 1) === 1); }, la = lost("lostA"), lb = lost("lostB");
    for (let i = 0; i < n; i++) {
      if (at === i) { await t.a.start(); await t.b.start(); }
      await t.a.manager.sendSecretMessage(CHAT, "a" + i); const [f] = t.a.sent.splice(0); if (!la[i]) S.assert((await t.give(t.b, f)).ok, "a genuine message is refused");
      await t.b.manager.sendSecretMessage(CHAT, "b" + i); const own = t.b.sent.pop(), rest = t.b.sent.splice(0); for (const q of rest) S.assert((await t.give(t.a, q)).ok, "a request is refused"); if (!lb[i]) S.assert((await t.give(t.a, own)).ok, "a genuine message is refused");
      await t.pump();
    }
    // one more each way, which arrives
    await t.a.manager.sendSecretMessage(CHAT, "a"); await t.pump(); await t.b.manager.sendSecretMessage(CHAT, "b"); await t.pump();
    const all = (c) => [...Array.from({ length: n }, (_, i) => c + i), c];
    S.assertEq(t.b.texts, all("a"), "messages are lost, doubled or out of order"); S.assertEq(t.a.texts, all("b"), "messages are lost, doubled or out of order"); S.assert(t.a.discarded + t.b.discarded === 0, "a loss ends the chat"); S.cover("recovered");
  } });
  cs.push({ name: "stored", bounds: "a chat with six values of each of its counters, of its flags and of its bigger numbers, up to two sent messages (with or without a file) and up to two waiting ones, kept as text or as it is", covers: ["restored"], run: async (S) => {
    S.quiet(); plainRandom(S);
    const { SecretChatState } = S.load("client/0_secret_chat_state.ts"), st = new SecretChatState(), storage = S.choose("text", [false, true]) ? X.memory(S) : X.copies(), N = Number.MAX_SAFE_INTEGER;
    const bytes = (n, k) => new Uint8Array(n).map((_, i) => (i * k + 5) & 255), one = S.choose("field", ["authKeyUseCount", "authKeyCreatedAt", "previousAuthKeyDiscardAfterSeqNo", "inSeqNo", "outSeqNo", "remoteInSeqNo", "gapEndSeqNo"]);
    const v = S.choose("value", [0, 1, 2, 3, 4, 5]), value = [0, -1, 1, 100, 123456789, N][v], k = S.choose("k", [0, 1, 2]), big = [0n, 1n, -1n, (1n << 63n) - 1n, -(1n << 63n), X.PRIME][v];
    const message = (i) => [{ _: "decryptedMessageLayer", random_bytes: bytes(15, i), layer: 144, in_seq_no: i, out_seq_no: i + 9, message: i ? X.text("x\n1", big, { silent: true }) : X.action({ _: RESEND, start_seq_no: 1, end_seq_no: 2 }) }, { _: "encryptedMessageService", random_id: big, chat_id: CHAT, date: 5, bytes: bytes(8, i) }];
    const want = { encryptedChat: X.chatOf(OWN, { g_a_or_b: bytes(256, 3) }), authKey: bytes(256, 7), authKeyId: big, authKeyId_: bytes(8, 9), authKeyUseCount: 1, isAuthKeyUsed: v % 2 === 0, authKeyCreatedAt: 5, previousAuthKey: v % 3 === 0 ? new Uint8Array(0) : bytes(256, 11), previousAuthKeyId_: bytes(8, 1), previousAuthKeyDiscardAfterSeqNo: 3, isAwaitingNewAuthKeyConfirmation: false, a: big, g: 3, prime: X.PRIME, pendingExponent: 1n, rekeyId: big, rekeyA: 2n, toCommitId: 3n, toCommitAuthKey: bytes(256, 5), toCommitAuthKeyId: 4n, toCommitAuthKeyId_: bytes(8, 2), inSeqNo: 4, outSeqNo: 5, remoteInSeqNo: 6, isGapRequested: v > 2, gapEndSeqNo: 8, [one]: value, pendingMessages: Array.from({ length: k }, (_, i) => message(i)) };
    Object.assign(st, want);
    const out = Array.from({ length: k }, (_, i) => [i + 3, { data: bytes(40, i), file: i ? { _: "inputEncryptedFile", id: big, access_hash: 2n } : undefined, isService: i === 0, isSilent: i === 1 }]);
    for (const [n, o] of out) st.outgoingMessages.set(n, o);
    const r = await S.outcome(st.commit(storage)); S.assert(r.ok, "a chat cannot be stored");
    const back = SecretChatState.load(await storage.get(["secretChats", CHAT])), present = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
    for (const f in want) S.assertEq(back[f], want[f], "a chat is restored with another " + f);
    S.assertEq([...back.outgoingMessages.entries()].map(([n, o]) => [n, present(o)]), out.map(([n, o]) => [n, present(o)]), "a chat forgets what it sent"); S.cover("restored");
  } });
  cs.push({ name: "at-once", bounds: "four messages sent at once, of which every set fails and every one may be impossible to encode; both roles", covers: ["delivered"], run: async (S) => {
    S.quiet(); plainRandom(S);
    const t = await both(S, { creator: S.choose("creator", [OWN, OTHER]) }), bad = S.choose("bad", [-1, 0, 1, 3]), m = S.int("fails", 0, 15);
    let k = 0, busy = 0; t.a.hold = async () => { S.assert(busy++ === 0, "two messages are sent at once"); await S.tick(); await S.tick(); busy--; };
    t.a.fail = () => (m >> k++ & 1) === 1 ? new Error("no") : null;
    const rs = await Promise.all([0, 1, 2, 3].map((i) => S.outcome(t.a.manager.sendSecretMessage(CHAT, "m" + i, i === bad ? { ttl: 2 ** 31 } : {}))));
    t.a.fail = null; t.a.hold = null;
    const ids = [0, 1, 2, 3].filter((i) => i !== bad); let j = 0;
    rs.forEach((r, i) => S.assert(r.ok === (i !== bad && (m >> j++ & 1) === 0), "a message that failed counts as sent, or the other way round"));
    const sent = t.a.sent.splice(0); S.assert(sent.length === ids.length, "a message is not sent once");
    for (let i = 0; i < sent.length; i++) { const { layer } = await X.open(S, X.KEY, sent[i].data, t.a.out); S.assertEq(layer.message.message, "m" + ids[i], "messages are sent in another order"); S.assert(layer.out_seq_no === 2 * i + t.a.x, "messages sent at once have no consecutive sequence numbers"); }
    for (let i = 0; i < sent.length; i++) if ((m >> i & 1) === 0) await t.give(t.b, sent[i]);
    await t.pump(); await t.a.manager.sendSecretMessage(CHAT, "last"); await t.pump();
    S.assertEq(t.b.texts, [...ids.map((i) => "m" + i), "last"], "messages are lost, doubled or out of order"); S.assert(t.a.discarded + t.b.discarded === 0, "messages sent at once end the chat"); S.cover("delivered");
  } });
  // ---- changing the key
  const KEYS = ["RequestKey", "AcceptKey", "CommitKey", "Noop", "AbortKey"];
  // two clients of which the first starts to change the key with its next message
  const rekey = async (S, o = {}) => {
    S.quiet(); S.abstractModExp(true);
    let k = 1; S.randomHook((u) => { const r = new Uint8Array(u.length); k = k * 75 % 65537; let j = k; for (let i = 0; i < r.length; i++) r[i] = (j = j * 75 % 65537) & 255; if (u.length === 8) r[7] &= 127; return r; });
    const t = await both(S, { creator: o.creator ?? S.choose("creator", [OWN, OTHER]) });
    t.first = async () => { const st = { ...await t.a.state(), authKeyUseCount: 100 }; await t.a.storage.set(["secretChats", CHAT], st); await t.a.start(); };
    await t.first();
    t.settled = async (changed = true) => {
      await S.settle(); await t.pump();
      await t.a.manager.sendSecretMessage(CHAT, "end"); await t.pump(); await t.b.manager.sendSecretMessage(CHAT, "end"); await t.pump(); await t.a.manager.sendSecretMessage(CHAT, "end"); await t.pump();
      const p = await t.a.state(), q = await t.b.state();
      S.assert(t.a.discarded + t.b.discarded === 0 && p && q, "changing the key ends the chat");
      S.assertEq(p.authKey, q.authKey, "the two ends use different keys");
      if (changed) { S.assert(!S.eq(p.authKey, X.KEY), "the key is not changed"); S.assert(p.previousAuthKey.length === 0 && q.previousAuthKey.length === 0, "an old key is kept"); }
    };
    return t;
  };
  const texts = (S, end, want) => S.assertEq(end.texts.filter((x) => x !== "end"), want, "messages are lost, doubled or out of order while the key changes");
  cs.push({ name: "re-key", bounds: `a change of the key started by either client after its hundredth message or a week, with texts each way before its steps or not`, covers: ["changed"], run: async (S) => {
    const t = await rekey(S), a = [], b = [], week = S.choose("week", [false, true]);
    if (week) { await t.a.storage.set(["secretChats", CHAT], { ...await t.a.state(), authKeyUseCount: 5 }); await t.a.start(); await S.advance(7 * 24 * 3600 * 1000); }
    a.push("start"); await t.a.manager.sendSecretMessage(CHAT, "start");
    for (let i = 0; i < 5; i++) {
      if (S.choose("a" + i, i < 3 || deep ? [false, true] : [false])) { a.push("a" + i); await t.a.manager.sendSecretMessage(CHAT, "a" + i); }
      if (S.choose("b" + i, i > 0 && i < 4 || deep ? [false, true] : [false])) { b.push("b" + i); await t.b.manager.sendSecretMessage(CHAT, "b" + i); }
      for (const f of t.take(i % 2 === 0 ? t.a : t.b)) S.assert((await t.give(i % 2 === 0 ? t.b : t.a, f)).ok, "a genuine message is refused");
    }
    await t.settled(); texts(S, t.b, a); texts(S, t.a, b); S.cover("changed");
  } });
  cs.push({ name: "re-key-losses", weight: 2, bounds: "a change of the key with texts each way between its steps, of whose messages any one or two are lost at first and asked for again, or two change places", covers: ["changed"], run: async (S) => {
    const t = await rekey(S), a = ["start"], b = [], x = S.choose("x", deep ? [0, 1, 2, 3, 4, 5, 6, 7, 8, 9] : [0, 1, 2, 3, 4, 5, 6, 7]), how = S.choose("how", ["one", "two", "next but one", "swap"]);
    let n = 0; t.lose = () => { const i = n++; return i === x || how === "two" && i === x + 1 || how === "next but one" && i === x + 2; };
    await t.a.manager.sendSecretMessage(CHAT, "start");
    for (let i = 0; i < 5; i++) {
      a.push("a" + i); await t.a.manager.sendSecretMessage(CHAT, "a" + i); b.push("b" + i); await t.b.manager.sendSecretMessage(CHAT, "b" + i);
      if (how === "swap") { for (const e of [t.a, t.b]) if (e.sent.length > 1 && n++ === x) e.sent.push(e.sent.shift()); const l = t.lose; t.lose = () => false; await t.pump(); t.lose = l; }
      else for (const [e, o] of [[t.a, t.b], [t.b, t.a]]) for (const f of t.take(e)) await t.give(o, f);
    }
    t.lose = () => false;
    await t.settled(); texts(S, t.b, a); texts(S, t.a, b); S.cover("changed");
  } });
  cs.push({ name: "re-key-failures", weight: 2, bounds: "a change of the key of whose messages any one fails to be sent (whether or not the server had it), in order or backwards, with texts each way before, between and after", covers: ["changed"], run: async (S) => {
    const t = await rekey(S), a = ["start"], b = [], bad = S.choose("bad", [0, 1, 2, 3]), had = S.choose("had", [false, true]), late = S.choose("late", [false, true]), back = S.choose("back", [false, true]);
    let done = false;
    const old = (await X.hash("SHA-1", X.KEY)).slice(12, 20);
    const kind = async (e, f) => S.eq(f.data.slice(0, 8), old) ? (await X.open(S, X.KEY, f.data, e.out)).layer.message.action._.slice("decryptedMessageAction".length) : "Noop";
    for (const e of [t.a, t.b]) { const inner = e.c.invoke; e.c.invoke = async (f) => {
      if (f._ === "messages.sendEncryptedService" && !done && await kind(e, f) === KEYS[bad]) { done = true; if (had) e.sent.push(f); throw new Error("no"); }
      return await inner(f);
    }; }
    await t.a.manager.sendSecretMessage(CHAT, "start");
    for (let i = 0; i < 4; i++) {
      if (late) { a.push("a" + i); await t.a.manager.sendSecretMessage(CHAT, "a" + i); b.push("b" + i); await t.b.manager.sendSecretMessage(CHAT, "b" + i); }
      const [from, to] = i % 2 === 0 ? [t.a, t.b] : [t.b, t.a];
      const fs = t.take(from); if (back) fs.reverse();
      for (const f of fs) await t.give(to, f);
    }
    await t.settled(false); texts(S, t.b, a); texts(S, t.a, b); S.assert(done, "the key is not being changed"); S.cover("changed");
  } });
  cs.push({ name: "re-key-queued", weight: 2, bounds: `texts sent by either client while its earlier ones still wait for the server and the key changes: at each of three steps none or two, of which ${deep ? "none, one or all" : "none or one"} are through before the next step`, covers: ["changed"], run: async (S) => {
    const slow = S.choose("slow", ["a", "b"]), t = await rekey(S, deep ? {} : { creator: slow === "a" ? OWN : OTHER }), e = t[slow], a = ["start"], b = [], jobs = [];
    await t.a.manager.sendSecretMessage(CHAT, "start"); // and the request
    for (const f of t.take(t.a)) await t.give(t.b, f);
    // from here on the server of one client is slow
    const held = []; e.hold = () => new Promise((r) => held.push(r));
    // what the server has accepted is handed on in order, one at a time
    const queue = { a: [], b: [] }, busy = { a: false, b: false };
    const step = async () => { for (let i = 0; i < 40; i++) { await S.settle(); queue.b.push(...t.take(t.a)); queue.a.push(...t.take(t.b)); let any = false; for (const n of ["a", "b"]) if (!busy[n] && queue[n].length) { any = true; busy[n] = true; t.give(t[n], queue[n].shift()).then((r) => { busy[n] = false; S.assert(r.ok, "a genuine message is refused"); }); } if (!any) return; } };
    let n = 0;
    for (let i = 0; i < 3; i++) {
      for (let j = S.choose("send" + i, [0, 2]); j > 0; j--) { const m = "m" + n++; (slow === "a" ? a : b).push(m); jobs.push(S.outcome(e.manager.sendSecretMessage(CHAT, m))); }
      await S.settle();
      for (let j = S.choose("through" + i, deep ? [0, 1, 3] : [0, 1]); j > 0 && held.length; j--) { held.shift()(); await S.settle(); }
      await step();
    }
    e.hold = null; while (held.length) { held.shift()(); await S.settle(); }
    for (const j of jobs) S.assert((await j).ok, "a message is not sent");
    await step(); await step();
    await t.settled(false); texts(S, t.b, a); texts(S, t.a, b); S.cover("changed");
  } });
  return cs;
};
