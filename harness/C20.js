"use strict";
// C20 Cached client state always reads back what was last written
const { IDBKeyRange, IDB } = require("./lib/idb.js");
exports.title = "Cached client state always reads back what was last written";
exports.assumptions = ["the storage below applies each request at some moment between its start and its end, and requests for one key in the order in which they start; at most 20000 cached entries per map"];
// A storage whose requests end when the schedule says so.
class Storage {
  constructor(entries = []) { this.entries = entries; this.pending = []; this.isMemory = false; this.mustSerialize = false; this.supportsFiles = false; }
  initialize() {}
  at(k) { return this.entries.find((e) => same(e[0], k)); }
  later(key, f) { return new Promise((res, rej) => this.pending.push({ key, end: (fail) => { if (fail) rej(new TypeError("no space")); else res(f()); } })); }
  // requests that may end next: those without an earlier one for the same key
  ready() { return this.pending.filter((p, i) => !this.pending.slice(0, i).some((q) => same(q.key, p.key))); }
  end(p, fail) { this.pending.splice(this.pending.indexOf(p), 1); p.end(fail); }
  get(key) { if (this.immediate) return this.at(key)?.[1] ?? null; return this.later(key, () => this.at(key)?.[1] ?? null); }
  set(key, value) { if (Array.isArray(value)) value = [...value]; else if (value !== null) value = { ...value }; return this.later(key, () => { const e = this.at(key); if (value === null) this.entries = this.entries.filter((x) => x !== e); else if (e) e[1] = value; else this.entries.push([key, value]); }); }
  incr() { throw new TypeError("unused"); }
  async *getMany({ prefix }) { for (const [k, v] of [...this.entries]) if (prefix.every((p, i) => k[i] === p)) yield [k, v]; }
}
const local = {
  items: [],
  getItem(k) { const e = this.items.find((e) => e[0] === k); return e ? e[1] : null; },
  setItem(k, v) { const e = this.items.find((e) => e[0] === k); if (e) e[1] = v; else this.items.push([k, v]); },
  removeItem(k) { this.items = this.items.filter((e) => e[0] !== k); },
  [Symbol.for("entries")]() { return this.items.map((e) => [e[0], e[1]]); },
}, idb = new IDB();
const globals = { localStorage: local, indexedDB: idb, IDBKeyRange };
const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
const plain = (v) => Array.isArray(v) ? v[0] : v.apiId;
// the kinds of entries that are kept under keys
const small = (S, n) => S.int(n, 1, 9), big = (S, n) => S.big(n, 1n, 9n), word = (S, n) => S.str(n, 1, 97, 105), num = (S, n) => S.int(n, 0, 255), hash = (S, n) => S.big(n, -(2n ** 63n), 2n ** 63n - 1n);
const ENTRIES = [
  { name: "stickerSetName", key: (S, n) => [big(S, n + "a"), big(S, n + "b")], value: (S, n) => S.str(n, 2, 32, 126), set: (c, k, v) => c.updateStickerSetName(k[0], k[1], v), get: async (c, k) => (await c.getStickerSetName(k[0], k[1]))?.[0] ?? null, del: "deleteStickerSetNames" },
  { name: "serverSalt", key: () => [], value: hash, set: (c, k, v) => c.setServerSalt(v), get: async (c) => await c.getServerSalt() },
  { name: "isPremium", key: () => [], value: (S, n) => S.choose(n, [false, true]), set: (c, k, v) => c.setIsPremium(v), get: (c) => c.getIsPremium() },
  { name: "poll", key: (S, n) => [big(S, n)], value: num, set: (c, k, v) => c.setPoll(k[0], { _: "poll", id: 5n, question: { _: "textWithEntities", text: "a", entities: [] }, answers: [], hash: 1n, close_period: v }), get: async (c, k) => (await c.getPoll(k[0]))?.close_period ?? null, del: "deletePolls" },
  { name: "pollResults", key: (S, n) => [big(S, n)], value: num, set: (c, k, v) => c.setPollResults(k[0], { _: "pollResults", total_voters: v }), get: async (c, k) => (await c.getPollResults(k[0]))?.total_voters ?? null, del: "deletePollResults" },
  { name: "voiceTranscription", key: (S, n) => [S.choose(n, [5n, 77n])], value: num, set: (c, k, v) => c.setVoiceTranscription({ id: String(k[0]), isCompleted: true, text: "a", v }), get: async (c, k) => (await c.getVoiceTranscription(k[0]))?.v ?? null, del: "deleteVoiceTranscriptions" },
  { name: "voiceTranscriptionReference", key: (S, n) => [small(S, n + "a"), small(S, n + "b"), S.choose(n + "c", [5, 1005])], value: hash, set: (c, k, v) => c.setVoiceTranscriptionReference(k[0], k[1], new Date(k[2]), v), get: (c, k) => c.getVoiceTranscriptionReference(k[0], k[1], new Date(k[2])), del: "deleteVoiceTranscriptionReferences" },
  { name: "minPeerReference", key: (S, n) => [small(S, n + "a"), small(S, n + "b")], of: (k) => k.slice(0, 1), value: (S, n, k) => ({ chatId: k[1] ?? 1, messageId: num(S, n) }), set: (c, k, v) => c.addMinPeerReference(v.chatId, k[0], v.messageId), get: (c, k) => c.getLastMinPeerReference(k[0]), del: "deleteMinPeerReferences" },
  { name: "groupCall", key: (S, n) => [big(S, n)], value: num, set: (c, k, v) => c.setGroupCall(k[0], { _: "groupCall", id: 5n, access_hash: 9n, participants_count: v, unmuted_video_limit: 2, version: 3 }), get: async (c, k) => (await c.getGroupCall(k[0]))?.participants_count ?? null, del: "deleteGroupCalls" },
  { name: "groupCallAccessHash", key: (S, n) => [big(S, n)], value: hash, set: (c, k, v) => c.setGroupCallAccessHash(k[0], v), get: (c, k) => c.getGroupCallAccessHash(k[0]) },
  { name: "fullChat", key: (S, n) => [S.int(n, -9, 9)], value: num, set: (c, k, v) => c.setFullChat(k[0], { _: "chatFull", id: 5n, about: "a", participants: { _: "chatParticipants", chat_id: 5n, participants: [], version: v }, notify_settings: { _: "peerNotifySettings" } }), get: async (c, k) => (await c.getFullChat(k[0]))?.participants.version ?? null, del: "deleteFullChats" },
  { name: "inlineQueryAnswer", key: (S, n) => [small(S, n + "a"), small(S, n + "b"), word(S, n + "c"), word(S, n + "d")], value: num, set: (c, k, v) => c.setInlineQueryAnswer(k[0], k[1], k[2], k[3], { _: "messages.botResults", query_id: 5n, results: [], cache_time: v, users: [] }, new Date(5)), get: async (c, k) => (await c.getInlineQueryAnswer(k[0], k[1], k[2], k[3]))?.[0].cache_time ?? null, del: "deleteInlineQueryAnswers" },
  { name: "callbackQueryAnswer", key: (S, n) => [small(S, n + "a"), small(S, n + "b"), word(S, n + "c")], value: num, set: (c, k, v) => c.setCallbackQueryAnswer(k[0], k[1], k[2], { _: "messages.botCallbackAnswer", cache_time: v }), get: async (c, k) => (await c.getCallbackQueryAnswer(k[0], k[1], k[2]))?.[0].cache_time ?? null, del: "deleteCallbackQueryAnswers" },
  { name: "businessConnection", key: (S, n) => [word(S, n)], value: num, set: (c, k, v) => c.setBusinessConnection(k[0], { _: "botBusinessConnection", connection_id: "c", user_id: 5n, dc_id: 2, date: v }), get: async (c, k) => (await c.getBusinessConnection(k[0]))?.date ?? null, del: "deleteBusinessConnections" },
  { name: "customEmojiDocument", key: (S, n) => [big(S, n)], value: num, set: (c, k, v) => c.setCustomEmojiDocument(k[0], { _: "document", id: 5n, access_hash: 4n, file_reference: new Uint8Array(2), date: v, mime_type: "a", size: 5n, dc_id: 2, attributes: [] }), get: async (c, k) => (await c.getCustomEmojiDocument(k[0]))?.[0].date ?? null, del: "deleteCustomEmojiDocuments" },
  { name: "file", files: true, key: (S, n) => [big(S, n)], value: (S, n) => [num(S, n), 512], set: (c, k, v) => c.setFilePartCount(k[0], v[0], v[1]), get: (c, k) => c.getFile(k[0]), del: "deleteFiles", also: "filePart" },
  { name: "filePart", files: true, key: (S, n) => [big(S, n), S.choose(n + "i", [0, 1, 2])], value: (S, n) => new Uint8Array(S.bytes(n, 2)), set: (c, k, v) => c.saveFilePart(k[0], k[1], v), get: async (c, k) => { for await (const p of c.iterFileParts(k[0], k[1] + 1, k[1])) return p; return null; }, del: "deleteFiles" },
];
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  // what: how one entry is written and read
  const maps = {
    map: { key: (k) => ["peers", k], write: (c, k, v) => c.peers.set([k], v), read: (c, k) => c.peers.get([k]), sync: (c, k) => c.peers.getSync([k]), value: (i, x) => [i, x] },
    value: { key: () => ["auth"], write: (c, k, v) => { void c.auth.set(v); }, read: (c) => c.auth.get(), value: (i, x) => ({ apiId: i, authKey: null, dc: "1", isBot: false, userId: x }) },
  };
  const schedule = (what, keys, steps, first = []) => async (S) => {
    const { StorageOperations } = S.load("client/0_storage_operations.ts"), w = maps[what];
    const history = keys.map(() => []), floor = keys.map(() => 0), reached = keys.map(() => 0);
    const st = new Storage();
    const stored = S.choose("stored", [true, false]);
    keys.forEach((k, i) => { history[i].push(stored ? w.value(0, S.int("old" + i, 0, 99)) : null); if (stored) st.entries.push([w.key(k), history[i][0]]); });
    const c = new StorageOperations(st);
    const check = (v, i, from, to, msg) => {
      const n = v === null ? 0 : plain(v);
      S.assert(n >= from && n <= to, msg);
      if (n >= 0 && n < history[i].length) S.assertEq(v, history[i][n], "the parts of different values are mixed");
    };
    const where = () => { keys.forEach((k, i) => { const v = st.at(w.key(k))?.[1] ?? null, n = v === null ? 0 : plain(v); S.assert(n >= reached[i], "the storage goes back to an earlier value"); check(v, i, floor[i], history[i].length - 1, "the storage lacks a value that was flushed"); reached[i] = n; }); };
    let reads = 0, commits = 0, rejected = 0;
    const readNow = (i) => {
      const from = history[i].length - 1; reads++;
      // reads whose value is not yet known may see a value written while they run
      void w.read(c, keys[i]).then((v) => { reads--; check(v, i, from, history[i].length - 1, "a read returns a value older than the last one written before it"); }, () => { reads--; rejected++; });
    };
    for (let s = 0; s < steps; s++) {
      const ready = st.ready(), ops = [];
      keys.forEach((k, i) => { if (history[i].length <= 3) ops.push(["write", i]); if (reads < 2) ops.push(["read", i]); });
      if (commits < 2) ops.push(["commit"]);
      ready.forEach((p) => { ops.push(["end", p]); ops.push(["fail", p]); });
      const [op, arg] = first[s] ?? S.choose("step" + s, ops);
      if (op === "write") { const v = w.value(history[arg].length, S.int("v", 0, 99)); history[arg].push(v); w.write(c, keys[arg], v); if (w.sync) S.assertEq(w.sync(c, keys[arg]), v, "a value does not read back at once"); }
      else if (op === "read") readNow(arg);
      else if (op === "commit") { const at = history.map((h) => h.length - 1); commits++; void c.commit(true).then(() => { commits--; at.forEach((n, i) => { floor[i] = Math.max(floor[i], n); }); S.cover("flushed"); }, () => { commits--; rejected++; S.cover("failed"); }); }
      else st.end(arg, op === "fail");
      await S.settle();
      where();
    }
    if (S.choose("end", ["crash", "drain"]) === "drain") {
      while (st.pending.length > 0) { st.end(st.pending[0], false); await S.settle(); where(); }
      S.assert(reads === 0 && commits === 0, "a read or a flush never ends");
      keys.forEach((_, i) => readNow(i)); await S.settle();
      while (st.pending.length > 0) { st.end(st.pending[0], false); await S.settle(); }
      S.assert(reads === 0, "a read never ends");
      const p = c.commit(true); let done = false; void p.then(() => done = true);
      await S.settle();
      while (st.pending.length > 0) { st.end(st.pending[0], false); await S.settle(); }
      S.assert(done, "a flush never ends");
      keys.forEach((k, i) => check(st.at(w.key(k))?.[1] ?? null, i, history[i].length - 1, history[i].length - 1, "a flush leaves out a value"));
    }
    st.pending = []; st.immediate = true;
    const again = new StorageOperations(st);
    for (const [i, k] of keys.entries()) { const v = await w.read(again, k); check(v, i, floor[i], history[i].length - 1, "a restart loses a flushed value"); }
  };
  const B = (n, k) => `every sequence of ${n} steps (a write, a read, a flush, the end or the failure of a storage request) over ${k}, then a crash or the end of all requests; every value`;
  const n = deep ? 7 : 5;
  cs.push({ name: "map", bounds: B(n, "one entry"), covers: ["flushed", "failed"], run: schedule("map", [7], n) });
  cs.push({ name: "map-two", bounds: B(n + 1, "two entries, after a write of both and the start of a flush"), covers: ["flushed", "failed"], run: schedule("map", [7, -8], n + 1, [["write", 0], ["write", 1], ["commit"]]) });
  cs.push({ name: "map-two-reads", bounds: B(n - 1, "two entries"), run: schedule("map", [7, -8], n - 1) });
  cs.push({ name: "value", bounds: B(n, "the session data"), covers: ["flushed", "failed"], run: schedule("value", [0], n) });
  // typed objects through the real back ends
  for (const kind of ["memory", "local", "indexed-db"]) {
    const open = async (S) => { const c = new (S.load("client/0_storage_operations.ts").StorageOperations)(kind === "memory" ? memory : kind === "local" ? new (S.load("storage/2_storage_local_storage.ts").StorageLocalStorage)("a") : new (S.load("storage/2_storage_indexed_db.ts").StorageIndexedDB)("a")); await c.initialize(); return c; };
    let memory;
    const start = async (S) => { local.items = []; idb.reset(); memory = new (S.load("storage/2_storage_memory.ts").StorageMemory)(); return await open(S); };
    cs.push({ name: kind + "-objects", globals, bounds: "one object of each kind that the client stores (update state, message, full chat, group call, poll, results, emoji document, business connection, query answers), every value of its changing fields", run: async (S) => {
      const c = await start(S), x = S.int("x", 1, 255), y = S.int("y", 0, 255), id = S.big("id", 1n, 255n);
      const [set, get] = S.choose("kind", [
        () => { const v = { _: "updates.state", pts: x, qts: y, date: 5, seq: 0, unread_count: 3 }; return [() => c.setState(v), async (c) => [await c.getState(), v]]; },
        () => { const v = { _: "messageEmpty", id: x, peer_id: { _: "peerUser", user_id: id } }; return [() => c.setMessage(5, 7, v), async (c) => [await c.getMessage(5, 7), v]]; },
        () => { const v = { _: "groupCall", join_muted: true, id, access_hash: 9n, participants_count: x, unmuted_video_limit: y, version: 3 }; return [() => c.setGroupCall(7n, v), async (c) => { const g = await c.getGroupCall(7n); return [[g._, g.id, g.access_hash, g.participants_count, g.unmuted_video_limit, g.join_muted], [v._, v.id, v.access_hash, v.participants_count, v.unmuted_video_limit, true]]; }]; },
        () => { const v = { _: "pollResults", min: true, total_voters: x }; return [() => c.setPollResults(7n, v), async (c) => { const g = await c.getPollResults(7n); return [[g._, g.total_voters], [v._, x]]; }]; },
        () => { const v = { _: "document", id, access_hash: 4n, file_reference: S.bytes("r", 2), date: x, mime_type: "a", size: 5n, dc_id: 2, attributes: [] }; return [() => c.setCustomEmojiDocument(7n, v), async (c) => { const [g, d] = await c.getCustomEmojiDocument(7n); S.assert(d instanceof Date, "the time is altered"); return [[g._, g.id, g.file_reference, g.date], [v._, id, v.file_reference, x]]; }]; },
        () => { const v = { _: "botBusinessConnection", connection_id: "c", user_id: id, dc_id: 2, date: x }; return [() => c.setBusinessConnection("c", v), async (c) => { const g = await c.getBusinessConnection("c"); return [[g._, g.user_id, g.date], [v._, id, x]]; }]; },
        () => { const v = { _: "messages.botCallbackAnswer", message: S.str("m", 2, 32, 126), cache_time: x }; return [() => c.setCallbackQueryAnswer(5, 6, "q", v), async (c) => { const [g] = await c.getCallbackQueryAnswer(5, 6, "q"); return [[g._, g.message, g.cache_time], [v._, v.message, x]]; }]; },
        () => { const v = { _: "messages.botResults", query_id: id, results: [], cache_time: x, users: [] }, d = new Date(5); return [() => c.setInlineQueryAnswer(5, 6, "q", "", v, d), async (c) => { const [g, e] = await c.getInlineQueryAnswer(5, 6, "q", ""); S.assert(e.getTime() === 5, "the time is altered"); return [[g._, g.query_id, g.cache_time], [v._, id, x]]; }]; },
      ])();
      await set();
      for (const r of [c, kind === "memory" ? c : await open(S)]) { const [got, want] = await get(r); S.assertEq(got, want, "an object is altered"); }
    } });
    if (kind !== "local") for (const part of [0, 1, 2]) cs.push({ name: kind + "-entries-" + part, globals, bounds: "two entries of one of a third of the seventeen keyed kinds and one of the next kind, under every pair of small keys and with every small value, before or after the deletion of a kind and a restart: each key has what was written under it last", weight: 2, covers: ENTRIES.filter((_, i) => i % 3 === part).map((e) => e.name), run: async (S) => {
      let now = 1700000000000; S.nowHook(() => now);
      const c = await start(S), n = S.choose("kind", ENTRIES.map((_, i) => i).filter((i) => i % 3 === part)), E = ENTRIES[n], F = ENTRIES[(n + 1) % ENTRIES.length];
      if (E.files && kind === "memory") { S.cover(E.name); return; }
      const other = F.files && kind === "memory" ? null : [F.key(S, "f"), F.value(S, "fv", "f")];
      const all = [];
      if (other) await F.set(c, other[0], other[1]);
      for (let i = 0; i < 2; i++) { now += 1000; const k = E.key(S, "k" + i), v = E.value(S, "v" + i, k); await E.set(c, k, v); all.push([E.of ? E.of(k) : k, v]); }
      const gone = E.del !== undefined && S.choose("delete", [false, true]);
      if (gone) await c[E.del]();
      S.cover(E.name);
      const q = S.choose("which", deep ? ["first", "second", "another"] : ["first", "another"]), k = q === "another" ? E.key(S, "q") : null, at = q === "another" ? E.of ? E.of(k) : k : all[q === "first" ? 0 : 1][0];
      const want = gone ? null : S.eq(at, all[1][0]) ? all[1][1] : S.eq(at, all[0][0]) ? all[0][1] : null;
      const r = kind === "memory" || !S.choose("restart", [false, true]) ? c : await open(S);
      S.assertEq(await E.get(r, at), want, gone ? "a deleted entry is still there" : "an entry is not the one written last under its key");
      if (other && !(gone && E.also === F.name)) S.assertEq(await F.get(r, F.of ? F.of(other[0]) : other[0]), other[1], "an entry of another kind is altered");
    } });
    if (deep || kind !== "local") cs.push({ name: kind + "-messages", globals, bounds: "two messages written or deleted in every order in two chats of each kind under every pair of identifiers up to 12", run: async (S) => {
      const c = await start(S), chats = [5, -7, -1000000000009], of = (n) => ({ _: "messageEmpty", id: n }), all = [];
      const find = (a, i) => { for (let j = all.length - 1; j >= 0; j--) if (all[j][0] === a && all[j][1] === i) return all[j][2]; return null; };
      for (let i = 0; i < 2; i++) { const chat = S.choose("chat" + i, chats), id = S.int("id" + i, 1, 12), v = i && S.choose("delete", [false, true]) ? null : of(S.int("v" + i, 1, 255)); await c.setMessage(chat, id, v); all.push([chat, id, v]); }
      const chat = S.choose("chat", chats), id = S.int("id", 1, 12);
      S.assertEq(await c.getMessage(chat, id), find(chat, id), "a message is not the one written last");
      if (S.choose("clear", [false, true])) { await c.deleteMessages(); for (const [chat, id] of all) { S.assertEq(await c.getMessage(chat, id), null, "a deleted message is still there"); S.assertEq(await c.getMessageChat(id), null, "the chat of a deleted message is still there"); } }
    } });
    if (deep || kind !== "memory") cs.push({ name: kind + "-updates", globals, bounds: "three updates stored in two boxes at times that stand still, advance or go back, with pts up to 3, before or after a restart: they come back in order, each once", run: async (S) => {
      let c = await start(S), now = 1700000000000; const boxes = [[0n, []], [1000n, []]];
      S.nowHook(() => now);
      for (let i = 0; i < 3; i++) {
        now += S.choose("dt" + i, i === 0 ? [0] : i === 1 || deep ? [0, 1, -1] : [0, 1]);
        const box = boxes[S.choose("box" + i, i ? [0, 1] : [0])], pts = S.choose("pts" + i, deep || i === 1 ? [0, 1, 3] : [0, 2]);
        const u = S.choose("kind" + i, i < 2 ? [true] : [true, false]) ? { _: "updateDeleteMessages", messages: [S.int("m" + i, 1, 255)], pts, pts_count: 1 } : { _: "updateBotStopped", user_id: 5n, date: S.int("m" + i, 1, 255), stopped: false, qts: pts };
        await c.setUpdate(box[0], u); box[1].push(u);
      }
      if (kind !== "memory") c = await open(S);
      const ids = await c.getUpdateBoxIds();
      for (const [id, us] of boxes) {
        S.assert(ids.has(id) === us.length > 0, "a box with stored updates is missing");
        for (const u of us) { const f = await c.getFirstUpdate(id); S.assert(f !== null, "a stored update is missing"); if (f === null) return; const g = f[1]; S.assert(g !== null, "a stored update cannot be read back"); if (g === null) return; S.assertEq([g._, g.pts ?? g.qts, g.messages ?? g.date], [u._, u.pts ?? u.qts, u.messages ?? u.date], "stored updates come back in another order or altered"); await c.set(f[0], null); }
        S.assert(await c.getFirstUpdate(id) === null, "a handled update is still stored");
      }
    } });
  }
  return cs;
};
