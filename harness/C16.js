"use strict";
// C16 A gap in the update sequence is always detected and recovered
const { manager, idOf, CHANNEL, USER } = require("./lib/updates.js");
exports.title = "A gap in the update sequence is always detected and recovered";
exports.assumptions = ["counters are at most 2^31 - 2000", "the handler does not fail (C17)"];
const MAX = 2 ** 31 - 2000;
const msg = (id) => ({ _: "messageEmpty", id });
const enc = (id) => ({ _: "encryptedMessageService", random_id: 1n, chat_id: 1, date: id, bytes: new Uint8Array(0) });
const cmsg = (id) => ({ _: "message", id, peer_id: { _: "peerChannel", channel_id: CHANNEL }, date: 5, message: "" });
async function rig(S, opts = {}) {
  S.fixedRandom();
  const pending = [], delivered = [];
  const t = await manager(S, { ...opts, invoke: (f) => new Promise((resolve, reject) => pending.push({ f, resolve, reject })), handle: async (u) => async () => { delivered.push(idOf(u)); } });
  t.pending = pending; t.delivered = delivered; t.S = S;
  t.state = { _: "updates.state", pts: S.int("pts", 1, MAX), qts: S.int("qts", 1, MAX), date: S.int("date", 1, MAX), seq: S.int("seq", 0, MAX), unread_count: 0 };
  if (!opts.drop) await t.store.setState({ ...t.state });
  t.stored = () => t.store.getState();
  t.asks = (st, what) => {
    S.assert(pending.length === 1, pending.length === 0 ? `no difference is requested ${what}` : "two differences are requested at a time");
    if (pending.length !== 1) return false;
    const { f } = pending[0];
    S.assert(f._ === "updates.getDifference", "something else is requested");
    S.assertEq([f.pts, f.qts, f.date], [st.pts, st.qts, st.date], `the difference is not requested from the counters that ${what === "again" ? "the last part reported" : "are stored"}`);
    return true;
  };
  t.quiet = (msg) => S.assert(pending.length === 0, msg);
  t.reply = async (v) => { const p = pending.shift(); if (v instanceof Error) p.reject(v); else p.resolve(v); await S.settle(); };
  return t;
}
const invalid = (S) => new (S.load("3_errors.ts").PersistentTimestampInvalid)({ error_code: 500, error_message: "PERSISTENT_TIMESTAMP_INVALID" });
const anyState = (S, n) => ({ _: "updates.state", pts: S.int("state" + n + ".pts", 1, MAX), qts: S.int("state" + n + ".qts", 0, MAX), date: S.int("state" + n + ".date", 1, MAX), seq: S.int("state" + n + ".seq", 0, MAX), unread_count: 0 });
// answers the difference that is being requested with up to n answers; returns the state that results
async function answers(S, t, st, n, opts = {}) {
  let cur = { ...st }, id = 100;
  const want = [];
  for (let i = 0;; i++) {
    const kind = S.choose("answer" + i, i + 1 < n ? ["difference", "slice", "tooLong", "empty", "invalid"] : ["difference", "empty"]);
    S.cover(kind);
    const body = () => {
      const m = [], e = [], o = [];
      if (opts.contents !== false) {
        const c = S.choose("contents" + i, ["none", "messages", "mixed"]);
        if (c !== "none") { m.push(msg(++id), msg(++id)); want.push(id - 1, id); }
        if (c === "mixed") {
          e.push(enc(++id)); want.push(id);
          // another update that the box counts: to be applied unless it was
          const pts = S.int("other.pts", 1, MAX), count = S.int("other.count", 0, 3);
          o.push({ _: "updateDeleteMessages", messages: [++id], pts, pts_count: count });
          if (pts >= cur.pts + count) { want.push(id); S.cover("other-applied"); }
          // one that no counter covers
          o.push({ _: "updateNewMessage", message: msg(++id), pts: 0, pts_count: 0 }); want.push(id);
        }
      }
      return { new_messages: m, new_encrypted_messages: e, other_updates: o, chats: [], users: [] };
    };
    if (kind === "invalid") {
      await t.reply(invalid(S));
      t.quiet("a difference is requested again at once after the server refused");
      await S.advance(60000);
      if (!t.asks(cur, "again")) return null;
      continue;
    }
    if (kind === "tooLong") {
      const pts = S.int("tooLong.pts", 1, MAX);
      await t.reply({ _: "updates.differenceTooLong", pts });
      cur = { ...cur, pts };
    } else if (kind === "slice") {
      const next = anyState(S, i);
      await t.reply({ _: "updates.differenceSlice", ...body(), intermediate_state: { ...next } });
      cur = next;
    } else if (kind === "difference") {
      const next = anyState(S, i);
      await t.reply({ _: "updates.difference", ...body(), state: { ...next } });
      return { st: next, want };
    } else {
      const date = S.int("empty.date", 1, MAX), seq = S.int("empty.seq", 0, MAX);
      await t.reply({ _: "updates.differenceEmpty", date, seq });
      return { st: { ...cur, date, seq }, want };
    }
    if (!t.asks(cur, "again")) return null;
  }
}
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick", N = deep ? 4 : 3;
  // ---- the client's and the secret chats' boxes
  const forms = {
    "new message": (p, c) => ({ _: "updateShort", update: { _: "updateNewMessage", message: msg(1), pts: p, pts_count: c }, date: 7 }),
    "deleted messages": (p, c) => ({ _: "updateShort", update: { _: "updateDeleteMessages", messages: [1], pts: p, pts_count: c }, date: 7 }),
    "bare update": (p, c) => ({ _: "updateNewMessage", message: msg(1), pts: p, pts_count: c }),
    "container": (p, c) => ({ _: "updates", updates: [{ _: "updateDeleteMessages", messages: [1], pts: p, pts_count: c }], users: [], chats: [], date: 7, seq: 0 }),
    "short message": (p, c) => ({ _: "updateShortMessage", id: 1, user_id: USER, message: "x", pts: p, pts_count: c, date: 7 }),
    "short chat message": (p, c) => ({ _: "updateShortChatMessage", id: 1, from_id: USER, chat_id: 8n, message: "x", pts: p, pts_count: c, date: 7 }),
    "sent message": (p, c) => ({ _: "updateShortSentMessage", out: true, id: 1, pts: p, pts_count: c, date: 7 }),
  };
  const know = (t) => { for (const id of [USER, 9n]) t.messages.setPeer({ _: "user", id, access_hash: 1n, first_name: "x" }); t.messages.setPeer({ _: "chat", id: 8n, title: "x", photo: { _: "chatPhotoEmpty" }, participants_count: 1, date: 1, version: 1 }); };
  for (const [name, make] of Object.entries(forms)) {
    const main = name === "deleted messages", n = main ? N : 1;
    cs.push({ name: "message box, " + name, weight: main ? 9 : 1, bounds: `every stored state, every counter and count of an arriving update, ${main ? `up to ${n + (deep ? 0 : 0)} answers of every kind with every state` : "a final answer with every state"}`, covers: ["in-order", "gap", "old", "difference", "empty", "after-later", "after-old"],
      run: async (S) => {
        const t = await rig(S); know(t);
        const p = S.int("update.pts", 1, MAX), c = S.int("update.count", 0, 1000);
        const next = t.state.pts + c;
        const dated = name === "bare update" ? t.state : { ...t.state, date: 7 };
        t.m.processUpdates(make(p, c), true, { _: "messages.sendMessage", peer: { _: "inputPeerSelf" }, message: "x", random_id: 1n });
        await S.settle();
        let want = [], st = { ...dated };
        if (next === p) { S.cover("in-order"); t.quiet("a difference is requested although there is no gap"); want.push(1); st.pts = p; }
        else if (next < p) {
          S.cover("gap");
          S.assertEq(t.delivered, [], "an update is applied before the ones that it follows");
          if (!t.asks(dated, "for a gap")) return;
          const r = await answers(S, t, dated, n, { contents: main });
          if (!r) return;
          st = r.st; want = r.want;
          if (st.pts + c <= p) { S.cover("after-later"); want.push(1); st = { ...st, pts: p }; } else S.cover("after-old");
          t.quiet("a further difference is requested after the last");
        } else {
          S.cover("old");
          // the client may ask what happened when the counters overlap
          if (t.pending.length > 0) { const r = await answers(S, t, dated, 1, { contents: false }); if (!r) return; st = r.st; if (st.pts + c <= p) { want.push(1); st = { ...st, pts: p }; } }
        }
        S.assertEq(t.delivered, want, "what is delivered is not the difference's contents followed by the update unless the difference covers it");
        const got = await t.stored();
        S.assertEq([got.pts, got.qts, got.seq, got.date], [st.pts, st.qts, st.seq, st.date], "the client does not continue from the state that the difference reports");
        S.assertEq(t.connection.filter((x) => x !== "reset").length, t.connection.filter((x) => x === "reset").length, "the client remains in the updating state");
      } });
  }
  for (const form of ["updateNewEncryptedMessage", "updateBotStopped"]) cs.push({ name: "qts box, " + form, bounds: "every stored state, every counter of an arriving update, a final answer with every state", covers: ["in-order", "gap", "old", "difference", "empty"],
    run: async (S) => {
      const t = await rig(S);
      const q = S.int("update.qts", 1, MAX), dated = { ...t.state, date: 7 };
      t.m.processUpdates({ _: "updateShort", update: form === "updateBotStopped" ? { _: form, user_id: USER, date: 1, stopped: true, qts: q } : { _: form, message: enc(1), qts: q }, date: 7 }, true);
      await S.settle();
      let want = [], st = dated;
      if (q === dated.qts + 1) { S.cover("in-order"); t.quiet("a difference is requested although there is no gap"); want.push(1); st = { ...st, qts: q }; }
      else if (q > dated.qts) {
        S.cover("gap");
        S.assertEq(t.delivered, [], "an update is applied before the ones that it follows");
        if (!t.asks(dated, "for a gap")) return;
        const r = await answers(S, t, dated, 1);
        if (!r) return;
        st = r.st; want = r.want;
        if (st.qts + 1 <= q) { want.push(1); st = { ...st, qts: q }; }
      } else { S.cover("old"); t.quiet("a difference is requested for an update that was applied"); }
      S.assertEq(t.delivered, want, "what is delivered is not the difference's contents followed by the update unless the difference covers it");
      const got = await t.stored();
      S.assertEq([got.pts, got.qts, got.seq, got.date], [st.pts, st.qts, st.seq, st.date], "the client does not continue from the state that the difference reports");
    } });
  // ---- containers
  for (const kind of ["updates", "updatesCombined"]) cs.push({ name: "sequence of " + kind, bounds: "every stored state, every sequence number (and first sequence number), a final answer with every state", covers: ["unnumbered", "in-order", "gap", "old", "after-next", "after-old"],
    run: async (S) => {
      const t = await rig(S);
      const seq = S.int("container.seq", 0, MAX), start = kind === "updates" ? seq : S.int("container.seq_start", 0, MAX);
      if (kind !== "updates") S.assume(start <= seq);
      t.m.processUpdates({ _: kind, updates: [{ _: "updateDeleteMessages", messages: [1], pts: 0, pts_count: 0 }, { _: "updateNewMessage", message: msg(2), pts: 0, pts_count: 0 }], users: [], chats: [], date: 7, seq, ...(kind === "updates" ? {} : { seq_start: start }) }, true);
      await S.settle();
      let want = [1, 2], st = t.state;
      if (start === 0) { S.cover("unnumbered"); t.quiet("a difference is requested for an unnumbered container"); st = { ...st, date: 7 }; }
      else if (start === st.seq + 1) { S.cover("in-order"); t.quiet("a difference is requested although there is no gap"); st = { ...st, seq, date: 7 }; }
      else if (start <= st.seq) { S.cover("old"); t.quiet("a difference is requested for a container that was applied"); want = []; }
      else {
        S.cover("gap");
        S.assertEq(t.delivered, [], "a container is applied before the ones that it follows");
        if (!t.asks(st, "for a gap")) return;
        const r = await answers(S, t, st, 1, { contents: false });
        if (!r) return;
        st = r.st;
        if (start === st.seq + 1) { S.cover("after-next"); st = { ...st, seq, date: 7 }; } else { want = []; if (start <= st.seq) S.cover("after-old"); else return; }
      }
      S.assertEq(t.delivered, want, "a container is not applied exactly when it is the next");
      const got = await t.stored();
      S.assertEq([got.pts, got.qts, got.seq, got.date], [st.pts, st.qts, st.seq, st.date], "the stored state is not that of the last container");
    } });
  cs.push({ name: "gap while another is recovered", bounds: "a difference that is requested for one gap is answered with every state while a container of every number or an update of every counter waits; the answer leaves the second gap or not", covers: ["container", "update", "qts", "remains", "closed"],
    run: async (S) => {
      const t = await rig(S), st0 = { ...t.state, date: 7 };
      t.m.processUpdates({ _: "updateShort", update: { _: "updateDeleteMessages", messages: [1], pts: t.state.pts + 3, pts_count: 1 }, date: 7 }, true);
      await S.settle();
      if (!t.asks(st0, "for a gap")) return;
      const what = S.choose("what", ["container", "update", "qts"]), st = anyState(S, 0), at = S.int("second.counter", 1, MAX);
      S.cover(what);
      if (what === "container") { S.assume(at > t.state.seq + 1); t.m.processUpdates({ _: "updates", updates: [{ _: "updateDeleteMessages", messages: [2], pts: 0, pts_count: 0 }], users: [], chats: [], date: 8, seq: at }, true); }
      if (what === "update") { S.assume(at > t.state.pts + 3); t.m.processUpdates({ _: "updateShort", update: { _: "updateDeleteMessages", messages: [2], pts: at, pts_count: 1 }, date: 8 }, true); }
      if (what === "qts") { S.assume(at > t.state.qts + 1); t.m.processUpdates({ _: "updateShort", update: { _: "updateBotStopped", user_id: USER, stopped: true, date: 2, qts: at }, date: 8 }, true); }
      await S.settle();
      S.assertEq(t.delivered, [], "an update is applied before the ones that it follows");
      await t.reply({ _: "updates.difference", new_messages: [], new_encrypted_messages: [], other_updates: [], chats: [], users: [], state: { ...st } });
      // what the first update does to the counter
      const after = { ...st, pts: st.pts <= t.state.pts + 2 ? t.state.pts + 3 : st.pts };
      if (what !== "update" && what !== "container" && !(after.qts + 1 < at) || what === "container" && !(st.seq + 1 < at) || what === "update" && !(after.pts + 1 < at)) { S.cover("closed"); return t.quiet("a difference is requested although there is no gap"); }
      S.cover("remains");
      S.assert(!t.delivered.includes(2), "an update is applied before the ones that it follows");
      S.assert(t.pending.length === 1 && t.pending[0].f._ === "updates.getDifference", "no difference is requested for a gap that a running recovery left");
    } });
  cs.push({ name: "updates too long", bounds: `every stored state, up to ${N} answers of every kind with every state`, covers: ["difference", "slice", "tooLong", "empty", "invalid"],
    run: async (S) => {
      const t = await rig(S);
      t.m.processUpdates({ _: "updatesTooLong" }, true);
      await S.settle();
      if (!t.asks(t.state, "when there are too many updates")) return;
      const r = await answers(S, t, t.state, N);
      if (!r) return;
      S.assertEq(t.delivered, r.want, "what is delivered is not the difference's contents in order");
      const got = await t.stored();
      S.assertEq([got.pts, got.qts, got.seq, got.date], [r.st.pts, r.st.qts, r.st.seq, r.st.date], "the client does not continue from the state that the difference reports");
      // and the next update is compared with it
      const p = S.int("update.pts", 1, MAX);
      t.m.processUpdates({ _: "updateDeleteMessages", messages: [1], pts: p, pts_count: 1 }, true);
      await S.settle();
      const d = t.delivered.includes(1);
      S.assert((p === r.st.pts + 1) === d, "the client does not continue from the state that the difference reports");
    } });
  cs.push({ name: "failed recovery", bounds: "every stored state; the server fails, then answers with every state", covers: ["update"],
    run: async (S) => {
      const t = await rig(S), st0 = { ...t.state, date: 7 };
      const push = () => t.m.processUpdates({ _: "updateShort", update: { _: "updateDeleteMessages", messages: [1], pts: t.state.pts + 3, pts_count: 1 }, date: 7 }, true);
      push(); await S.settle();
      if (!t.asks(st0, "for a gap")) return;
      await t.reply(new Error("lost"));
      await S.advance(100);
      S.assertEq(t.delivered, [], "an update is applied although the gap before it remains");
      while (t.pending.length > 0) t.pending.shift();
      const got = await t.stored();
      S.assertEq([got.pts, got.qts, got.seq], [st0.pts, st0.qts, st0.seq], "a failed recovery changes the counters");
      t.m.processUpdates({ _: "updateShort", update: { _: "updateDeleteMessages", messages: [2], pts: t.state.pts + 4, pts_count: 1 }, date: 7 }, true);
      await S.settle();
      S.assertEq(t.delivered, [], "an update is applied although the gap before it remains");
      if (t.asks(st0, "after a failed recovery")) S.cover("update");
    } });
  cs.push({ name: "counters changed", bounds: "every stored and every reported state", covers: ["none", "difference", "slice"],
    run: async (S) => {
      const t = await rig(S), k = S.choose("difference", ["none", "difference", "slice"]); S.cover(k);
      t.m.processUpdates({ _: "updateShort", update: { _: "updatePtsChanged" }, date: 7 }, true);
      await S.settle();
      S.assert(t.pending.length === 1 && t.pending[0].f._ === "updates.getState", "the state is not requested when the counters were changed");
      const a = anyState(S, 0), b = anyState(S, 1);
      await t.reply({ ...a });
      if (!t.asks(a, "again")) return;
      const body = { new_messages: [], new_encrypted_messages: [], other_updates: [], chats: [], users: [] };
      await t.reply(k === "none" ? { _: "updates.differenceEmpty", date: 1, seq: 1 } : k === "difference" ? { _: "updates.difference", ...body, state: { ...b } } : { _: "updates.differenceSlice", ...body, intermediate_state: { ...b } });
      const st = k === "none" ? a : b, got = await t.stored();
      S.assertEq([got.pts, got.qts, got.seq, got.date], [st.pts, st.qts, st.seq, st.date], "the client does not continue from the state that the server reports");
    } });
  cs.push({ name: "pending updates dropped", bounds: "every stored and every reported state, every counter of an arriving update", covers: ["in-order", "gap", "old"],
    run: async (S) => {
      const t = await rig(S, { drop: true }), p = S.int("update.pts", 1, MAX);
      await t.store.setState({ ...anyState(S, 5) });
      t.m.processUpdates({ _: "updateShort", update: { _: "updateDeleteMessages", messages: [1], pts: p, pts_count: 1 }, date: 7 }, true);
      await S.settle();
      S.assert(t.pending.length === 1 && t.pending[0].f._ === "updates.getState", "the state is not requested");
      await t.reply({ ...t.state });
      if (!t.asks(t.state, "again")) return;
      await t.reply({ _: "updates.differenceEmpty", date: 1, seq: 1 });
      if (p === t.state.pts + 1) { S.cover("in-order"); S.assertEq(t.delivered, [1], "an update is not delivered"); t.quiet("a difference is requested although there is no gap"); }
      else if (p > t.state.pts) { S.cover("gap"); S.assertEq(t.delivered, [], "an update is applied before the ones that it follows"); t.asks({ ...t.state, date: 7 }, "for a gap"); }
      else { S.cover("old"); S.assertEq(t.delivered, [], "an update is handed over twice"); t.quiet("a difference is requested for an update that was applied"); }
    } });
  // ---- channels
  const forms2 = {
    updateNewChannelMessage: (p, c) => ({ _: "updateNewChannelMessage", message: cmsg(1), pts: p, pts_count: c }),
    updateEditChannelMessage: (p, c) => ({ _: "updateEditChannelMessage", message: cmsg(1), pts: p, pts_count: c }),
    updateDeleteChannelMessages: (p, c) => ({ _: "updateDeleteChannelMessages", channel_id: CHANNEL, messages: [1], pts: p, pts_count: c }),
    updatePinnedChannelMessages: (p, c) => ({ _: "updatePinnedChannelMessages", channel_id: CHANNEL, messages: [1], pts: p, pts_count: c }),
  };
  for (const [name, make] of Object.entries(forms2)) {
    const n = name === "updateDeleteChannelMessages" ? N : 1;
    cs.push({ name: "channel, " + name, weight: n > 1 ? 5 : 1, bounds: `a stored counter or none, every counter and count of an arriving update, up to ${n} answers of every kind`, covers: ["first", "in-order", "gap", "old", "difference", "empty"],
      run: async (S) => {
        const t = await rig(S);
        const known = S.choose("stored", [true, false]), isBot = n > 1 ? S.choose("bot", [false, true]) : false, L = S.int("channel.pts", 1, MAX), p = S.int("update.pts", 1, MAX), c = S.int("update.count", 0, 1000);
        if (isBot) await t.store.auth.set({ apiId: 1, authKey: null, dc: "2", isBot, userId: 9 });
        if (known) t.store.channelPts.set([CHANNEL], L);
        S.assume(p > c); // a counter is positive
        t.m.processUpdates({ _: "updateShort", update: make(p, c), date: 7 }, true);
        await S.settle();
        const asks = (pts) => {
          S.assert(t.pending.length === 1, "no difference is requested for a gap");
          if (t.pending.length !== 1) return false;
          const { f } = t.pending[0];
          S.assertEq([f._, f.channel.channel_id, f.channel.access_hash, f.pts], ["updates.getChannelDifference", CHANNEL, 3n, pts], "the difference is not requested from the counter that is stored");
          return true;
        };
        let want = [], cur = L, id = 100;
        if (!known) { S.cover("first"); t.quiet("a difference is requested although there is no gap"); want = [1]; cur = p; }
        else if (p === L + c) { S.cover("in-order"); t.quiet("a difference is requested although there is no gap"); want = [1]; cur = p; }
        else if (p > L + c || t.pending.length > 0) {
          if (p > L + c) S.cover("gap"); else S.cover("old");
          S.assertEq(t.delivered, [], "an update is applied before the ones that it follows");
          if (!asks(L)) return;
          for (let i = 0;; i++) {
            const kind = S.choose("answer" + i, i + 1 < n ? ["difference", "more", "tooLong", "tooLong-more", "empty", "empty-more", "invalid"] : ["difference", "empty", "tooLong"]), next = S.int(`answer${i}.pts`, 1, MAX);
            S.cover(kind.replace("-more", ""));
            if (kind === "invalid") { await t.reply(invalid(S)); t.quiet("a difference is requested again at once after the server refused"); await S.advance(60000); if (!asks(cur)) return; continue; }
            if (kind === "difference" || kind === "more") {
              const op = S.int("other.pts", 1, MAX), oc = S.int("other.count", 0, 3);
              const m = [cmsg(++id), cmsg(++id)]; want.push(id - 1, id);
              const o = [{ _: "updateDeleteChannelMessages", channel_id: CHANNEL, messages: [++id], pts: op, pts_count: oc }];
              if (op >= cur + oc) want.push(id);
              await t.reply({ _: "updates.channelDifference", final: kind === "difference", pts: next, timeout: 5, new_messages: m, other_updates: o, chats: [], users: [] });
            } else if (kind.startsWith("empty")) await t.reply({ _: "updates.channelDifferenceEmpty", final: kind === "empty", pts: next });
            else { const m = [cmsg(++id)]; want.push(id); await t.reply({ _: "updates.channelDifferenceTooLong", final: kind === "tooLong", dialog: { _: "dialog", peer: { _: "peerChannel", channel_id: CHANNEL }, top_message: 1, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, unread_mentions_count: 0, unread_reactions_count: 0, notify_settings: { _: "peerNotifySettings" }, pts: next }, messages: m, chats: [], users: [] }); }
            cur = next;
            if (!kind.endsWith("more")) break;
            if (!asks(cur)) return;
          }
          t.quiet("a further difference is requested after the last");
          if (cur + c <= p) { want.push(1); cur = p; }
        } else S.cover("old");
        S.assertEq(t.delivered, want, "what is delivered is not the difference's contents followed by the update unless the difference covers it");
        S.assertEq(await t.store.channelPts.get([CHANNEL]), cur, "the client does not continue from the counter that the difference reports");
        const got = await t.stored();
        S.assertEq([got.pts, got.qts, got.seq], [t.state.pts, t.state.qts, t.state.seq], "a channel's difference changes other counters");
      } });
  }
  cs.push({ name: "channel too long", bounds: "a stored counter or none", covers: ["stored", "none"],
    run: async (S) => {
      const t = await rig(S), known = S.choose("stored", [true, false]), L = S.int("channel.pts", 1, MAX), next = S.int("answer.pts", 1, MAX);
      S.cover(known ? "stored" : "none");
      if (known) t.store.channelPts.set([CHANNEL], L);
      t.m.processUpdates({ _: "updateShort", update: { _: "updateChannelTooLong", channel_id: CHANNEL, ...(S.choose("with-pts", [true, false]) ? { pts: S.int("update.pts", 1, MAX) } : {}) }, date: 7 }, true);
      await S.settle();
      S.assert(t.pending.length === 1 && t.pending[0].f._ === "updates.getChannelDifference", "no difference is requested when a channel has too many updates");
      if (known) S.assertEq(t.pending[0].f.pts, L, "the difference is not requested from the counter that is stored");
      await t.reply({ _: "updates.channelDifferenceEmpty", final: true, pts: next });
      S.assertEq(await t.store.channelPts.get([CHANNEL]), next, "the client does not continue from the counter that the difference reports");
    } });
  // ---- peers that are not known
  const peers = {
    "chat": (x, o) => ({ ...x, peer_id: o }), "sender": (x, o) => ({ ...x, from_id: o }),
    "forward": (x, o) => ({ ...x, fwd_from: { _: "messageFwdHeader", date: 1, from_id: o } }), "saved from": (x, o) => ({ ...x, fwd_from: { _: "messageFwdHeader", date: 1, saved_from_peer: o } }),
    "bot": (x, o) => ({ ...x, via_bot_id: o.user_id }), "mention": (x, o) => ({ ...x, entities: [{ _: "messageEntityBold", offset: 0, length: 1 }, { _: "messageEntityMentionName", offset: 0, length: 1, user_id: o.user_id }] }),
    "reply": (x, o) => ({ ...x, reply_to: { _: "messageReplyHeader", reply_to_peer_id: o } }), "reply's forward": (x, o) => ({ ...x, reply_to: { _: "messageReplyHeader", reply_from: { _: "messageFwdHeader", date: 1, from_id: o } } }),
    "story": (x, o) => ({ ...x, reply_to: { _: "messageReplyStoryHeader", peer: o, story_id: 1 } }), "contact": (x, o) => ({ ...x, media: { _: "messageMediaContact", phone_number: "", first_name: "", last_name: "", vcard: "", user_id: o.user_id } }),
  };
  const actions = {
    "created": (o) => ({ _: "messageActionChatCreate", title: "", users: [USER, o.user_id] }), "added": (o) => ({ _: "messageActionChatAddUser", users: [o.user_id] }), "removed": (o) => ({ _: "messageActionChatDeleteUser", user_id: o.user_id }),
  };
  cs.push({ name: "unknown peers", bounds: "a message that refers to a known or unknown user in each of 13 places", covers: ["known", "unknown"],
    run: async (S) => {
      const t = await rig(S); know(t);
      const isKnown = S.choose("known", [true, false]), o = { _: "peerUser", user_id: isKnown ? USER : 1234n }, where = S.choose("where", [...Object.keys(peers), ...Object.keys(actions)]);
      const p = t.state.pts + 1, base = { id: 1, peer_id: { _: "peerUser", user_id: USER }, from_id: { _: "peerUser", user_id: 9n }, date: 1 };
      const m = where in actions ? { _: "messageService", ...base, action: actions[where](o) } : peers[where]({ _: "message", ...base, message: "x" }, o);
      t.m.processUpdates({ _: "updateNewMessage", message: m, pts: p, pts_count: 1 }, true);
      await S.settle();
      if (isKnown) { S.cover("known"); t.quiet("a difference is requested although every peer is known"); S.assertEq(t.delivered, [1], "an update is not delivered"); }
      else {
        S.cover("unknown");
        S.assertEq(t.delivered, [], "an update is applied although it refers to an unknown peer");
        if (!t.asks(t.state, "for an unknown peer")) return;
        await t.reply({ _: "updates.differenceEmpty", date: 1, seq: 1 });
        S.assertEq(t.delivered, [1], "an update is not delivered");
      }
    } });
  return cs;
};
