"use strict";
// C17 With guaranteed delivery no accepted update is lost across a crash
const { manager, Server, idOf, CHANNEL, USER } = require("./lib/updates.js");
exports.title = "With guaranteed delivery no accepted update is lost across a crash";
exports.assumptions = ["the storage keeps a prefix of the changes in the order in which they were requested", "the server follows the protocol", "the handler succeeds after the restart"];
const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
const cmp = (a, b) => { for (let i = 0; i < a.length && i < b.length; i++) if (a[i] !== b[i]) return a[i] < b[i] ? -1 : 1; return a.length - b.length; };
// A storage that stops after some number of changes, and whose listings can be held back.
class Storage {
  constructor() { this.entries = []; this.changes = 0; this.crashed = false; this.limit = null; this.hold = null; this.held = []; this.isMemory = false; this.mustSerialize = false; this.supportsFiles = false; }
  initialize() {}
  get never() { return new Promise(() => {}); }
  async get(key) { if (this.crashed) await this.never; return this.entries.find((e) => same(e[0], key))?.[1] ?? null; }
  async set(key, value) {
    if (this.limit !== null && !this.crashed && this.changes >= this.limit) this.crashed = true;
    if (this.crashed) await this.never;
    this.changes++;
    if (value !== null && value._ === "updates.state") value = { ...value };
    this.entries = this.entries.filter((e) => !same(e[0], key));
    if (value !== null) { this.entries.push([[...key], value]); this.entries.sort((a, b) => cmp(a[0], b[0])); }
  }
  async *getMany({ prefix }, p) {
    if (this.crashed) await this.never;
    const all = this.entries.filter(([k]) => prefix.every((x, i) => k[i] === x)).slice(0, p?.limit);
    if (this.hold) await new Promise((r) => { this.held.push(r); this.hold = false; });
    for (const e of all) yield e;
  }
  restart() { this.crashed = false; this.limit = null; }
}
async function life(S, box, sv, st, handle) {
  const t = await manager(S, { storage: st, guarantee: true, drop: false, invoke: (f) => sv.invoke(f), handle });
  return t;
}
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const crash = (box, n, max) => async (S) => {
    S.fixedRandom();
    const st = new Storage(), base = S.int("base", 1, 2 ** 31 - 1000), sv = new Server(S, box, base);
    let now = 1700000000000; S.nowHook(() => now++);
    const done = [], removed = () => sv.events.map((e) => e.id).filter((id) => done.includes(id) && !st.entries.some(([k, v]) => k[0] === "updates.updates" && idOf(v) === id));
    let fails = 0, second = false, replaying = false, tries = 0, replayed = [];
    let gone = [];
    const handle = async (u) => {
      const id = idOf(u);
      if (second && replaying) replayed.push(id);
      const how = !second && fails < 2 && tries++ < 3 ? S.choose("handler", ["succeeds", "fails", "fails-twice"]) : "succeeds";
      if (how !== "succeeds") fails++;
      let left = how === "fails" ? 1 : how === "fails-twice" ? 2 : 0;
      return async () => {
        if (left-- > 0) { S.cover(how); throw new Error("handler"); }
        if (!done.includes(id)) S.assert(done.length === 0 || Math.max(...done) < id || second, "an update is handled before an earlier one");
        done.push(id);
      };
    };
    let t = await life(S, box, sv, st, handle);
    const init = async (t) => {
      if (await t.store.getState() === null) await t.store.setState({ _: "updates.state", pts: box === "pts" ? base : 10, qts: box === "qts" ? base : 10, date: 5, seq: 0, unread_count: 0 });
      if (box === "channel" && await t.store.channelPts.get([CHANNEL]) === null) t.store.channelPts.set([CHANNEL], base);
      await t.store.commit(true);
    };
    await init(t);
    st.changes = 0; st.limit = S.int("crash", 0, deep ? 24 : 16); st.limit = st.limit;
    const push = (k) => t.m.processUpdates({ _: "updateShort", update: sv.update(k), date: 5 }, true);
    for (let s = 0; s < n && !st.crashed; s++) {
      const ops = [];
      if (sv.events.length < max) ops.push(["push-new"], ["lose-new"]);
      if (sv.pending.length > 0) ops.push(["answer"]);
      if (box === "channel") ops.push(["commit"]);
      if (ops.length === 0) break;
      const [op] = S.choose("step" + s, ops);
      S.cover(op);
      if (op === "answer") { const p = sv.pending[0]; const to = sv.reach(sv.known(p)); sv.answer(p, to, to === sv.events.length); }
      else if (op === "commit") void t.store.commit(true);
      else { sv.add(S.choose("kind", ["message", "other"]), 1); if (op === "push-new") push(sv.events.length - 1); }
      await S.settle();
    }
    // the crash
    st.crashed = true; await S.settle(); sv.pending = [];
    gone = removed();
    st.restart(); second = true;
    const stored = st.entries.filter(([k]) => k[0] === "updates.updates").map(([, v]) => idOf(v));
    if (stored.length > 0) S.cover("stored");
    t = await life(S, box, sv, st, handle);
    replaying = true;
    await t.m.replayStoredUpdates(); await S.settle();
    replaying = false;
    S.assertEq(replayed, stored, "the stored updates are not delivered in order after a restart");
    for (const id of gone) S.assert(!replayed.includes(id), "an update that was handled is delivered again from the storage");
    S.assert(!st.entries.some(([k]) => k[0] === "updates.updates"), "a handled update remains stored");
    // afterwards the client catches up
    const recover = () => box === "channel" ? t.m.processUpdates({ _: "updateShort", update: { _: "updateChannelTooLong", channel_id: CHANNEL }, date: 5 }, true) : void t.m.recoverUpdateGap("reconnect");
    recover(); await S.settle();
    let k = 0;
    while (sv.pending.length > 0) { S.assert(++k < 20, "the client asks for differences without end"); const p = sv.pending[0], to = sv.reach(sv.known(p)); sv.answer(p, to, to === sv.events.length); await S.settle(); }
    for (const e of sv.events) S.assert(done.includes(e.id), "an update is lost");
    S.assert(done.every((id, i) => done.slice(0, i).includes(id) || id === 1 || done.slice(0, i).includes(id - 1)), "an update is handled before an earlier one");
  };
  for (const box of ["pts", "qts", "channel"]) cs.push({ name: "crash, " + box, weight: 5, bounds: `every sequence of ${deep ? 5 : 4} events (a new update that is pushed or lost, the server's answer to a difference${box === "channel" ? ", a flush" : ""}) with up to 3 updates, handlers that succeed, fail once or fail twice, and a crash after each number of changes to the storage`, covers: ["push-new", "lose-new", "answer", "stored", "fails", "fails-twice"], run: crash(box, deep ? 5 : 4, 3) });
  cs.push({ name: "updates during the replay", bounds: "none or one stored update; the storage's listings end before or after an update arrives", covers: ["held", "early"],
    run: async (S) => {
      S.fixedRandom();
      const st = new Storage(), box = S.choose("box", ["pts", "qts", "channel"]), sv = new Server(S, box, 100), delivered = [], n = S.choose("stored", [0, 1]);
      let now = 1700000000000; S.nowHook(() => now++);
      const t = await life(S, box, sv, st, async (u) => async () => { delivered.push(idOf(u)); });
      await t.store.setState({ _: "updates.state", pts: box === "pts" ? 100 : 10, qts: box === "qts" ? 100 : 10, date: 5, seq: 0, unread_count: 0 });
      if (box === "channel") t.store.channelPts.set([CHANNEL], 100);
      const push = () => { sv.add("other", 1); t.m.processUpdates({ _: "updateShort", update: sv.update(sv.events.length - 1), date: 5 }, true); };
      const id = box === "channel" ? CHANNEL : 0n;
      await t.store.setUpdate(id, box === "channel" ? { _: "updateDeleteChannelMessages", channel_id: CHANNEL, messages: [50], pts: 99, pts_count: 1 } : { _: "updateDeleteMessages", messages: [50], pts: 5, pts_count: 1 });
      if (n === 0) { const f = await t.store.getFirstUpdate(id); await t.store.set(f[0], null); }
      const at = S.choose("hold", [0, 1, 2, 3]);
      let p = t.m.replayStoredUpdates();
      for (let i = 0; i <= at; i++) { st.hold = true; await S.settle(); if (i < at) { const h = st.held; st.held = []; h.forEach((r) => r()); } }
      S.cover(st.held.length > 0 ? "held" : "early");
      st.hold = null;
      push(); await S.settle();
      const h = st.held; st.held = []; h.forEach((r) => r());
      await p; await S.settle();
      S.assertEq(delivered, n ? [50, 1] : [1], "an update that arrives while stored ones are replayed is not delivered");
      push(); await S.settle();
      S.assertEq(delivered, n ? [50, 1, 2] : [1, 2], "a later update is not delivered");
    } });
  return cs;
};
