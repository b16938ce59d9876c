"use strict";
// C15 Updates are applied in order, each exactly once
const { manager, Server, idOf, CHANNEL } = require("./lib/updates.js");
exports.title = "Updates are applied in order, each exactly once";
exports.assumptions = ["the server follows the protocol: its events have consecutive counters, a difference lists the events after the counter it was asked for, and a difference's messages precede its other updates", "the handler does not fail (C17)", "the client's state was fetched before updates arrive"];
async function rig(S, box, opts = {}) {
  S.fixedRandom();
  const base = S.int("base", 1, 2 ** 31 - 1000), sv = new Server(S, box, base), delivered = [];
  const t = await manager(S, { ...opts, invoke: (f) => sv.invoke(f), handle: async (u) => async () => { delivered.push(idOf(u)); t.check(); } });
  t.sv = sv; t.delivered = delivered;
  t.check = () => { const i = delivered.length - 1; S.assert(delivered[i] === i + 1, delivered[i] <= i ? "an update is handed over twice" : "an update is handed over before an earlier one"); };
  await t.store.setState({ _: "updates.state", pts: box === "pts" ? base : 10, qts: box === "qts" ? base : 10, date: 5, seq: 0, unread_count: 0 });
  if (box === "channel") t.store.channelPts.set([CHANNEL], base);
  t.push = (k) => t.m.processUpdates({ _: "updateShort", update: sv.update(k), date: 5 }, true);
  t.recover = () => box === "channel" ? t.m.processUpdates({ _: "updateShort", update: { _: "updateChannelTooLong", channel_id: CHANNEL }, date: 5 }, true) : void t.m.recoverUpdateGap("reconnect").catch(() => {});
  t.finish = async () => {
    const drain = async () => { let n = 0; while (sv.pending.length > 0) { S.assert(++n < 20, "the client asks for differences without end"); const p = sv.pending[0], to = sv.reach(sv.known(p)); sv.answer(p, to, to === sv.events.length); await S.settle(); } };
    await drain(); t.recover(); await S.settle(); await drain();
    S.assert(delivered.length === sv.events.length, "an update is never handed over");
    const k = sv.events.length;
    if (box === "channel") S.assertEq(await t.store.channelPts.get([CHANNEL]), sv.at(k), "the counter is not that of the last update");
    else { const st = await t.store.getState(); S.assertEq(box === "pts" ? st.pts : st.qts, sv.at(k), "the counter is not that of the last update"); S.assertEq(box === "pts" ? st.qts : st.pts, 10, "another counter changes"); }
  };
  return t;
}
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const steps = (box, n, max, open) => async (S) => {
    const t = await rig(S, box), sv = t.sv;
    let recovers = 0, opened = false;
    for (let s = 0; s < n; s++) {
      const ops = [];
      if (sv.events.length < max) ops.push(["push-new"], ["lose-new"]);
      sv.events.forEach((_, k) => { if (k >= sv.events.length - 2) ops.push(["push", k]); });
      if (recovers < 1) ops.push(["recover"]);
      if (open && !opened) ops.push(["open"]);
      if (sv.pending.length > 0) {
        const p = sv.pending[0], k = sv.known(p), reach = sv.reach(k);
        ops.push(["answer", reach, reach === sv.events.length]);
        if (p.asOf < sv.events.length && p.asOf >= k && p.asOf < reach) ops.push(["answer", p.asOf, true]);
        if (reach > k + 1) ops.push(["answer", k + 1, false]);
      }
      const [op, a, b] = S.choose("step" + s, ops);
      if (op === "push-new" || op === "lose-new") { sv.add(S.choose("kind", ["message", "other"]), S.int("count", ...sv.B.counts)); if (op === "push-new") t.push(sv.events.length - 1); }
      else if (op === "push") t.push(a);
      else if (op === "recover") { recovers++; t.recover(); }
      else if (op === "open") { opened = true; await t.m.openChat(-1000000000077); }
      else sv.answer(sv.pending[0], a, b);
      await S.settle();
      S.cover(op);
    }
    if (opened) await t.m.closeChat(-1000000000077);
    await t.finish();
  };
  const n = deep ? 6 : 5;
  for (const box of ["pts", "qts", "channel"]) cs.push({ name: box, bounds: `every sequence of ${n} events (a new update that is pushed or lost, a repeated or late one, a recovery that the client starts, an answer of the server as of when it was asked or of now, whole or in parts) with up to ${deep ? 4 : 3} updates, messages and others, every starting counter and every count`, covers: ["push-new", "lose-new", "push", "recover", "answer"], run: steps(box, n, deep ? 4 : 3, false) });
  cs.push({ name: "channel-open", bounds: `as before with ${n - 1} events, for a chat that is opened`, covers: ["open"], run: steps("channel", n - 1, 3, true) });
  for (const box of ["pts", "qts", "channel"]) cs.push({ name: box + ", failed requests", bounds: `three updates, messages and others, of every count, that were missed; the client recovers from the gap on its own or when the last one arrives; every sequence of ${deep ? 5 : 4} whole or partial answers and up to two failures, whether the request fails altogether or is told to wait, and recoveries repeated after failures`, covers: ["part", "fail", "wait", "again"], run: async (S) => {
    const t = await rig(S, box), sv = t.sv;
    const { constructTelegramError } = S.load("4_errors.ts"), invalid = () => constructTelegramError({ _: "rpc_error", error_code: 400, error_message: "PERSISTENT_TIMESTAMP_INVALID" }, { _: "updates.getState" });
    for (let i = 0; i < 3; i++) sv.add(S.choose("kind", ["message", "other"]), S.int("count", ...sv.B.counts));
    const start = () => S.choose("start", ["push", "recover"]) === "push" ? t.push(2) : t.recover();
    start();
    await S.settle();
    let fails = 0;
    for (let s = 0; s < (deep ? 5 : 4); s++) {
      if (sv.pending.length === 0) { if (t.delivered.length === 3) break; start(); S.cover("again"); await S.settle(); continue; }
      const p = sv.pending[0], k = sv.known(p), reach = sv.reach(k);
      const ops = [["all"]];
      if (reach > k + 1) ops.push(["part"]);
      if (fails < 2) ops.push(["fail"], ["wait"]);
      const [op] = S.choose("answer" + s, ops);
      if (op === "fail" || op === "wait") { fails++; sv.pending.shift(); p.reject(op === "fail" ? new Error("the request failed") : invalid()); } else if (op === "part") sv.answer(p, k + 1, false); else sv.answer(p, reach, reach === 3);
      await S.settle();
      if (op === "wait") { await S.advance(60000); S.assert(sv.pending.length > 0, "the client does not ask again after it was told to wait"); }
      S.cover(op);
    }
    await t.finish();
  } });
  return cs;
};
