"use strict";
// C12 Every request settles exactly once with its own reply
const { rig, B, ID, u32, bytesOf, acked, gzipModel } = require("./lib/session.js");
exports.title = "Every request settles exactly once with its own reply";
exports.assumptions = ["the server follows the protocol: it replies only to identifiers it received, and its messages are authentic (C10)", "AES of a packet and SHA-256 are arbitrary functions, compression an arbitrary invertible coding", "replies are to one API function; their content is symbolic"];
const RESULT = 0x84d19185, UPDATE = 0xe317af7e;
const call = (i) => ({ _: "messages.readMessageContents", id: [1000 + i] });
async function start(S, n, { random = true } = {}) {
  S.fixedRandom();
  const gz = gzipModel(S);
  const t = await rig(S, { client: {} });
  t.gz = gz; t.serverId = 0x65555555n << 32n | 1n; t.nextId = () => t.serverId += 4n;
  t.updates = 0; t.received = 0; t.client.handlers.onUpdate = (u) => { S.assert(u._ === "updatesTooLong", "an update is altered"); t.received++; };
  t.requests = []; t.toAck = []; t.salt = t.session.serverSalt;
  const { Api } = S.load("2_tl.ts");
  t.invoke = (i) => { const r = t.requests[i] = { live: undefined, state: "open", sends: 0 }; r.tail = [...Api.serializeObject(call(i))]; t.client.invoke(call(i)).then((value) => { r.state = "done"; r.value = value; }, (error) => { r.state = "failed"; r.error = error; }); };
  // the server takes what was sent
  t.take = async () => {
    for (const p of await t.read()) {
      const ms = p.messages ?? [p];
      S.assert(p.session === t.session.id, "a packet of another session is sent");
      S.assert(p.salt === t.salt, "a packet does not carry the salt the server gave");
      for (const m of ms) {
        const a = acked(m.body);
        if (a !== null) { for (const x of a) { S.assert(x <= t.serverId && x > 0x65555555n << 32n, "a message is acknowledged that was not received"); t.toAck = t.toAck.filter((y) => y !== x); } (t.ackedIn ??= new Map()).set(p.msgId, a); continue; }
        const r = t.requests.find((r) => S.eq([...m.body.slice(-r.tail.length)], r.tail));
        S.assert(r !== undefined, "something is sent that was not requested");
        S.assert(r.state === "open" && r.expect === undefined, "a settled request is sent again");
        S.assert(r.live === undefined, "a request is sent twice");
        r.live = m.msgId; r.container = p.messages ? p.msgId : undefined; r.seqno = m.seqno; r.sends++;
      }
    }
  };
  for (let i = 0; i < n; i++) t.invoke(i);
  await S.settle();
  await t.take();
  return t;
}
// what the requests must look like now
function verify(S, t) {
  for (const r of t.requests) {
    if (r.expect === undefined) { S.assert(r.state === "open", "a request settles without a reply or a failure"); S.assert(r.live !== undefined, "an open request is neither sent nor failed"); continue; }
    if (r.expect === "failure") { S.assert(r.state !== "open", "a request never settles"); S.assert(r.state === "failed", "a failed request yields a result"); continue; }
    if (r.expect.pts !== undefined) { S.assert(r.state === "done", "a request with a result does not yield it"); S.assertEq(r.value, { _: "messages.affectedMessages", pts: r.expect.pts, pts_count: r.expect.count }, "a request yields another result"); } else {
      S.assert(r.state === "failed", "a request with an error does not fail");
      S.assert(r.error.errorMessage === r.expect.text && r.error.errorCode === r.expect.code, "a request fails with another error");
    }
  }
  S.assert(t.received === t.updates, "an update is lost or repeated");
}
const open = (t) => t.requests.filter((r) => r.expect === undefined);
// the body of a reply; effects on the oracle
function reply(S, t, kind, r) {
  const id = r.live;
  if (kind === "result" || kind === "gzip") {
    const pts = S.int("pts", -(2 ** 31), 2 ** 31 - 1), count = S.int("count", -(2 ** 31), 2 ** 31 - 1);
    const body = [...bytesOf(RESULT, 4), ...bytesOf(pts, 4), ...bytesOf(count, 4)];
    if (r.expect === undefined) r.expect = { pts, count };
    return B.result(id, kind === "gzip" ? B.gzip([...t.gz.compress(new Uint8Array(body))]) : body);
  }
  if (kind === "error") { if (r.expect === undefined) r.expect = { code: 400, text: "MESSAGE_ID_INVALID" }; return B.result(id, B.error(400, "MESSAGE_ID_INVALID")); }
}
const EVENTS = ["result", "gzip", "error", "salt", "low", "high", "wrong", "drop", "disconnect", "unknown", "duplicate", "update", "both", "newSession", "detailed", "notInited", "gzipAll", "invoke"];
async function event(S, t, e, i) {
  const r = open(t)[i % Math.max(1, open(t).length)];
  const say = async (body, ack = true, seqno = 1) => { const msgId = t.nextId(); if (ack) t.toAck.push(msgId); await t.say({ msgId, seqno, body }); };
  const rejected = (id) => { const a = t.ackedIn?.get(id); if (a) t.toAck.push(...a); };
  if (["result", "gzip", "error", "salt", "low", "high", "wrong", "duplicate", "both", "notInited", "gzipAll"].includes(e) && !r) return false;
  if (e === "result" || e === "gzip" || e === "error") await say(reply(S, t, e, r));
  else if (e === "gzipAll") await say(B.gzip([...t.gz.compress(new Uint8Array(reply(S, t, "result", r)))]));
  else if (e === "duplicate") { await say(reply(S, t, "result", r)); await say(reply(S, t, S.choose("second", ["result", "error"]), r)); }
  else if (e === "both") { // replies to two requests and an update in one container
    const rs = open(t); const two = i ? [rs[rs.length - 1], rs[0]] : [rs[0], rs[rs.length - 1]];
    const ms = [...new Set(two)].map((r, k) => { const msgId = t.nextId(); t.toAck.push(msgId); return { msgId, body: reply(S, t, k ? "error" : "result", r) }; });
    const u = t.nextId(); t.toAck.push(u); t.updates++;
    ms.splice(1, 0, { msgId: u, body: bytesOf(UPDATE, 4) });
    await say(B.container(ms), false, 6);
  } else if (e === "update") { t.updates++; await say(i ? B.gzip([...t.gz.compress(new Uint8Array(bytesOf(UPDATE, 4)))]) : bytesOf(UPDATE, 4)); }
  else if (e === "unknown") await say(B.result(12345n, [...bytesOf(RESULT, 4), 1, 0, 0, 0, 1, 0, 0, 0]));
  else if (e === "detailed") { const a = t.nextId(); t.toAck.push(a); await say(i ? B.newDetailed(a) : B.detailed(r?.live ?? 4n, a), false, 0); }
  else if (e === "newSession") { t.salt = S.big("salt", -(2n ** 63n), 2n ** 63n - 1n); await say(B.newSession(4n, 99n, t.salt)); }
  else if (e === "notInited") { await say(B.result(r.live, B.error(400, "CONNECTION_NOT_INITED"))); r.live = undefined; }
  else if (e === "salt" || e === "low") {
    // the whole packet is refused when the request travels in a container
    const bad = r.container ?? r.live;
    const all = r.container ? t.requests.filter((x) => x.container === r.container && x.live !== undefined && x.expect === undefined) : [r];
    rejected(r.container);
    for (const x of all) x.live = undefined;
    if (e === "salt") { t.salt = S.big("salt", -(2n ** 63n), 2n ** 63n - 1n); await say(B.badSalt(bad, r.seqno, t.salt), false, 0); } else await say(B.badMsg(bad, r.seqno, i ? 48 : 16), false, 0);
  } else if (e === "high" || e === "wrong") {
    const bad = r.live;
    for (const x of open(t)) x.live = undefined;
    t.salt = 0n; t.toAck.length = 0; t.newSession = true;
    await say(B.badMsg(bad, r.seqno, e === "high" ? 17 : S.choose("code", [32, 33, 64])), false, 0);
  } else if (e === "drop") {
    t.drop();
    for (const x of open(t)) x.expect = "failure";
    if (i) { let n = 2; t.failOpen = () => n-- > 0 ? new Error("refused") : null; }
    t.newSession = true;
    await S.advance(20000);
    t.failOpen = null;
    S.assert(t.connection.isConnected, "a lost connection is not restored");
  } else if (e === "disconnect") {
    t.client.disconnect();
    for (const x of open(t)) x.expect = "failure";
    await S.settle();
    verify(S, t);
    t.salt = 0n; t.newSession = true;
    await t.client.connect();
    await S.settle();
  } else if (e === "invoke") { t.invoke(t.requests.length); await S.settle(); }
  await S.settle();
  await t.take();
  verify(S, t);
  return true;
}
async function finish(S, t) {
  // a further request carries the outstanding acknowledgements
  if (!t.newSession && t.toAck.length) {
    t.invoke(t.requests.length); await S.settle(); await t.take(); verify(S, t);
    S.assert(t.toAck.length === 0, "a received message is never acknowledged");
  }
  t.client.disconnect();
  for (const x of open(t)) x.expect = "failure";
  await S.settle();
  verify(S, t);
  S.assert(t.requests.every((r) => r.state !== "open"), "a request never settles");
}
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const DEPTH = deep ? 3 : 2;
  for (const first of EVENTS) {
    cs.push({ name: "history-" + first, bounds: `two requests at once, then ${DEPTH} events beginning with "${first}", each one of ${EVENTS.length} kinds (results, errors, compressed ones, refusals for salt or identifiers, containers, notices, updates, lost connections, disconnection, a further request) aimed at either request, every result and salt`, weight: 2, run: async (S) => {
      const t = await start(S, 2);
      for (let k = 0; k < DEPTH; k++) {
        const e = k ? S.choose("event", EVENTS) : first;
        const i = ["unknown", "newSession", "disconnect", "invoke"].includes(e) ? 0 : S.choose("which", [0, 1]);
        if (!await event(S, t, e, i)) break;
      }
      await finish(S, t);
    } });
  }
  cs.push({ name: "early-reply", bounds: "a reply arriving before the write completes, to the first of two requests", run: async (S) => {
    const t = await start(S, 0);
    const pts = S.int("pts", -(2 ** 31), 2 ** 31 - 1);
    let release;
    t.hold = new Promise((r) => release = r);
    t.invoke(0); t.invoke(1);
    await S.settle();
    await t.take();
    const r = t.requests[0];
    S.assert(r.live !== undefined && t.requests[1].live === undefined, "writes overlap");
    const error = S.choose("error", [false, true]);
    r.expect = error ? { code: 400, text: "MESSAGE_ID_INVALID" } : { pts, count: 7 };
    await t.say({ msgId: t.nextId(), seqno: 1, body: B.result(r.live, error ? B.error(400, "MESSAGE_ID_INVALID") : [...bytesOf(RESULT, 4), ...bytesOf(pts, 4), 7, 0, 0, 0]) });
    t.toAck = [t.serverId];
    t.hold = null;
    release();
    await S.settle();
    await t.take();
    verify(S, t);
    await finish(S, t);
  } });
  cs.push({ name: "failing-writes", bounds: "0 to 12 failing writes of a request, with or without an acknowledgement, while the connection stays up", run: async (S) => {
    const t = await start(S, 0);
    if (S.choose("update", [false, true])) await event(S, t, "update", 0);
    let n = S.choose("failures", [0, 1, 2, 9, 10, 12]); const fails = n;
    t.failSend = () => n-- > 0 ? new Error("write failed") : null;
    t.invoke(0);
    await S.settle();
    await t.take();
    const r = t.requests[0];
    if (fails >= 10) { S.assert(r.live === undefined && r.state === "failed", "a request that cannot be written does not fail"); return; }
    S.assert(r.live !== undefined && r.sends === 1, "a request is not sent once after failing writes");
    await event(S, t, "result", 0);
    n = 0;
    await finish(S, t);
  } });
  cs.push({ name: "interrupted", bounds: "one to three requests, the first of which is being written and has been rejected already, or whose connection is lost or stopped; the write succeeds or fails then", covers: ["high", "wrong", "drop", "disconnect"], run: async (S) => {
    const t = await start(S, 0), n = S.choose("requests", [1, 2, 3]);
    let release, fail;
    t.hold = new Promise((a, b) => { release = a; fail = b; });
    for (let i = 0; i < n; i++) t.invoke(i);
    await S.settle();
    await t.take();
    const r = t.requests[0], how = S.choose("how", ["high", "wrong", "drop", "disconnect"]), end = S.choose("write", ["succeeds", "fails"]);
    S.cover(how);
    S.assert(r.live !== undefined && t.requests.slice(1).every((r) => r.live === undefined), "writes overlap");
    const bad = r.live;
    t.hold = null;
    if (how === "drop") t.drop(); else if (how === "disconnect") t.client.disconnect(); else await t.say({ msgId: t.nextId(), seqno: 1, body: B.badMsg(bad, r.seqno, how === "high" ? 17 : 32) });
    if (end === "succeeds") release(); else fail(new Error("write failed"));
    await S.settle();
    await S.advance(20000);
    if (how === "disconnect") { t.requests.forEach((r) => r.expect = "failure"); verify(S, t); t.salt = 0n; await t.client.connect(); await S.settle(); }
    if (how === "high" || how === "wrong") t.salt = 0n;
    r.live = undefined;
    for (const r of t.requests) if (how === "drop" && r.state === "failed") r.expect = "failure";
    t.newSession = true;
    await t.take();
    verify(S, t);
    t.invoke(n); await S.settle(); await t.take(); verify(S, t);
    for (let k = 0; k <= n && open(t).length; k++) await event(S, t, "result", 0);
    S.assert(open(t).length === 0, "a request never settles");
    await finish(S, t);
  } });
  cs.push({ name: "while-disconnected", bounds: "requests made while the connection is lost, before it is restored, or given up", run: async (S) => {
    const t = await start(S, 1);
    t.requests[0].expect = "failure";
    t.drop();
    let refuse = true;
    t.failOpen = () => refuse ? new Error("refused") : null;
    await S.advance(S.choose("before", [0, 1000, 7000]));
    t.invoke(1);
    await S.settle();
    S.assert(t.requests[1].state === "open" && t.sent.length === 0, "a request made while the connection is lost does not wait");
    if (S.choose("then", ["restored", "given up"]) === "restored") {
      refuse = false;
      await S.advance(20000);
      await t.take();
      verify(S, t);
      t.newSession = true;
      await event(S, t, "result", 0);
    } else {
      t.client.disconnect();
      await S.advance(10000);
      S.assert(t.requests[1].state === "failed", "a request made while the connection is lost does not fail when the session is stopped");
      t.requests[1].expect = "failure";
    }
    await finish(S, t);
  } });
  cs.push({ name: "ping", bounds: "the session's own pings over five minutes, answered, refused for their salt, or left unanswered once; pings by the user", run: async (S) => {
    S.fixedRandom();
    const t = await rig(S, { client: {} });
    let id = 0x65555555n << 32n | 1n, pings = 0, refuse = S.choose("refuse", [0, 1, 2, 99]);
    for (let i = 0; i < 5; i++) {
      await S.advance(57000);
      for (let again = true; again;) {
        again = false;
        for (const p of await t.read()) for (const m of p.messages ?? [p]) {
          if (u32(m.body, 0) !== ID.ping_delay) continue;
          pings++;
          if (pings === refuse) { t.salt += 5n; await t.say({ msgId: id += 4n, body: B.badSalt(p.msgId, p.seqno, t.salt) }); again = true; } else await t.say({ msgId: id += 4n, body: [...bytesOf(ID.pong, 4), ...bytesOf(m.msgId, 8), ...m.body.slice(4, 12)] });
        }
      }
    }
    S.assert(pings >= 4, "the session stops sending pings");
    const ping_id = S.big("ping", -(2n ** 63n), 2n ** 63n - 1n);
    const p = t.client.invoke({ _: "ping", ping_id });
    await S.settle();
    const [q] = await t.read();
    const m = (q.messages ?? [q])[0];
    S.assertEq(m.body, new Uint8Array([...bytesOf(0x7abe77ec, 4), ...bytesOf(ping_id, 8)]), "a ping is altered");
    await t.say({ msgId: id += 4n, body: B.pong(m.msgId, ping_id) });
    S.assertEq(await S.peek(p), { value: { _: "pong", msg_id: m.msgId, ping_id } }, "a ping does not yield its pong");
    t.client.disconnect();
    await S.settle();
  } });
  return cs;
};
