"use strict";
// C09 Outgoing message identifiers increase and sequence numbers are well formed
const { rig, B, ID, acked, bytesOf } = require("./lib/session.js");
exports.title = "Outgoing message identifiers increase and sequence numbers are well formed";
exports.assumptions = ["clock readings are whole milliseconds between 1970 and 2038", "AES of a packet and SHA-256 are arbitrary functions (the wire format itself: C11)"];
const MAX = 2 ** 31 * 1000;
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const STEPS = deep ? 8 : 5;
  cs.push({ name: "state", bounds: `${STEPS} messages, every clock reading at each (standing still and going backwards included), every clock offset below 2^31 s, every mixture of content-related and service messages`, run: async (S) => {
    const { SessionState } = S.load("session/0_session_state.ts");
    const s = new SessionState();
    const offset = S.int("offset", -(2 ** 31), 2 ** 31);
    s.timeDifference = offset;
    let prev, content = 0;
    const ids = [];
    for (let i = 0; i < STEPS; i++) {
      const ms = S.int("ms", 0, MAX - 1);
      S.nowHook(() => ms);
      const time = BigInt(Math.floor(ms / 1000) + offset);
      S.assume(time >= 0n);
      const preview = s.previewNextMessageId();
      const id = s.nextMessageId();
      S.assert(preview === id, "the previewed identifier is not the one used");
      S.assert(id % 4n === 0n, "an identifier is not a multiple of four");
      if (i) S.assert(id > prev, "an identifier is not greater than the one before");
      if (i === 0 || (prev >> 32n) < time) S.assert(id >> 32n === time, "an identifier does not reflect the server time");
      else S.assert(id <= prev + 2n ** 32n, "an identifier runs ahead of the server time");
      prev = id;
      ids.push(id);
      const related = S.bool("related");
      const seqno = s.nextSeqNo(related);
      S.assert(seqno === 2 * content + (related ? 1 : 0), "a sequence number does not count the content-related messages");
      if (related) content++;
    }
    S.note("ids", ids);
  } });
  cs.push({ name: "reset", bounds: "two messages, a reset, two messages; every clock reading", run: async (S) => {
    const { SessionState } = S.load("session/0_session_state.ts");
    const s = new SessionState();
    s.timeDifference = S.int("offset", -100, 100);
    const time = () => { const ms = S.int("ms", 10 ** 6, MAX - 1); S.nowHook(() => ms); return BigInt(Math.floor(ms / 1000) + s.timeDifference); };
    for (let i = 0; i < 2; i++) { time(); s.nextMessageId(); s.nextSeqNo(true); }
    s.reset();
    for (let i = 0; i < 2; i++) { const t = time(); const id = s.nextMessageId(); if (i === 0) S.assert(id >> 32n === t, "the first identifier of a new session does not reflect the server time"); S.assert(id % 4n === 0n, "an identifier is not a multiple of four"); S.assert(s.nextSeqNo(true) === 2 * i + 1, "a new session does not count its messages from zero"); }
  } });
  // every message as the server sees it, containers opened
  const flat = (packets) => packets.flatMap((p) => p.messages ? [...p.messages, p] : [p]);
  const check = (S, list, from) => {
    let prev = from.id, content = from.content;
    const sorted = [...list];
    for (const m of sorted) {
      S.assert(m.msgId % 4n === 0n, "an identifier is not a multiple of four");
      S.assert(m.msgId > prev, "a message has an identifier not greater than those before");
      prev = m.msgId;
      const related = !m.messages && acked(m.body) === null;
      S.assert(m.seqno === 2 * content + (related ? 1 : 0), "a sequence number does not count the content-related messages");
      if (related) content++;
    }
    return { id: prev, content };
  };
  const N = deep ? 4 : 3;
  cs.push({ name: "session", bounds: `${N} requests sent through a session, each after nothing or after one or two received updates to acknowledge, every clock reading at each send, a failing send at any of them`, weight: 2, run: async (S) => {
    S.fixedRandom();
    const t = await rig(S);
    let ms = 1.7e12, server = 0x65555555n << 32n | 1n;
    S.nowHook(() => ms);
    let at = { id: -1n, content: 0 };
    const failing = S.choose("failing", [undefined, 0, 1]);
    const all = [];
    for (let i = 0; i < N; i++) {
      ms = S.int("ms", 1.6e12, 1.8e12);
      for (let k = S.choose("updates", [0, 1, 2]); k > 0; k--) { server += 4n; await t.say({ msgId: server, seqno: 1, body: bytesOf(0x12345678, 4) }); }
      if (i === failing) {
        t.failSend = () => new Error("write failed");
        let undone = 0;
        const r = await S.outcome(t.session.send(new Uint8Array(8).fill(i), () => () => { undone++; }));
        t.failSend = null;
        S.assert(!r.ok, "a failed write is not reported");
        S.assert(undone === 1, "a failed write leaves the message registered");
        continue;
      }
      let told;
      const preview = t.session.previewNextMessageId();
      await t.session.send(new Uint8Array(8).fill(i + 1), (id) => { told = id; return () => {}; });
      const ps = await t.read();
      S.assert(ps.length === 1, "one request is not sent as one packet");
      const list = flat(ps);
      S.assert(list[0].msgId === told && told === preview, "the identifier told is not the one sent");
      all.push(...list);
    }
    if (failing === undefined) check(S, all, at);
    else { let prev = -1n, seq = -1; for (const m of all) { S.assert(m.msgId > prev && m.msgId % 4n === 0n, "a message has an identifier not greater than those before"); S.assert((m.seqno & 1) === (!m.messages && acked(m.body) === null ? 1 : 0), "a sequence number has the wrong parity"); S.assert(m.seqno >= seq, "a sequence number goes back"); prev = m.msgId; seq = m.seqno; } }
    t.session.disconnect(); await S.settle();
  } });
  cs.push({ name: "clock-correction", bounds: "a notice that identifiers are too low or too high, after any earlier such notice, every server and client time", run: async (S) => {
    S.fixedRandom();
    const t = await rig(S);
    let ms = 1.7e12;
    S.nowHook(() => ms);
    const rounds = S.choose("rounds", [1, 2]);
    let session = t.session.id;
    for (let i = 0; i < rounds; i++) {
      ms = S.int("ms", 1.6e12, 1.8e12);
      let id;
      await t.session.send(new Uint8Array(8).fill(1), (x) => { id = x; return () => {}; });
      const [p] = await t.read();
      const time = S.int("server", 1.6e9, 1.8e9);
      const code = S.choose("code", [16, 17]);
      // the notice is true
      if (code === 16) S.assume(p.msgId >> 32n < BigInt(time)); else S.assume(p.msgId >> 32n > BigInt(time));
      await t.say({ msgId: BigInt(time) << 32n | 1n, body: B.badMsg(id, p.seqno, code) });
      const sent = await t.read();
      let next;
      await t.session.send(new Uint8Array(8).fill(2), (x) => { next = x; return () => {}; });
      const [q] = await t.read();
      if (code === 17) { S.assert(q.session !== session, "a session whose identifiers ran ahead is kept"); S.assert(q.seqno === 1, "a new session does not count from zero"); session = q.session; }
      S.assert(next >> 32n === BigInt(time), "identifiers do not follow the server's time after its notice");
    }
    t.session.disconnect(); await S.settle();
  } });
  return cs;
};
