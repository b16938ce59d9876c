"use strict";
// C30 Connections deliver bytes exactly once, in order, under any chunking
const { KINDS, rig, cat, globals } = require("./lib/net.js");
exports.title = "Connections deliver bytes exactly once, in order, under any chunking";
exports.assumptions = ["the operating system delivers the peer's bytes in order and reports the end of a connection to every pending operation before another connection is established", "a disguised-TLS proxy sends nothing between its greeting and the client's first bytes", "HMAC-SHA-256 is a function without further properties"];
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  cs.push({ name: "queue", weight: 2, bounds: `chunks of every size up to 30 bytes and reads of every size in all sequences of up to three pushes and as many reads, ${deep ? "five" : "four"} in all`, covers: ["read", "refused"], run: async (S) => {
    const { ByteQueue } = S.load("connection/0_byte_queue.ts"), q = new ByteQueue(), pushed = [];
    let have = 0, taken = 0;
    const at = (i, f) => { let from = 0; for (const c of pushed) { if (i < from + c.length) return f(c, i - from); from = from + c.length; } };
    for (let k = 0; k < (deep ? 5 : 4); k++) {
      if (pushed.length < 3 && S.choose("op", ["push", "read"]) === "push") { const c = S.blob("chunk", 0, 30); pushed.push(c); q.push(c); have = have + c.length; }
      else {
        const n = S.int("n", 0, 60), r = S.attempt(() => { const d = new Uint8Array(n); q.read(d); return d; });
        S.assert(r.ok === (n <= have), "a read for which there are too few bytes succeeds, or another one fails");
        S.cover(r.ok ? "read" : "refused");
        if (r.ok) { const i = S.int("i", 0, 60); S.assume(i < n); at(taken + i, (c, j) => S.assert(r.value[i] === c[j], "a byte is not the one that was received in its place")); taken = taken + n; have = have - n; }
      }
      S.assert(q.length === have, "the number of bytes in the queue is wrong");
    }
  } });
  cs.push({ name: "queue, many chunks", bounds: "140 chunks of 1 or 2 bytes read in steps of 1, 3 or 5 bytes, with pushes in between", run: async (S) => {
    const { ByteQueue } = S.load("connection/0_byte_queue.ts"), q = new ByteQueue(), data = S.bytes("data", 420), size = S.choose("size", [1, 2]), step = S.choose("step", [1, 3, 5]), burst = S.choose("burst", [70, 140]);
    let at = 0, to = 0;
    const push = (n) => { for (let i = 0; i < n && to + size <= data.length; i++) { q.push(data.slice(to, to + size)); to += size; } };
    push(burst);
    for (let k = 0; k < 130 && q.length >= step; k++) { const d = new Uint8Array(step); q.read(d); S.assertEq(d, data.slice(at, at + step), "a byte is not the one that was received in its place"); at += step; if (k % 7 === 0) push(3); S.assert(q.length === to - at, "the number of bytes in the queue is wrong"); }
    if (S.choose("clear", [true, false])) { q.clear(); S.assert(q.length === 0, "a queue holds something after it was cleared"); q.push(data.slice(0, 2)); const d = new Uint8Array(2); q.read(d); S.assertEq(d, data.slice(0, 2), "a byte is not the one that was received in its place"); }
  } });
  for (const kind of Object.keys(KINDS)) {
    const tls = KINDS[kind].tls;
    cs.push({ name: "reads, " + kind, weight: 3, globals, bounds: `a stream of 7 bytes${tls ? " in records of every size out of four divisions" : ""}, ${deep ? "five" : "four"} steps, each a read of 1 or 3 bytes (without waiting for earlier ones) or the arrival of the next ${tls ? "1, 5 or 9" : "1, 2 or 4"} bytes`, covers: ["read"], run: async (S) => {
      const t = rig(S, kind, { form: kind === "ws" ? S.choose("form", ["buffer", "bytes", "blob"]) : undefined }), data = S.bytes("data", 7), sizes = tls ? S.choose("records", [[7], [1, 6], [3, 0, 4], [2, 2, 2, 1]]) : null, stream = t.frames(data, sizes);
      S.assert((await t.open()).ok && t.c.isConnected && t.states.length === 1 && t.states[0] === true, "a connection is not opened");
      let at = 0, asked = 0; const reads = [];
      const here = () => { if (!tls) return at; let n = 0, i = 0; for (const s of sizes) { i += 5 + s; if (i > at) break; n += s; } return n; };
      const verify = () => { let n = 0; for (const r of reads) { n += r.n; const there = n <= here(); S.assert(there === (r.done !== undefined), there ? "a read does not end although its bytes have arrived" : "a read ends before its bytes have arrived"); if (r.done) { S.assert(r.done.ok, "a read fails"); S.assertEq(r.p, data.slice(n - r.n, n), "a read does not give the bytes that arrived"); } } };
      const read = (n) => { const r = { n, p: new Uint8Array(n) }; asked += n; reads.push(r); S.outcome(Promise.resolve().then(() => t.c.read(r.p))).then((v) => r.done = v); };
      const arrive = (n) => { t.wire.arrive(stream.slice(at, at + n)); at = Math.min(at + n, stream.length); };
      for (let k = 0; k < (deep ? 5 : 4); k++) {
        const ops = []; for (const n of [1, 3]) if (asked + n <= 7) ops.push([read, n]); for (const n of tls ? [1, 5, 9] : [1, 2, 4]) if (at < stream.length) ops.push([arrive, n]);
        if (ops.length === 0) break;
        const [f, n] = S.choose("op", ops); f(n); await S.settle(); verify();
      }
      arrive(stream.length - at); await S.settle(); verify();
      while (asked < 7) { read(Math.min(3, 7 - asked)); await S.settle(); } verify();
      S.cover("read");
      S.assert(S.unhandled().length === 0 && t.c.isConnected && t.states.length === 1, "a connection is disturbed");
    } });
    cs.push({ name: "writes, " + kind, weight: 2, globals, bounds: "three writes of 0 to 3 bytes at once, each accepted by the network as a whole or in every division", covers: ["sent"], run: async (S) => {
      const t = rig(S, kind); await t.open();
      const ps = [0, 1, 2].map((i) => S.bytes("p" + i, S.choose("n" + i, i === 1 ? [3] : [0, 2]))), done = [];
      t.wire.hold = kind !== "ws";
      ps.forEach((p, i) => S.outcome(Promise.resolve().then(() => t.c.write(p))).then((r) => done[i] = r));
      await S.settle();
      for (let k = 0; k < 40 && t.wire.writes?.length > 0; k++) { S.assert(t.wire.writes.length === 1, "writes overtake one another"); const w = t.wire.writes[0], n = KINDS[kind].net === "node" ? w.p.length : tls && w.p.length > 3 ? S.choose("accept", [5, w.p.length]) : S.choose("accept", Array.from({ length: w.p.length }, (_, i) => i + 1)); t.wire.accept(n); await S.settle(); }
      S.assert(done.length === 3 && [0, 1, 2].every((i) => done[i]?.ok), "a write does not end");
      S.assertEq(t.sent(), cat(ps), "what is sent is not what was written");
      S.cover("sent");
    } });
    cs.push({ name: "ends, " + kind, weight: 3, globals, bounds: "a connection that ends in every way after 0 to 3 of 3 bytes, with 0 to 2 reads pending, and is opened again, before or after the old one says that it is closed", covers: ["end", "fail", "close"], run: async (S) => {
      const t = rig(S, kind), a = S.bytes("a", 3), b = S.bytes("b", 3), how = S.choose("how", ["end", "fail", "close"]), late = KINDS[kind].net !== "deno" && how === "close" && S.choose("late", [true, false]), n = S.choose("arrived", [0, 1, 2, 3]), reads = [];
      S.cover(how);
      await t.open();
      const stream = t.frames(a, [2, 1]);
      t.wire.arrive(tls ? stream.slice(0, [0, 1, 6, 9][n]) : stream.slice(0, n)); await S.settle();
      const pend = S.choose("reads", [0, 1, 2]);
      for (let i = 0; i < pend; i++) { const r = { p: new Uint8Array(4) }; reads.push(r); S.outcome(Promise.resolve().then(() => t.c.read(r.p))).then((v) => r.done = v); }
      await S.settle();
      const old = t.wire;
      if (how === "close") t.c.close(); else old[how]();
      if (!late) { old.gone(); await S.settle(); }
      // without a read or a write a connection may not notice
      if (how !== "close" && t.c.isConnected) { const r = await S.peek(S.outcome(Promise.resolve().then(() => t.c.read(new Uint8Array(4))))); S.assert(r !== "pending" && !r.value.ok, "a read from a connection that ended does not fail"); }
      if (!late) S.assert(reads.every((r) => r.done && !r.done.ok), "a read does not fail although the connection ended");
      S.assert(!t.c.isConnected, "a connection that ended is taken for open");
      if (how !== "close") S.assert(t.states[t.states.length - 1] === false, "the end of a connection is not announced");
      const r = await S.outcome(Promise.resolve().then(() => t.c.read(new Uint8Array(1)))), w = await S.outcome(Promise.resolve().then(() => t.c.write(new Uint8Array(1))));
      S.assert(!r.ok && !w.ok, "a connection that ended can be used");
      if (S.choose("refused", [true, false])) { t.refuse = true; S.assert(!(await t.open()).ok && !t.c.isConnected, "a connection that was refused counts as open"); t.refuse = false; if (late) old.gone(); await S.settle(); }
      S.assert((await t.open()).ok && t.c.isConnected, "a connection cannot be opened again");
      if (late) { old.gone(); await S.settle(); S.assert(reads.every((r) => r.done && !r.done.ok), "a read does not fail although the connection was closed"); }
      S.assert(t.c.isConnected, "a connection is disturbed by the end of the one before");
      const p = new Uint8Array(2), q = S.outcome(Promise.resolve().then(() => t.c.read(p)));
      await S.settle(); t.wire.arrive(t.frames(b, [3]));
      const v = await S.peek(q);
      S.assert(v !== "pending" && v.value.ok, "a connection that was opened again cannot be read from"); S.assertEq(p, b.slice(0, 2), "a connection that was opened again gives bytes of the one before");
      S.assert((await S.outcome(Promise.resolve().then(() => t.c.write(b)))).ok, "a connection that was opened again cannot be written to"); S.assertEq(t.sent(), b, "what is sent is not what was written");
      S.assert(S.unhandled().length === 0, "an error is raised that nobody can catch");
    } });
    if (!tls) continue;
    cs.push({ name: "records, " + kind, weight: 3, globals, bounds: "writes of every length up to 9000 bytes (their division), and every content of ten lengths around the size of a record", covers: ["many"], run: async (S) => {
      const t = rig(S, kind); await t.open();
      const any = S.choose("any", [true, false]), data = any ? S.blob("data", 0, 9000) : S.bytes("data", S.choose("n", [0, 1, 2872, 2873, 2874, 2878, 5745, 5746, 5747, 8620]));
      const r = await S.outcome(Promise.resolve().then(() => t.c.write(data))); S.assert(r.ok, "a write fails");
      if (!any) { S.assertEq(t.sent(), data, "what is sent is not what was written"); return; }
      let at = 0; const chunks = t.wire.sent;
      for (let k = 0; k < chunks.length; k++) {
        const from = k === 0 ? 6 : 0, c = chunks[k]; if (k === 0) S.assertEq(c.slice(0, 6), new Uint8Array([0x14, 3, 3, 0, 1, 1]), "what is sent does not begin with the prescribed record");
        const m = c.length - 5 - from; S.assert(m > 0 && m <= 16384 && c[from] === 0x17 && c[from + 1] === 3 && c[from + 2] === 3 && c[from + 3] * 256 + c[from + 4] === m, "a record of a wrong size is sent");
        at = at + m;
      }
      if (chunks.length > 2) S.cover("many");
      S.assert(at === data.length, "too much or too little is sent");
    } });
    cs.push({ name: "large records, " + kind, weight: 2, globals, bounds: "every content of two records of 0, 1, 255, 256, 300 and 5000 bytes, read in two reads of seven sizes", covers: ["read"], run: async (S) => {
      const t = rig(S, kind); await t.open();
      const a = S.bytes("a", S.choose("a.n", [0, 1, 255, 256, 300, 5000])), b = S.bytes("b", S.choose("b.n", [0, 256, 5000])), all = cat([a, b]);
      let at = 0;
      for (const x of [a, b]) { t.wire.arrive(new Uint8Array([0x17, 3, 3, x.length >> 8, x.length & 255])); t.wire.arrive(x); }
      for (let k = 0; k < 2; k++) {
        const size = S.choose("size", [1, 255, 256, 300, 5000, 5001, 10000].filter((n) => at + n <= all.length).concat(all.length - at > 0 ? [all.length - at] : [])); if (size === undefined) break;
        const p = new Uint8Array(size), r = await S.peek(S.outcome(Promise.resolve().then(() => t.c.read(p)))); S.assert(r !== "pending" && r.value.ok, "a read does not end although its bytes have arrived"); if (r === "pending") return;
        S.assertEq(p, all.slice(at, at + size), "a read does not give the bytes that arrived"); S.cover("read");
        at += size;
      }
    } });
    cs.push({ name: "handshake, " + kind, weight: 2, globals, bounds: "every answer of the proxy with 60 and 3 bytes in its records, in every one of six divisions, with every digest, and with every change of its fixed bytes; answers that end too early", covers: ["accepted", "refused", "altered", "cut"], run: async (S) => {
      const t = rig(S, kind), what = S.choose("what", ["digest", "altered", "cut"]), wires = t.wires.length, p = S.outcome(Promise.resolve().then(() => t.c.open()));
      await S.settle();
      const hello = cat(t.wire.sent), a = await t.answer(hello, S.bytes("body", 60), S.bytes("tail", 3));
      const diff = what === "digest" ? S.bytes("diff", 32) : new Uint8Array(32), same = S.eq(diff, new Uint8Array(32));
      for (let i = 0; i < 32; i++) a[11 + i] ^= diff[i];
      if (what === "altered") { const i = S.choose("at", [0, 1, 2, 65, 66, 67, 68, 69, 70, 71, 72, 73]), v = S.int("v", 0, 255); S.assume(v !== a[i]); a[i] = v; }
      const cuts = what === "cut" ? [S.choose("cut", [0, 4, 5, 40, 66, a.length - 1])] : S.choose("cuts", [[], [1], [5], [4, 66], [11, 43], [65, 70, 76]]);
      let from = 0; for (const c of what === "cut" ? cuts : [...cuts, a.length]) { if (c > from) t.wire.arrive(a.slice(from, c)); from = c; await S.settle(); }
      if (what === "cut") { S.cover("cut"); S.assert(!t.c.isConnected, "a connection counts as open before the proxy's answer has arrived"); if (S.choose("fail", [true, false])) t.wire.fail(); else t.wire.end(); }
      const r = await S.peek(p);
      const good = what === "digest" && same;
      S.assert(r !== "pending", "opening a connection does not end"); if (r === "pending") return;
      S.cover(what === "altered" ? "altered" : what === "cut" ? "cut" : r.value.ok ? "accepted" : "refused");
      S.assert(r.value.ok === good, "an answer without the right digest or form is accepted, or a right one is refused");
      S.assert(t.c.isConnected === good, "the state of a connection does not fit the outcome of its handshake");
      S.assertEq(t.states, good ? [true] : [], "a wrong state is announced");
      if (!good) { S.assert(t.wire.closed > 0 || t.wire.destroyed || what === "cut", "a connection whose handshake failed is left open"); S.assert((await t.open()).ok && t.c.isConnected, "a connection cannot be opened after a failed handshake"); }
      S.assert(S.unhandled().length === 0, "an error is raised that nobody can catch");
    } });
    cs.push({ name: "broken record, " + kind, globals, bounds: "every first three bytes of a record other than the prescribed ones", run: async (S) => {
      const t = rig(S, kind); await t.open();
      const h = S.bytes("h", 3); S.assume(!S.eq(h, new Uint8Array([0x17, 3, 3])));
      t.wire.arrive(cat([h, [0, 2, 7, 7]]));
      const r = await S.peek(S.outcome(Promise.resolve().then(() => t.c.read(new Uint8Array(1))))); S.assert(r !== "pending" && !r.value.ok, "something that is not a record is taken for one");
    } });
  }
  cs.push({ name: "hello", weight: 2, bounds: `every secret, every domain name of ${deep ? "0 to 24 bytes, 40 and 100" : "0, 1, 9, 24 and 100"} bytes, every time until 2038`, covers: ["domain"], run: async (S) => {
    S.fixedRandom();
    const n = S.choose("length", deep ? [...Array(25).keys(), 40, 100] : [0, 1, 9, 24, 100]), secret = S.bytes("secret", 16), domain = S.bytes("domain", n), ms = S.int("ms", 0, 0x7fffffff * 1000), now = Math.floor(ms / 1000);
    S.nowHook(() => ms);
    const h = await S.load("connection/0_get_tls_header.ts").getTlsHeader(cat([secret, domain])), u16 = (i) => S.conc(h[i]) * 256 + S.conc(h[i + 1]);
    S.assertEq(h.length, 517, "the hello has a wrong size");
    // a record with one client hello in it
    S.assertEq([h[0], h[1], h[2]], [0x16, 3, 1], "the hello is not a record"); S.assertEq(u16(3), h.length - 5, "the hello's record has a wrong size");
    S.assertEq([h[5], h[6]], [1, 0], "the record holds no hello"); S.assertEq(u16(7), h.length - 9, "the hello has a wrong size"); S.assertEq([h[9], h[10]], [3, 3], "the hello has a wrong version");
    let i = 43; S.assertEq(h[i], 32, "the hello has no session"); i += 33;
    const suites = u16(i); S.assert(suites % 2 === 0 && suites > 0, "the list of ciphers has a wrong size"); i += 2 + suites; S.assertEq([h[i], h[i + 1]], [1, 0], "the hello offers compression"); i += 2;
    S.assertEq(u16(i), h.length - i - 2, "the extensions have a wrong size"); i += 2;
    let name = null; const kinds = [];
    while (i < h.length) { const kind = u16(i), len = u16(i + 2); S.assert(i + 4 + len <= h.length, "an extension has a wrong size"); kinds.push(kind); if (kind === 0) name = i + 4; if (kind === 0x33) { S.assertEq(u16(i + 4), len - 2, "the key exchange has a wrong size"); } i += 4 + len; }
    S.assertEq(i, h.length, "an extension has a wrong size"); S.assert(new Set(kinds).size === kinds.length, "an extension is repeated");
    S.assert(name !== null && kinds.includes(0x33) && kinds.includes(0x2b), "an extension is missing");
    S.assertEq([u16(name), h[name + 2], u16(name + 3)], [n + 3, 0, n], "the domain name has a wrong size"); S.assertEq(h.slice(name + 5, name + 5 + n), domain, "the domain name is wrong"); S.cover("domain");
    // the digest by which the proxy recognises its clients
    const z = h.slice(); z.fill(0, 11, 43);
    const d = await S.load("1_utilities.ts").hmacSha256(z, secret);
    S.assertEq(h.slice(11, 39), d.slice(0, 28), "the digest is wrong");
    const v = new DataView(h.buffer, h.byteOffset).getUint32(39, true), w = new DataView(d.buffer, d.byteOffset).getUint32(28, true);
    S.assert(((v ^ w) >>> 0) === now, "the digest does not carry the time");
  } });
  return cs;
};
