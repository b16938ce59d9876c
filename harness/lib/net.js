"use strict";
// Network doubles for the connection classes: Deno connections, node sockets and web sockets that do what a check tells them to.
exports.DENO = { connect: null, env: { get() {} }, errors: { NotCapable: class extends Error {} }, noColor: true };
exports.KINDS = {
  "tcp": { file: "connection/1_connection_tcp.ts", cls: "ConnectionTCP", net: "deno" },
  "tls": { file: "connection/1_connection_tls.ts", cls: "ConnectionTLS", net: "deno", tls: true },
  "socks5": { file: "connection/1_connection_socks5.ts", cls: "ConnectionSocks5", net: "deno", socks: true },
  "tcp.node": { file: "connection/1_connection_tcp.node.ts", cls: "ConnectionTCP", net: "node" },
  "tls.node": { file: "connection/1_connection_tls.node.ts", cls: "ConnectionTLS", net: "node", tls: true },
  "socks5.node": { file: "connection/1_connection_socks5.node.ts", cls: "ConnectionSocks5", net: "node", socks: true },
  "ws": { file: "connection/1_connection_web_socket.ts", cls: "ConnectionWebSocket", net: "ws" },
};
const cat = (xs) => { let n = 0; for (const x of xs) n += x.length; const r = new Uint8Array(n); n = 0; for (const x of xs) { r.set(x, n); n += x.length; } return r; };
exports.cat = cat;
class DenoConn {
  constructor() { this.q = []; this.waiting = []; this.sent = []; this.writes = []; this.hold = false; this.ended = false; this.failed = false; this.closed = 0; this.events = []; }
  setNoDelay() {} setKeepAlive() {}
  read(p) { return new Promise((res, rej) => { if (this.closed) { rej(new Error("closed")); return; } this.waiting.push({ p, res, rej }); this.pump(); }); }
  pump() {
    while (this.waiting.length > 0 && (this.failed || this.q.length > 0 || this.ended)) {
      const w = this.waiting.shift();
      if (this.failed) w.rej(new Error("reset"));
      else if (this.q.length > 0) {
        const chunk = this.q[0], all = chunk.length <= w.p.length, n = all ? chunk.length : w.p.length;
        w.p.set(chunk.subarray(0, n)); if (all) this.q.shift(); else this.q[0] = chunk.subarray(n); w.res(n);
      } else w.res(null);
    }
  }
  write(p) { return new Promise((res, rej) => { if (this.failed || this.closed) { rej(new Error("closed")); return; } if (this.hold) { this.writes.push({ p, res, rej }); return; } this.sent.push(p.slice()); res(p.length); }); }
  // accept n bytes of the oldest write
  accept(n) { const w = this.writes.shift(); this.sent.push(w.p.slice(0, n)); w.res(n); }
  arrive(b) { this.q.push(b); this.pump(); }
  end() { this.ended = true; this.pump(); }
  fail() { this.failed = true; this.pump(); while (this.writes.length > 0) this.writes.shift().rej(new Error("reset")); }
  close() { this.closed++; while (this.waiting.length > 0) this.waiting.shift().rej(new Error("closed")); while (this.writes.length > 0) this.writes.shift().rej(new Error("closed")); }
  gone() {}
}
class NodeConn {
  constructor(socket) { this.s = socket; this.sent = []; this.writes = []; this.hold = false; this.state = "opening"; this.destroyed = false; this.closedEvent = false; }
  write(p, cb) { if (this.state !== "open") { this.writes.push({ p, cb }); this.gone(); return; } this.sent.push(p.slice()); if (this.hold) this.writes.push({ p, cb }); else cb(); }
  accept() { this.writes.shift().cb(); }
  arrive(b) { if (this.state === "open") this.s.emit("data", b); }
  lost(e) { if (this.state === "closed") return; this.state = "closed"; while (this.writes.length > 0) this.writes.shift().cb(new Error("reset")); if (e) this.s.emit("error", e); this.gone(); }
  end() { this.lost(null); }
  fail() { this.lost(new Error("reset")); }
  destroy() { if (this.destroyed) return; this.destroyed = true; this.state = "closed"; while (this.writes.length > 0) this.writes.shift().cb(new Error("closed")); }
  // the socket says that it is closed
  gone() { if (this.state === "closed" && !this.closedEvent) { this.closedEvent = true; this.s.emit("close"); } }
}
class WsConn {
  constructor(ws) { this.s = ws; this.sent = []; this.hold = false; this.form = "buffer"; this.closedEvent = false; }
  arrive(b) { if (this.s.readyState !== 1) return; const u = b.slice(), data = this.form === "buffer" ? u.buffer : this.form === "bytes" ? u : { arrayBuffer: () => Promise.resolve(u.buffer) }; this.s.emit("message", { data }); }
  end() { this.s.readyState = 3; this.gone(); }
  fail() { this.s.readyState = 3; this.s.emit("error", { message: "reset" }); this.gone(); }
  gone() { if (this.s.readyState >= 2 && !this.closedEvent) { this.s.readyState = 3; this.closedEvent = true; this.s.emit("close", {}); } }
}
let made = null; // where new web sockets are announced
class FakeWebSocket {
  static OPEN = 1;
  constructor(url) { this.url = url; this.readyState = 0; this.handlers = []; made(this); }
  addEventListener(e, f) { this.handlers.push([e, f]); }
  emit(e, x) { for (const [n, f] of [...this.handlers]) if (n === e) f(x); }
  send(p) { this.wire.sent.push(p.slice()); }
  close() { if (this.readyState < 2) this.readyState = 2; }
}
exports.globals = { Deno: exports.DENO, WebSocket: FakeWebSocket };
// a connection object of a kind and what it is connected to
exports.rig = (S, kind, o = {}) => {
  const k = exports.KINDS[kind], t = { kind, k, wires: [], states: [], read: 0, written: 0, refuse: false };
  S.fixedRandom();
  Object.defineProperty(t, "wire", { get: () => t.wires[t.wires.length - 1] });
  if (k.net === "deno") exports.DENO.connect = async (to) => { await S.tick(); t.to = to; if (t.refuse) throw new Error("refused"); t.wires.push(new DenoConn()); return t.wire; };
  if (k.net === "node") {
    const { Socket } = S.dep("node:net");
    Socket.prototype.connect = function (port, hostname) { const w = new NodeConn(this); this.wire = w; t.wires.push(w); t.to = { hostname, port }; Object.defineProperty(this, "readyState", { configurable: true, get: () => w.state }); t.opening = S.tick().then(() => { if (w.state !== "opening") return; if (t.refuse) w.lost(new Error("refused")); else { w.state = "open"; this.emit("connect"); } }); return this; };
    Socket.prototype.write = function (p, cb) { this.wire.write(p, cb); return true; };
    Socket.prototype.destroy = function () { this.wire?.destroy(); return this; };
  }
  if (k.net === "ws") made = (ws) => { const w = new WsConn(ws); w.form = o.form ?? "buffer"; ws.wire = w; t.wires.push(w); S.tick().then(() => { if (t.refuse) { w.fail(); return; } ws.readyState = 1; ws.emit("open", {}); }); };
  const C = S.load(k.file)[k.cls];
  t.secret = o.secret ?? new Uint8Array([0xee, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 97, 46, 98, 99]);
  t.c = k.net === "ws" ? new C("wss://h/apiws") : k.tls ? new C("h", 443, t.secret) : k.socks ? new C(o.host ?? "1.2.3.4", o.port ?? 443, "proxy", 1080, o.credentials) : new C("h", 443);
  if (k.net === "deno" && !k.socks) t.c.connect = exports.DENO.connect;
  t.c.stateChangeHandler = (x) => t.states.push(x);
  t.c.callback = { read: (n) => { t.read += n; }, write: (n) => { t.written += n; } };
  // the proxy's answer to a hello
  t.answer = async (hello, body = new Uint8Array(60), tail = new Uint8Array(3)) => {
    const secret = t.secret.length > 16 ? t.secret.slice(1) : t.secret, r = cat([[0x16, 3, 3, 0, body.length], body, [0x14, 3, 3, 0, 1, 1, 0x17, 3, 3, 0, tail.length], tail]);
    r.fill(0, 11, 43);
    const d = await S.load("1_utilities.ts").hmacSha256(cat([hello.subarray(11, 43), r]), secret.slice(0, 16));
    r.set(d, 11); return r;
  };
  t.open = async () => {
    const n = t.wires.length, p = S.outcome(Promise.resolve().then(() => t.c.open()));
    await S.settle();
    if (t.wires.length > n && !t.refuse) {
      if (k.tls) { const hello = cat(t.wire.sent); t.wire.sent.length = 0; const a = await t.answer(hello); t.wire.arrive(a); }
      if (k.socks) { t.wire.arrive(new Uint8Array([5, 0])); await S.settle(); t.wire.arrive(new Uint8Array([5, 0, 0, 1, 1, 2, 3, 4, 1, 1])); await S.settle(); t.wire.sent.length = 0; }
    }
    return await p;
  };
  // what carries a payload to the client, given the sizes of the records
  t.frames = (payload, sizes) => { if (!k.tls) return payload; const out = []; let i = 0; for (const n of sizes) { out.push([0x17, 3, 3, n >> 8, n & 255], payload.slice(i, i + n)); i += n; } return cat(out); };
  // what the client sent, without records
  t.sent = (first = true) => {
    const raw = cat(t.wire.sent); if (!k.tls) return raw;
    const out = []; let i = 0;
    if (raw.length > 0 && first) { S.assertEq(raw.slice(0, 6), new Uint8Array([0x14, 3, 3, 0, 1, 1]), "what is sent does not begin with the prescribed record"); i = 6; }
    while (i < raw.length) { S.assert(raw.length - i > 5, "an incomplete record is sent"); S.assertEq(raw.slice(i, i + 3), new Uint8Array([0x17, 3, 3]), "something other than a record is sent"); const n = S.conc(raw[i + 3] * 256 + raw[i + 4]); S.assert(n > 0 && n <= 16384 && i + 5 + n <= raw.length, "a record of a wrong size is sent"); out.push(raw.slice(i + 5, i + 5 + n)); i += 5 + n; }
    return cat(out);
  };
  return t;
};
