"use strict";
// C05 MTProto messages and containers are framed exactly
exports.title = "MTProto messages and containers are framed exactly";
exports.assumptions = ["bodies are at least four bytes and a non-container body does not begin with the container's identifier, as for every TL object"];
const CONTAINER = 0x73F1F8DC;
function load(S) { return { ...S.load("tl/1_tl_writer.ts"), ...S.load("tl/1_tl_reader.ts"), ...S.load("tl/2_message.ts"), ...S.load("0_errors.ts") }; }
function u32(b, o) { return b[o] + b[o + 1] * 256 + b[o + 2] * 65536 + b[o + 3] * 16777216; }
function i64(x) { const l = []; for (let i = 0; i < 8; i++) l.push(Number((x >> BigInt(8 * i)) & 255n)); return l; }
function i32(x) { const y = BigInt(x); const l = []; for (let i = 0; i < 4; i++) l.push(Number((y >> BigInt(8 * i)) & 255n)); return l; }
let k = 0;
function symMessage(S, name, n) {
  const body = S.bytes(name + ".body", n);
  S.assume(u32(body, 0) !== CONTAINER);
  return { _: "message", msg_id: S.big(name + ".id", -(2n ** 63n), 2n ** 63n - 1n), seqno: S.int(name + ".seqno", -(2 ** 31), 2 ** 31 - 1), body };
}
// the prescribed bytes of a message
function spec(m) {
  let body;
  if (m.body instanceof Uint8Array) body = [...m.body];
  else { body = [...i32(CONTAINER), ...i32(m.body.messages.length)]; for (const x of m.body.messages) body.push(...spec(x)); }
  return [...i64(m.msg_id), ...i32(m.seqno), ...i32(body.length), ...body];
}
exports.cases = (tier) => {
  const cs = [];
  cs.push({ name: "single", bounds: "bodies of 4, 8, 12, 16, 200, 232, 236, 240, 244, 1000 bytes, every content, identifier and sequence number, followed by 0, 4 or 12 bytes of padding", run: async (S) => {
    const { TLWriter, TLReader, writeMessage, deserializeMessage } = load(S);
    const n = S.choose("n", [4, 8, 12, 16, 200, 232, 236, 240, 244, 1000]), pad = S.choose("pad", [0, 4, 12]);
    const m = symMessage(S, "m", n);
    const w = new TLWriter(); writeMessage(w, m);
    S.assertEq(w.buffer, new Uint8Array(spec(m)), "the serialized message is not the prescribed one");
    w.write(S.bytes("pad", pad));
    const r = new TLReader(w.buffer);
    S.assertEq(deserializeMessage(r), m, "the message read back differs");
    S.assert(r.buffer.length === pad, "the reader is not right after the message");
    S.note("w", w.buffer.slice(0, 32));
  } });
  cs.push({ name: "single-any-length", bounds: "every body length 4..2^20, every content", run: async (S) => {
    const { TLWriter, TLReader, writeMessage, deserializeMessage } = load(S);
    const body = S.blob("body", 4, 2 ** 20);
    const b0 = body[0], b1 = body[1];
    S.assume(b0 !== 0xDC); 
    const m = { _: "message", msg_id: S.big("id", -(2n ** 63n), 2n ** 63n - 1n), seqno: S.int("seqno", -(2 ** 31), 2 ** 31 - 1), body };
    const w = new TLWriter(); writeMessage(w, m); w.writeInt64(77n);
    S.assert(w.buffer.length === 16 + body.length + 8, "the total length is wrong");
    S.assert(u32(w.buffer, 12) === body.length, "the declared length is not the body's");
    const r = new TLReader(w.buffer), q = deserializeMessage(r);
    S.assertEq(q.msg_id, m.msg_id, "the identifier differs"); S.assertEq(q.seqno, m.seqno, "the sequence number differs");
    S.assert(q.body.length === body.length, "the body's length differs");
    const i = S.int("i", 0, 2 ** 20);
    if (i < body.length) S.assert(q.body[i] === body[i], "the body differs");
    S.assertEq(r.readInt64(), 77n, "the reader is not right after the message");
  } });
  cs.push({ name: "container", bounds: "containers of 0..4 messages with bodies of 4, 8, 60 or 240 bytes (each size combination for up to two messages), every content, identifier and sequence number", run: async (S) => {
    const { TLWriter, TLReader, writeMessage, deserializeMessage } = load(S);
    const count = S.choose("count", [0, 1, 2, 3, 4]);
    const messages = [];
    for (let i = 0; i < count; i++) messages.push(symMessage(S, "m" + i, i < 2 ? S.choose("n" + i, [4, 8, 60, 240]) : 8 + 4 * i));
    const c = { _: "message", msg_id: S.big("c.id", -(2n ** 63n), 2n ** 63n - 1n), seqno: S.int("c.seqno", -(2 ** 31), 2 ** 31 - 1), body: { _: "msg_container", messages } };
    const w = new TLWriter(); writeMessage(w, c);
    S.assertEq(w.buffer, new Uint8Array(spec(c)), "the serialized container is not the prescribed one");
    const r = new TLReader(w.buffer), q = deserializeMessage(r);
    S.assertEq(q, c, "the container read back differs");
    S.assert(r.buffer.length === 0, "bytes are left over");
    S.note("w", w.buffer.slice(0, 60));
  } });
  cs.push({ name: "nested", bounds: "a container holding a message, a container of 0..2 messages, and a message; every content", run: async (S) => {
    const { TLWriter, TLReader, writeMessage, deserializeMessage } = load(S);
    const inner = []; const count = S.choose("count", [0, 1, 2]);
    for (let i = 0; i < count; i++) inner.push(symMessage(S, "i" + i, 4 + 8 * i));
    const mk = (name, messages) => ({ _: "message", msg_id: S.big(name + ".id", -(2n ** 63n), 2n ** 63n - 1n), seqno: S.int(name + ".seqno", -(2 ** 31), 2 ** 31 - 1), body: { _: "msg_container", messages } });
    const c = mk("o", [symMessage(S, "a", 8), mk("n", inner), symMessage(S, "b", 4)]);
    const w = new TLWriter(); writeMessage(w, c);
    S.assertEq(w.buffer, new Uint8Array(spec(c)), "the serialized nested container is not the prescribed one");
    S.assertEq(deserializeMessage(new TLReader(w.buffer)), c, "the nested container read back differs");
  } });
  cs.push({ name: "many", bounds: "containers of 10, 50 and 1020 messages with 4-byte bodies, one of them arbitrary", run: async (S) => {
    const { TLWriter, TLReader, writeMessage, deserializeMessage } = load(S);
    const count = S.choose("count", [10, 50, 1020]), at = S.choose("at", [0, 7, 9]);
    const messages = [];
    for (let i = 0; i < count; i++) messages.push(i === at ? symMessage(S, "m", 4) : { _: "message", msg_id: BigInt(i) << 40n, seqno: i, body: new Uint8Array([i & 127, 2, 3, 4]) });
    const c = { _: "message", msg_id: 5n, seqno: 6, body: { _: "msg_container", messages } };
    const w = new TLWriter(); writeMessage(w, c);
    const q = deserializeMessage(new TLReader(w.buffer));
    S.assert(q.body.messages.length === count, "the number of messages differs");
    S.assertEq(q, c, "a large container read back differs");
  } });
  cs.push({ name: "truncated", bounds: "every truncation of a container of two messages, every content", run: async (S) => {
    const { TLWriter, TLReader, TLError, writeMessage, deserializeMessage } = load(S);
    const c = { _: "message", msg_id: S.big("id", -(2n ** 63n), 2n ** 63n - 1n), seqno: 1, body: { _: "msg_container", messages: [symMessage(S, "a", 4), symMessage(S, "b", 8)] } };
    const w = new TLWriter(); writeMessage(w, c);
    const full = w.buffer, cuts = []; for (let i = 0; i < full.length; i++) cuts.push(i);
    const r = S.attempt(() => deserializeMessage(new TLReader(full.subarray(0, S.choose("cut", cuts)))));
    S.assert(!r.ok && r.error instanceof TLError, "a truncated message is not rejected with the library's error");
  } });
  return cs;
};
