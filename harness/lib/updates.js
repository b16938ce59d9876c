"use strict";
// A client's update manager with a server that follows the protocol.
const CHANNEL = 77n, USER = 5n;
const storageOf = (S, storage) => new (S.load("client/0_storage_operations.ts").StorageOperations)(storage);
// c: what the manager sees of the client
async function manager(S, { storage, drop = false, guarantee = false, isBot = false, invoke, handle, memory } = {}) {
  const { UpdateManager } = S.load("client/2_update_manager.ts");
  const backing = storage ?? new (S.load("storage/2_storage_memory.ts").StorageMemory)();
  const t = { backing, store: storageOf(S, backing), messages: memory ?? storageOf(S, new (S.load("storage/2_storage_memory.ts").StorageMemory)()), connection: [], disconnected: false };
  await t.store.auth.set({ apiId: 1, authKey: null, dc: "2", isBot, userId: 9 });
  t.c = {
    id: 1, storage: t.store, messageStorage: t.messages, guaranteeUpdateDelivery: guarantee, dropPendingUpdates: drop,
    setConnectionState: (s) => t.connection.push(s), resetConnectionState: () => t.connection.push("reset"),
    getSelfId: async () => 9, isDisconnected: () => t.disconnected,
    getInputPeer: async (id) => ({ _: "inputPeerChannel", channel_id: BigInt(-1000000000000 - id), access_hash: 3n }),
    getInputChannel: async () => ({ _: "inputChannel", channel_id: CHANNEL, access_hash: 3n }),
    inputPeerToPeer: async () => ({ _: "peerUser", user_id: USER }),
    invoke,
  };
  t.m = new UpdateManager(t.c);
  t.m.setUpdateHandler(handle);
  t.UpdateManager = UpdateManager;
  return t;
}
// the number of an event in an update
const idOf = (u) => u.message !== undefined ? u._ === "updateNewEncryptedMessage" ? u.message.date : u.message.id : u.messages ? u.messages[0] : u.date;
// what a box consists of: how its updates look and what a difference contains
const BOXES = {
  pts: {
    counts: [1, 2],
    update: (e, at) => e.kind === "message" ? { _: "updateNewMessage", message: { _: "messageEmpty", id: e.id }, pts: at, pts_count: e.count } : { _: "updateDeleteMessages", messages: [e.id], pts: at, pts_count: e.count },
    message: (e) => ({ _: "messageEmpty", id: e.id }),
  },
  qts: {
    counts: [1, 1],
    update: (e, at) => e.kind === "message" ? { _: "updateNewEncryptedMessage", message: { _: "encryptedMessageService", random_id: 1n, chat_id: 1, date: e.id, bytes: new Uint8Array(0) }, qts: at } : { _: "updateBotStopped", user_id: USER, date: e.id, stopped: false, qts: at },
    message: (e) => ({ _: "encryptedMessageService", random_id: 1n, chat_id: 1, date: e.id, bytes: new Uint8Array(0) }),
  },
  channel: {
    counts: [1, 2],
    update: (e, at) => e.kind === "message" ? { _: "updateNewChannelMessage", message: { _: "message", id: e.id, peer_id: { _: "peerChannel", channel_id: CHANNEL }, date: 5, message: "" }, pts: at, pts_count: e.count } : { _: "updateDeleteChannelMessages", channel_id: CHANNEL, messages: [e.id], pts: at, pts_count: e.count },
    message: (e) => ({ _: "message", id: e.id, peer_id: { _: "peerChannel", channel_id: CHANNEL }, date: 5, message: "" }),
  },
};
// the server's side of one box
class Server {
  constructor(S, box, base) { this.S = S; this.box = box; this.B = BOXES[box]; this.base = base; this.events = []; this.pending = []; }
  // the counter after k events
  at(k) { let p = this.base; for (const e of this.events.slice(0, k)) p = p + e.count; return p; }
  add(kind, count) { const id = this.events.length + 1; this.events.push({ id, kind, count }); return id; }
  update(k) { return this.B.update(this.events[k], this.at(k + 1)); }
  invoke(f) { return new Promise((resolve, reject) => this.pending.push({ f, resolve, reject, asOf: this.events.length, counter: f._ === "updates.getDifference" && this.box === "qts" ? f.qts : f.pts })); }
  // how many events the client asks to skip
  known(p) { for (let k = 0; k <= this.events.length; k++) if (p.counter === this.at(k)) return k; this.S.fail("a difference is asked from a counter that is no state of the box"); return 0; }
  // answers a request with the events after its counter, up to upTo
  answer(p, upTo, last, extra = {}) {
    const k = this.known(p), some = this.events.slice(k, upTo), to = this.at(upTo > k ? upTo : k);
    this.pending.splice(this.pending.indexOf(p), 1);
    const messages = some.filter((e) => e.kind === "message").map((e) => this.B.message(e)), others = [];
    for (let i = k; i < upTo; i++) if (this.events[i].kind !== "message") others.push(this.update(i));
    // messages come before the other updates of a difference: a difference ends before a message that follows another update
    if (this.box === "channel") return p.resolve(some.length === 0 ? { _: "updates.channelDifferenceEmpty", final: true, pts: to, timeout: 9 } : { _: "updates.channelDifference", final: last, pts: to, timeout: 9, new_messages: messages, other_updates: others, chats: [], users: [], ...extra });
    const state = { _: "updates.state", pts: this.box === "pts" ? to : p.f.pts, qts: this.box === "qts" ? to : p.f.qts, date: 50, seq: 0, unread_count: 0 };
    if (some.length === 0) return p.resolve({ _: "updates.differenceEmpty", date: 50, seq: 0 });
    const body = { new_messages: this.box === "pts" ? messages : [], new_encrypted_messages: this.box === "qts" ? messages : [], other_updates: others, chats: [], users: [], ...extra };
    p.resolve(last ? { _: "updates.difference", ...body, state } : { _: "updates.differenceSlice", ...body, intermediate_state: state });
  }
  // the largest number of events after k that one difference can carry in order
  reach(k) { let i = k, other = false; while (i < this.events.length && !(other && this.events[i].kind === "message")) { if (this.events[i].kind !== "message") other = true; i++; } return i; }
}
module.exports = { manager, Server, BOXES, idOf, CHANNEL, USER };
