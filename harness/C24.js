"use strict";
// C24 Chat identifiers map one-to-one to users, groups and channels
exports.title = "Chat identifiers map one-to-one to users, groups and channels";
exports.assumptions = ["user identifiers 1..2^52, basic group identifiers 1..999999999999, channel identifiers 1..3000000000000 (including monoforums)"];
const KINDS = { user: [1n, 2n ** 52n], chat: [1n, 999999999999n], channel: [1n, 3000000000000n] };
const PEERS = {
  user: [["peerUser", "user_id"], ["inputPeerUser", "user_id"], ["inputPeerUserFromMessage", "user_id"], ["user", "id"], ["userFull", "id"], [undefined, "user_id"]],
  chat: [["peerChat", "chat_id"], ["inputPeerChat", "chat_id"], ["chat", "id"], ["chatForbidden", "id"], ["chatFull", "id"], [undefined, "chat_id"]],
  channel: [["peerChannel", "channel_id"], ["inputPeerChannel", "channel_id"], ["inputPeerChannelFromMessage", "channel_id"], ["channel", "id"], ["channelForbidden", "id"], ["channelFull", "id"], [undefined, "channel_id"]],
};
const FIELD = { user: "user_id", chat: "chat_id", channel: "channel_id" }, PEER = { user: "peerUser", chat: "peerChat", channel: "peerChannel" };
const sid = (kind, id) => kind === "user" ? id : kind === "chat" ? -id : -1000000000000n - id;
exports.cases = () => {
  const cs = [];
  for (const kind of ["user", "chat", "channel"]) cs.push({ name: kind, bounds: `every ${kind} identifier in ${KINDS[kind].join("..")}, in every object that carries one`, run: async (S) => {
    const Api = S.load("tl/2_telegram.ts");
    const id = S.big("id", ...KINDS[kind]);
    const [name, field] = S.choose("form", PEERS[kind]);
    const o = { [field]: id }; if (name) o._ = name;
    if (name === "inputPeerUser" || name === "inputPeerChannel") o.access_hash = S.big("hash", -(2n ** 63n), 2n ** 63n - 1n);
    if (name && name.endsWith("FromMessage")) { o.msg_id = 5; o.peer = { _: "inputPeerChannel", channel_id: 9n, access_hash: 1n }; }
    const c = Api.peerToChatId(o);
    S.assertEq(BigInt(c), sid(kind, id), "the chat identifier is not the prescribed one");
    const back = Api.chatIdToPeer(c);
    S.assertEq(back, { _: PEER[kind], [FIELD[kind]]: id }, "mapping back does not give the same peer");
    S.assertEq(Api.chatIdToPeerId(c), id, "mapping back does not give the same identifier");
    S.assertEq(Api.getChatIdPeerType(c), kind, "the chat identifier is attributed to another kind");
    S.assertEq(Api.peerToChatId(back), c, "mapping forth again gives another chat identifier");
    if (kind === "channel") S.assertEq(Api.getChannelChatId(id), c, "the channel's chat identifier differs");
    S.note("c", c);
  } });
  cs.push({ name: "input-peers", bounds: "every user, group and channel input peer", run: async (S) => {
    const Api = S.load("tl/2_telegram.ts");
    const kind = S.choose("kind", ["user", "chat", "channel"]);
    const id = S.big("id", ...KINDS[kind]);
    const name = { user: "inputPeerUser", chat: "inputPeerChat", channel: "inputPeerChannel" }[kind];
    const o = { _: name, [FIELD[kind]]: id }; if (kind !== "chat") o.access_hash = 3n;
    const p = Api.inputPeerToPeer(o);
    S.assertEq(p._, PEER[kind], "an input peer turns into another kind of peer");
    S.assertEq(p[FIELD[kind]], id, "an input peer turns into another peer");
    S.assertEq(Api.peerToChatId(p), Api.peerToChatId(o), "an input peer and its peer have different chat identifiers");
  } });
  cs.push({ name: "injective", bounds: "every two peers of any kinds", run: async (S) => {
    const Api = S.load("tl/2_telegram.ts");
    const k1 = S.choose("k1", ["user", "chat", "channel"]), k2 = S.choose("k2", ["user", "chat", "channel"]);
    const a = S.big("a", ...KINDS[k1]), b = S.big("b", ...KINDS[k2]);
    const x = Api.peerToChatId({ _: PEER[k1], [FIELD[k1]]: a }), y = Api.peerToChatId({ _: PEER[k2], [FIELD[k2]]: b });
    if (k1 !== k2) S.assert(x !== y, "peers of two kinds share a chat identifier"); else S.assert((x === y) === (a === b), "two peers of a kind share a chat identifier");
  } });
  cs.push({ name: "all-chat-ids", bounds: "every nonzero chat identifier in -4000000000000..2^52", run: async (S) => {
    const Api = S.load("tl/2_telegram.ts");
    const c = S.int("c", -4000000000000, 2 ** 52);
    S.assume(c !== 0 && c !== -1000000000000);
    S.assertEq(Api.peerToChatId(Api.chatIdToPeer(c)), c, "a chat identifier is not restored");
    const t = Api.getChatIdPeerType(c);
    S.assert(t === (c > 0 ? "user" : c > -1000000000000 ? "chat" : "channel"), "the kind of a chat identifier is wrong");
    S.assertEq(Api.chatIdToPeer(c)._, PEER[t], "the kind of a chat identifier and of its peer differ");
  } });
  cs.push({ name: "stored-chats", bounds: "every user, group, supergroup and channel identifier", run: async (S) => {
    const Api = S.load("tl/2_telegram.ts"), { constructChatP } = S.load("types/1_chat_p.ts");
    const kind = S.choose("kind", ["user", "chat", "channel", "supergroup"]);
    const id = S.big("id", ...KINDS[kind === "supergroup" ? "channel" : kind]);
    S.assume(id <= 2n ** 50n);
    const photo = { _: "chatPhotoEmpty" };
    const o = kind === "user" ? { _: "user", id, access_hash: 5n, first_name: "a" } : kind === "chat" ? { _: "chat", id, title: "t", photo, participants_count: 1, date: 1, version: 1 } : { _: "channel", id, access_hash: 5n, title: "t", photo, date: 1, ...(kind === "supergroup" ? { megagroup: true } : { broadcast: true }) };
    const p = constructChatP(o);
    S.assertEq(p.id, Api.peerToChatId(o), "the stored chat has another identifier than the peer");
    S.assertEq(p.type, { user: "private", chat: "group", channel: "channel", supergroup: "supergroup" }[kind], "the stored chat is of another kind");
    S.assertEq(p.color, Number(id % 7n), "the chat's default color is not derived from its identifier");
  } });
  return cs;
};
