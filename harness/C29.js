"use strict";
// C29 Update handlers run in registration order and only when their filter matches
exports.title = "Update handlers run in registration order and only when their filter matches";
exports.assumptions = [
  "handlers do not call next after they have returned; conditions give booleans or promises of booleans",
  "command texts consist of ASCII characters (the white space test also covers the other white space characters)",
];
const UPDATES = ["connectionState", "authorizationState", "update", "message", "editedMessage", "scheduledMessage", "deletedMessages", "callbackQuery", "inlineQuery", "guestQuery", "chosenInlineResult", "newChat", "editedChat", "deletedChat", "messageInteractions", "messageReactionCount", "messageReactions", "chatMember", "myChatMember", "deletedStory", "story", "businessConnection", "videoChat", "preCheckoutQuery", "joinRequest", "translations", "poll", "pollAnswer", "voiceTranscription", "linkPreview", "uploadProgress", "botCommands", "emojiStatus", "emojiStatusRemoved", "chatAction", "messageDraft", "secretChat", "secretMessage", "secretTyping", "managedBot"];
// what an update of a type carries when that is not one object under the name of the type
const OTHER = { emojiStatus: { userId: 1 }, translations: { platform: "p", language: "l" }, deletedMessages: { isScheduled: true } };
const BARE = { emojiStatusRemoved: { userId: 1 }, secretTyping: { chatId: 1 }, managedBot: { user: {}, bot: {} } };
// message types and the fields beyond the common ones
const MESSAGES = { text: ["text"], link: ["linkPreview", "text"], photo: ["photo"], livePhoto: ["photo", "video"], document: ["document"], video: ["video"], sticker: ["sticker"], animation: ["animation"], voice: ["voice"], audio: ["audio"], dice: ["dice"], videoNote: ["videoNote"], contact: ["contact"], game: ["game"], poll: ["poll"], checklist: ["checklist"], invoice: ["invoice"], venue: ["venue"], location: ["location"], newChatMembers: ["newChatMembers"], leftChatMember: ["leftChatMember"], newChatTitle: ["newChatTitle"], newChatPhoto: ["newChatPhoto"], deletedChatPhoto: [], groupCreated: ["newChatMembers"], supergroupCreated: [], channelCreated: [], newAutoDeleteTime: ["newAutoDeleteTime"], chatMigratedTo: ["chatMigratedTo"], chatMigratedFrom: ["chatMigratedFrom"], pinnedMessage: ["pinnedMessage"], userShared: ["userShared"], writeAccessAllowed: ["writeAccessAllowed"], forumTopicCreated: ["forumTopicCreated"], forumTopicEdited: ["forumTopicEdited"], forumTopicClosed: [], forumTopicReopened: [], videoChatScheduled: ["videoChatScheduled"], videoChatStarted: [], videoChatEnded: ["videoChatEnded"], giveaway: ["giveaway"], unsupported: [], successfulPayment: ["successfulPayment"], screenshotTaken: [], addedToCommunity: ["community"], removedFromCommunity: ["community"] };
const SECRET = { text: ["text"], location: ["location"], contact: ["contact"], venue: ["venue"], webPage: ["url"], photo: ["photo"], video: ["video"], videoNote: ["videoNote"], audio: ["audio"], document: ["document"], sticker: ["sticker"], animation: ["animation"], voice: ["voice"] };
const updateOf = (type) => BARE[type] ? { type, ...BARE[type] } : { type, [type]: type === "update" ? { _: "updateConfig" } : type === "authorizationState" ? { isAuthorized: true } : {}, ...OTHER[type] };
const withFields = (type, fields) => { const m = { type, id: 1, date: 1 }; for (const f of fields) m[f] = {}; return m; };
const ME = { id: 5, isBot: true, username: "Ab" };
const client = (me) => ({ calls: 0, async getMe() { this.calls++; return typeof me === "function" ? me() : me; } });

exports.cases = (tier) => {
  const cs = [];
  const deep = tier !== "quick";
  // ---- compositions
  // the composition language: a handler, a condition around handlers, two alternatives, a composer whose handlers are added before and after it is registered
  const shapes = ["handler", "filter", "branch", "composer", "several"];
  const compose = (S, pick, depth) => {
    let ids = 0;
    const H = () => ({ t: "handler", id: ++ids }), P = () => ({ id: ++ids });
    const node = (k) => k === "handler" ? H()
      : k === "filter" ? { t: "filter", p: P(), first: [H()], later: [H()] }
      : k === "branch" ? { t: "branch", p: P(), a: H(), b: H() }
      : k === "composer" ? { t: "composer", first: [], later: [H(), H()] }
      : k === "several" ? { t: "several", list: [H(), H()] }
      : k === "filter in filter" ? { t: "filter", p: P(), first: [], later: [{ t: "filter", p: P(), first: [H()], later: [] }, H()] }
      : k === "branch of composers" ? { t: "branch", p: P(), a: { t: "composer", first: [H()], later: [H()] }, b: { t: "composer", first: [], later: [] } }
      : { t: "composer", first: [{ t: "branch", p: P(), a: H(), b: { t: "composer", first: [H()], later: [] } }], later: [H()] };
    return pick.map(node);
  };
  const play = async (S, list, updates, acts) => {
    const { Composer } = S.load("client/5_composer.ts");
    const decided = new Map();
    const act = (h, n) => { const k = "h" + h.id + "." + n; if (!decided.has(k)) decided.set(k, S.choose(k, acts)); return decided.get(k); };
    const holds = (p, n) => { const k = "p" + p.id + "." + n; if (!decided.has(k)) decided.set(k, S.choose(k, [true, false])); return decided.get(k); };
    let log, n;
    const behave = async (h, next) => {
      log.push("enter " + h.id);
      const a = act(h, n);
      if (a === "fail") throw new Error("fail " + h.id);
      if (a === "late") await Promise.resolve();
      if (a !== "stop") await next();
      if (a === "twice") { log.push("again " + h.id); await next(); }
      if (a === "catch") { throw new Error("after " + h.id); }
      log.push("leave " + h.id);
    };
    const c = client(ME);
    let ctxs = [];
    const handler = (h) => (ctx, next) => { ctxs.push(ctx); return behave(h, next); };
    const condition = (p) => (ctx) => { ctxs.push(ctx); log.push("ask " + p.id); const v = holds(p, n); return p.id % 2 ? v : Promise.resolve(v); };
    const ware = (e) => {
      if (e.t === "handler") return handler(e);
      const sub = new Composer(...(e.t === "composer" ? e.first.map(ware) : []));
      if (e.t === "composer") e.pending = sub; else add(sub, e);
      return sub;
    };
    const finish = (e) => { if (e.pending) { for (const x of e.later) add(e.pending, x); e.first.forEach(finish); } if (e.t === "branch") { finish(e.a); finish(e.b); } };
    const add = (to, e) => {
      if (e.t === "handler") to.use(handler(e));
      else if (e.t === "several") to.use(...e.list.map(ware));
      else if (e.t === "branch") to.branch(condition(e.p), ware(e.a), ware(e.b));
      else if (e.t === "filter") { const sub = to.filter(condition(e.p), ...e.first.map(ware)); for (const x of e.later) add(sub, x); }
      else if (e.t === "composer") to.use(ware(e));
      finish(e);
    };
    const root = new Composer();
    for (const e of list) add(root, e);
    // what should happen
    const run = async (es, next) => {
      const at = async (i) => {
        if (i === es.length) return await next();
        let used = false;
        await one(es[i], async () => { if (used) return; used = true; await at(i + 1); });
      };
      await at(0);
    };
    const one = async (e, next) => {
      if (e.t === "handler") return await behave(e, next);
      if (e.t === "several") return await run(e.list, next);
      if (e.t === "composer") return await run([...e.first, ...e.later], next);
      log.push("ask " + e.p.id);
      const v = holds(e.p, n);
      if (e.t === "filter") return v ? await run([...e.first, ...e.later], next) : await next();
      return await one(v ? e.a : e.b, next);
    };
    for (n = 0; n < updates.length; n++) {
      log = []; ctxs = [];
      const real = await S.outcome(root.handleUpdate(c, updates[n]));
      const got = log; log = [];
      const want = await S.outcome(run(list, async () => {}));
      S.note("log", got);
      S.assertEq(got, log, "handlers run in another order, or not the ones that should");
      S.assert(real.ok === want.ok, "an error of a handler is lost or invented");
      if (!real.ok) S.assertEq(real.error.message, want.error.message, "another error is reported");
      const counts = new Map(); for (const l of got) if (l.startsWith("enter")) { S.assert(!counts.has(l), "a handler runs twice for one update"); counts.set(l, 1); }
      for (const x of ctxs) { S.assert(x.update === updates[n], "a handler sees another update"); S.assert(x.client === c, "a handler sees another client"); S.assert(x.me === ME, "a handler sees another account"); S.assert(x === ctxs[0], "the handlers of an update do not share its context"); }
      S.cover(real.ok ? "done" : "error");
    }
    S.assert(c.calls === (updates.length ? 1 : 0), "the account is not asked for exactly once");
  };
  const M1 = () => ({ type: "message", message: { type: "text", text: "x", chat: { id: 1, type: "private" }, from: { id: 2 } } });
  const M2 = () => ({ type: "inlineQuery", inlineQuery: { id: "1", query: "" } });
  for (const first of shapes) cs.push({ name: "compositions-" + first, bounds: `${first} followed by each of the five kinds of registration and a handler; every handler stops, passes on, passes on twice, fails before or after passing on, or passes on later; every condition holds or does not, given at once or as a promise`, covers: ["done", "error"], weight: 5, run: async (S) => {
    const second = S.choose("second", shapes);
    await play(S, compose(S, [first, second, "handler"]), [M1()], deep ? ["pass", "stop", "twice", "fail", "catch", "late"] : ["pass", "stop", "twice", "catch"]);
  } });
  for (const k of ["filter in filter", "branch of composers", "composer of branches"]) cs.push({ name: "nested-" + k.replace(/ /g, "-"), bounds: `${k} between two handlers, the same behaviours`, covers: ["done", "error"], weight: 5, run: async (S) => {
    await play(S, compose(S, ["handler", k, "handler"]), [M1()], ["pass", "stop", "twice", "fail"]);
  } });
  cs.push({ name: "several-updates", bounds: "two updates through a handler, a condition around two handlers, and a handler; every behaviour for each update", covers: ["done"], weight: 5, run: async (S) => {
    await play(S, compose(S, ["filter", "handler"]), [M1(), M2()], ["pass", "stop", "twice"]);
  } });
  cs.push({ name: "no-handlers", bounds: "an empty composer, and composers without handlers inside others", run: async (S) => {
    await play(S, [], [M1()], ["pass"]);
    await play(S, [{ t: "composer", first: [], later: [] }, { t: "filter", p: { id: 1 }, first: [], later: [] }, { t: "handler", id: 2 }], [M1()], ["pass", "stop"]);
  } });
  // ---- the account
  cs.push({ name: "account", bounds: "three updates, each a connection state, an authorization state (authorized or not) or another update; finding out the account fails or not; forgetting it in between or not", covers: ["asked", "failed", "forgotten"], run: async (S) => {
    const { Composer } = S.load("client/5_composer.ts");
    class Mine extends Composer { forget(c) { this.resetLastGetMe(c); } }
    const c = client(() => { if (S.choose("fails" + c.calls, [false, true])) throw new Error("no answer"); return { id: c.calls }; });
    const r = new Mine();
    const seen = []; r.use((ctx) => { seen.push(ctx.me); });
    let known, calls = 0;
    for (let i = 0; i < 3; i++) {
      const u = S.choose("u" + i, [{ type: "connectionState", connectionState: "ready" }, { type: "authorizationState", authorizationState: { isAuthorized: false } }, { type: "authorizationState", authorizationState: { isAuthorized: true } }, M2()]);
      const plain = u.type === "connectionState" || u.type === "authorizationState" && !u.authorizationState.isAuthorized;
      seen.length = 0;
      const o = await S.outcome(r.handleUpdate(c, u));
      if (!known && !plain) { calls++; S.cover("asked"); }
      S.assert(c.calls === calls, "the account is asked for when it is known or not needed, or is not asked for when needed");
      if (!o.ok) { S.cover("failed"); S.assert(!known && !plain && o.error.message === "no answer", "an unexpected error"); S.assert(seen.length === 0, "a handler runs without the account"); continue; }
      if (!plain) known = known ?? { id: calls };
      S.assert(seen.length === 1, "the handler does not run once");
      S.assertEq(seen[0], known, "the handler sees another account");
      if (i === 1 && S.choose("forget", [false, true])) { r.forget(c); known = undefined; S.cover("forgotten"); }
    }
  } });
  // ---- filters
  cs.push({ name: "update-types", bounds: "an update of every type against the filter for every type, and low-level updates by their name", weight: 3, run: async (S) => {
    const { Context } = S.load("client/4_context.ts");
    const type = S.choose("type", UPDATES), u = updateOf(type);
    const ctx = new Context(client(ME), ME, u);
    for (const f of UPDATES) {
      S.assert(Context.has.filterQuery(f)(ctx) === (f === type), "the filter for a type of update matches another one, or not its own");
      S.assert(ctx.hasFilterQuery(f) === (f === type), "the context decides a filter differently");
    }
    for (const f of ["updateConfig", "updateNewMessage"]) S.assert(Context.has.filterQuery(f)(ctx) === (type === "update" && f === "updateConfig"), "the filter for a low-level update matches another one, or not its own");
  } });
  cs.push({ name: "message-types", bounds: "new, edited, scheduled and secret messages of every type against the filter for every type of message", weight: 3, run: async (S) => {
    const { Context } = S.load("client/4_context.ts");
    const kind = S.choose("kind", ["message", "editedMessage", "scheduledMessage", "secretMessage"]), types = kind === "secretMessage" ? SECRET : MESSAGES;
    const names = Object.keys(types), t = S.choose("type", names);
    const ctx = new Context(client(ME), ME, { type: kind, [kind]: withFields(t, types[t]) });
    for (const k of ["message", "editedMessage", "scheduledMessage", "secretMessage", ""]) for (const f of Object.keys(k === "secretMessage" ? SECRET : MESSAGES)) {
      const want = f === t && (k === kind || k === "" && kind !== "secretMessage");
      S.assert(Context.has.filterQuery(k + ":" + f)(ctx) === want, "the filter for a type of message matches another one, or not its own");
    }
  } });
  cs.push({ name: "query-parts", bounds: "callback queries and chosen results with every combination of their optional parts", run: async (S) => {
    const { Context } = S.load("client/4_context.ts");
    const parts = { callbackQuery: ["message", "inlineMessageId", "data", "gameShortName"], chosenInlineResult: ["inlineMessageId"] };
    const kind = S.choose("kind", Object.keys(parts)), has = {}, v = { id: "1" };
    for (const p of parts[kind]) { has[p] = S.choose(p, [false, true]); if (has[p]) v[p] = p === "message" ? { type: "text" } : "x"; }
    const ctx = new Context(client(ME), ME, { type: kind, [kind]: v });
    for (const k of Object.keys(parts)) for (const p of parts[k]) S.assert(Context.has.filterQuery(k + ":" + p)(ctx) === (k === kind && has[p]), "the filter for a part of a query matches without it, or not with it");
  } });
  cs.push({ name: "chat-types", bounds: "updates of every type that has a chat and some that have none, every type of chat, every set of wanted types", run: async (S) => {
    const { Context } = S.load("client/4_context.ts");
    const TYPES = ["private", "group", "supergroup", "channel"];
    const t = S.choose("type", TYPES), chat = { id: 3, type: t };
    const where = S.choose("update", ["message", "editedMessage", "scheduledMessage", "callbackQuery", "guestQuery", "messageReactions", "messageReactionCount", "chatMember", "myChatMember", "joinRequest", "story", "newChat", "editedChat", "callbackQuery without message", "inlineQuery", "deletedChat"]);
    const inMessage = ["callbackQuery", "guestQuery"].includes(where), none = ["callbackQuery without message", "inlineQuery", "deletedChat"].includes(where);
    const type = where.split(" ")[0];
    const ctx = new Context(client(ME), ME, { type, [type]: none ? { chatId: 3 } : inMessage ? { message: { chat } } : { chat } });
    const wanted = []; for (const x of TYPES) if (S.choose("want " + x, [false, true])) wanted.push(x);
    S.assert(Context.has.chatType(wanted)(ctx) === (!none && wanted.includes(t)), "the condition on the type of chat is decided wrongly");
    for (const x of TYPES) S.assert(ctx.hasChatType(x) === (!none && x === t), "the condition on one type of chat is decided wrongly");
  } });
  cs.push({ name: "shortcuts", bounds: "updates of every type that has a message, chat or sender, and others", run: async (S) => {
    const { Context } = S.load("client/4_context.ts");
    const chat = { id: S.int("chat", -4000000000000, 4000000000000), type: "private" }, from = { id: 5 }, message = { type: "text", text: "", chat, from };
    const MSG = ["message", "editedMessage", "scheduledMessage"], VIA = ["callbackQuery", "guestQuery"], FROM = ["callbackQuery", "inlineQuery", "chosenInlineResult", "chatMember", "myChatMember", "preCheckoutQuery", "joinRequest", "pollAnswer"], CHAT = ["messageReactions", "messageReactionCount", "chatMember", "myChatMember", "joinRequest", "story", "newChat", "editedChat"], ID = ["deletedStory", "messageInteractions", "deletedChat", "botCommands", "chatAction"];
    const type = S.choose("type", UPDATES), has = !VIA.includes(type) || S.choose("message", [true, false]);
    const other = { id: 6 };
    const u = MSG.includes(type) ? { type, [type]: message } : BARE[type] ? { type, ...BARE[type] } : { type, [type]: { from: other, user: other, chat, chatId: chat.id } };
    if (VIA.includes(type) && has) u[type].message = message;
    const ctx = new Context(client(ME), ME, u);
    const msg = MSG.includes(type) ? message : VIA.includes(type) && has ? message : undefined;
    S.assert(ctx.msg === msg, "the context shows another message, or none");
    S.assert(ctx.chat === (msg ? chat : CHAT.includes(type) ? chat : undefined), "the context shows another chat, or none");
    S.assertEq(ctx.chatId, msg || CHAT.includes(type) || ID.includes(type) ? chat.id : undefined, "the context shows another chat identifier, or none");
    S.assert(ctx.from === (FROM.includes(type) || ["messageReactions", "businessConnection"].includes(type) ? other : msg ? from : undefined), "the context shows another sender, or none");
    for (const k of ["message", "editedMessage", "scheduledMessage", "secretMessage", "secretChat", "guestQuery", "callbackQuery", "inlineQuery", "chosenInlineResult"]) S.assert(ctx[k] === (k === type ? u[k] : undefined), "the context shows a part that the update does not have, or hides one that it has");
  } });
  // ---- commands
  const lower = (c) => c >= 65 && c <= 90 ? c + 32 : c;
  const same = (S, text, from, to, name) => { // equal up to the case of ASCII letters, as one condition
    if (to - from !== name.length) return false;
    let r = true;
    for (let i = 0; i < name.length; i++) r = r & (lower(text.charCodeAt(from + i)) === lower(name.charCodeAt(i)));
    return r ? true : false;
  };
  const isSpace = (c) => c === 32 || (c >= 9 && c <= 13);
  const reference = (S, text, prefixes, names, username) => {
    let end = 0; while (end < text.length && !isSpace(text.charCodeAt(end))) end++;
    for (const p of prefixes) {
      if (p.length > end) continue;
      let starts = true; for (let i = 0; i < p.length; i++) starts = starts & (text.charCodeAt(i) === p.charCodeAt(i));
      if (!starts) continue;
      let at = p.length; while (at < end && text.charCodeAt(at) !== 64) at++;
      if (at < end && (username === undefined || !same(S, text, at + 1, end, username))) return false;
      for (const n of names) if (typeof n === "string" ? same(S, text, p.length, at, n) : n.test(text.slice(p.length, at).toLowerCase())) return true;
      return false;
    }
    return false;
  };
  const command = (name, bounds, lens, mk) => { for (const n of lens) cs.push({ name: `${name}-${n}`, bounds: `${bounds}; every ASCII text of ${n} characters`, weight: n, run: async (S) => {
    const { Context } = S.load("client/4_context.ts");
    const { commands, fallback, prefixes, names, me } = mk(S);
    const text = S.str("text", n, 0, 127);
    const ctx = new Context(client(me), me, { type: "message", message: { type: "text", text } });
    const got = Context.has.command(commands, fallback)(ctx);
    S.assert(got === reference(S, text, prefixes, names, me.username), "a command condition is decided wrongly");
    S.note("got", got);
  } }); };
  command("command", 'the command "gO" of the bot @Ab', deep ? [0, 1, 2, 3, 4, 5, 6, 7, 8] : [0, 1, 2, 3, 4, 5, 6, 7], () => ({ commands: "gO", prefixes: ["/"], names: ["gO"], me: ME }));
  command("user-command", 'the commands "a" and "bc" of a user with or without a name', [1, 2, 3, 4, 5], (S) => { const me = S.choose("me", [{ id: 1, isBot: false }, { id: 1, isBot: false, username: "u" }]); return { commands: ["a", "bc"], prefixes: ["\\"], names: ["a", "bc"], me }; });
  command("prefixes", 'prefixes "!", "??" and "@" given with the command, or as the default ones', [1, 2, 3, 4, 5, 6], (S) => {
    const prefixes = ["!", "??", "@"];
    return S.choose("own", [true, false]) ? { commands: { names: ["a", "b"], prefixes }, fallback: "#", prefixes, names: ["a", "b"], me: ME } : { commands: ["a", "b"], fallback: prefixes, prefixes, names: ["a", "b"], me: ME };
  });
  command("pattern-command", "the command pattern ^x[0-9]$ beside the command y", [2, 3, 4, 5, 6], () => ({ commands: [/^x[0-9]$/, "y"], prefixes: ["/"], names: [/^x[0-9]$/, "y"], me: ME }));
  cs.push({ name: "command-updates", bounds: "the text of a command in every kind of message and in a caption, and every white space character after it", run: async (S) => {
    const { Context } = S.load("client/4_context.ts");
    const kind = S.choose("kind", ["message", "editedMessage", "scheduledMessage", "secretMessage"]), t = S.choose("type", ["text", "link", "photo"]);
    const c = S.str("c", 1), u = c.charCodeAt(0);
    const space = u === 32 || (u >= 9 && u <= 13) || u === 0xA0 || u === 0xFEFF || u === 0x1680 || (u >= 0x2000 && u <= 0x200A) || u === 0x2028 || u === 0x2029 || u === 0x202F || u === 0x205F || u === 0x3000;
    S.assume(space || (u >= 97 && u <= 122));
    const ctx = new Context(client(ME), ME, { type: kind, [kind]: { type: t, [t === "photo" ? "caption" : "text"]: "/go" + c + "x", photo: {} } });
    S.assert(Context.has.command("go")(ctx) === (kind === "message" && t === "text" && space), "a command is found in what is not a new text message, or its end is found wrongly");
  } });
  cs.push({ name: "prefix-sets", bounds: "every two prefixes of one or two characters, setting the prefixes twice", run: async (S) => {
    const { Context } = S.load("client/4_context.ts"), { Composer } = S.load("client/5_composer.ts");
    const n = S.choose("n", [1, 2]), m = S.choose("m", [1, 2]), a = S.str("a", n, 33, 126), b = S.str("b", m, 33, 126);
    const k = Math.min(n, m);
    let clash = true; for (let i = 0; i < k; i++) clash = clash & (a.charCodeAt(i) === b.charCodeAt(i));
    if (n === m && clash) return; // equal prefixes
    const o = S.attempt(() => Context.has.command({ names: "x", prefixes: [a, b] }));
    S.assert(o.ok === !clash, "prefixes that cannot be told apart are accepted, or others refused");
    if (o.ok) { const t = S.choose("which", [a, b]) + "x"; S.assert(o.value(new Context(client(ME), ME, { type: "message", message: { type: "text", text: t } })), "a prefix is not recognised"); }
    const c = new Composer(); c.prefixes = a;
    S.assert(!S.attempt(() => { c.prefixes = b; }).ok, "the prefixes are set twice");
    let ran = 0; c.command("x", () => { ran++; });
    await c.handleUpdate(client(ME), { type: "message", message: { type: "text", text: a + "x" } });
    S.assert(ran === 1, "a command with the composer's prefix does not run");
    await c.handleUpdate(client(ME), { type: "message", message: { type: "text", text: "/x" } });
    S.assert(ran === 1 || (n === 1 && a === "/"), "the usual prefix is accepted beside the composer's own");
  } });
  // ---- queries
  for (const [kind, field] of [["callbackQuery", "data"], ["inlineQuery", "query"], ["chosenInlineResult", "query"]]) cs.push({ name: "texts-" + kind, bounds: `every ${field} of 0..4 characters (any UTF-16 units) or none against a text, a pattern, and a list of them`, run: async (S) => {
    const { Context } = S.load("client/4_context.ts");
    const n = S.choose("n", kind === "callbackQuery" ? [-1, 0, 1, 2, 3, 4] : [0, 1, 2, 3, 4]);
    const text = n < 0 ? undefined : S.str("text", n);
    const wanted = S.choose("wanted", ["ab", "", /b$/, ["ab", /^c/, "abcd"], []]);
    const v = { id: "1" }; if (text !== undefined) v[field] = text;
    const at = (i, c) => n > i && text.charCodeAt(i) === c.charCodeAt(0);
    const eq = (x) => { if (n !== x.length) return false; let r = true; for (let i = 0; i < n; i++) r = r & at(i, x[i]); return r ? true : false; };
    const one = (w) => typeof w === "string" ? eq(w) : w.source === "b$" ? at(n - 1, "b") : at(0, "c");
    const want = n >= 0 && (Array.isArray(wanted) ? wanted.some(one) : one(wanted));
    const other = S.choose("other", [false, true]);
    const ctx = new Context(client(ME), ME, other ? { type: "poll", poll: v } : { type: kind, [kind]: v });
    S.assert(Context.has[kind](wanted)(ctx) === (want && !other), "the condition on a query's text is decided wrongly");
  } });
  // ---- everything together
  cs.push({ name: "pipeline", bounds: "on, command, callbackQuery, inlineQuery, chosenInlineResult, chatType, filter and use registered in one order; a message with every two-character ASCII text in a private chat or a channel, a photo, a callback query with every one-character data, an inline query, another update", weight: 5, run: async (S) => {
    const { Composer } = S.load("client/5_composer.ts");
    const c = new Composer(), log = [];
    const pass = S.choose("pass", [true, false]);
    const h = (id) => async (_, next) => { log.push(id); if (pass) await next(); };
    c.on("message", (_, next) => { log.push("message"); return next(); });
    c.on("message:text").filter((ctx) => ctx.message.text.length === 2, (_, next) => { log.push("two"); return next(); });
    c.command("g", h("command"));
    c.callbackQuery("d", h("data"));
    c.inlineQuery(/^q/, h("query"));
    c.chosenInlineResult("q", h("chosen"));
    c.chatType("private", h("private"));
    c.chatType(["channel", "group"]).on(":photo", h("photo"));
    c.use(() => { log.push("last"); });
    const k = S.choose("kind", ["text", "photo", "callback", "inline", "chosen", "other"]);
    const chat = { id: 1, type: S.choose("chat", ["private", "channel"]) };
    const text = S.str("text", k === "text" ? 2 : 1, 0, 127);
    const u = k === "text" ? { type: "message", message: { type: "text", text, chat, from: {} } } : k === "photo" ? { type: "message", message: { type: "photo", photo: {}, chat, from: {} } }
      : k === "callback" ? { type: "callbackQuery", callbackQuery: { data: text, message: { chat, type: "text" } } } : k === "inline" ? { type: "inlineQuery", inlineQuery: { query: text } } : k === "chosen" ? { type: "chosenInlineResult", chosenInlineResult: { query: text } } : { type: "poll", poll: {} };
    await c.handleUpdate(client(ME), u);
    const want = [];
    const stop = [k === "text" && text === "/g" && "command", k === "text" && text === "/G" && "command", k === "callback" && text === "d" && "data", k === "inline" && text === "q" && "query", k === "chosen" && text === "q" && "chosen", ["text", "photo", "callback"].includes(k) && chat.type === "private" && "private", k === "photo" && chat.type === "channel" && "photo"].filter((x) => x);
    if (k === "text" || k === "photo") want.push("message");
    if (k === "text") want.push("two");
    if (pass) want.push(...stop, "last"); else want.push(stop[0] ?? "last");
    S.assertEq(log, want, "other handlers run than those whose conditions hold, or in another order");
  } });
  return cs;
};
