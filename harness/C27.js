"use strict";
// C27 Formatting and media types convert between API and protocol without loss
exports.title = "Formatting and media types convert between API and protocol without loss";
exports.assumptions = [
  "the server echoes what was sent: an input constructor comes back as the matching received constructor with the same fields",
  "texts other than callback data consist of ASCII characters (other texts on the wire are C02)",
  "links do not start with tg: (tg://user links become mentions) and have a host without special characters",
  "working hours are multiples of a minute; date formats are written in the order of the documentation; at most four flags of a set of rights differ from the others",
  "the number of reactions of a suggested reaction area is not sent, and neither is the limit of reactions per message",
];
const INT = [-(2 ** 31), 2 ** 31 - 1], LONG = [-(2n ** 63n), 2n ** 63n - 1n];
const text = (S, n, len = 2) => S.str(n, len, 1, 126);
const int = (S, n) => S.int(n, ...INT);
const long = (S, n) => S.big(n, ...LONG);
// numbers of files without zero bytes (how file identifiers are written is C17)
const fileNumber = (S, n) => 0x0701020304050600n | BigInt(S.int(n, 1, 255));
const id = (S, n) => S.int(n, 1, 2 ** 40 - 1);
const maybe = (S, n, f) => S.choose(n, [false, true]) ? f() : undefined;
const FORMATS = [];
for (const w of ["", "w"]) for (const d of ["", "d", "D"]) for (const t of ["", "t", "T"]) FORMATS.push(w + d + t);
FORMATS.push("r");
// a set of flags: up to four neighbouring ones are arbitrary, the others are all equal
const flags = (S, names, base) => {
  const o = {}, groups = [];
  for (let i = 0; i < names.length; i += 4) groups.push(i);
  const rest = S.choose("rest", base), g = S.choose("group", groups);
  names.forEach((n, i) => { o[n] = i >= g && i < g + 4 ? S.bool(n) : rest; });
  return o;
};
// what the server makes of what it is sent
const received = (o) => {
  if (Array.isArray(o)) return o.map(received);
  if (o === null || typeof o !== "object" || o instanceof Uint8Array || typeof o._ !== "string") return o;
  const r = {};
  for (const k of Object.keys(o)) r[k] = received(o[k]);
  const users = () => o.users && { users: o.users.map((u) => u.user_id) };
  switch (o._) {
    case "inputMessageEntityMentionName": return { _: "messageEntityMentionName", offset: o.offset, length: o.length, user_id: o.user_id.user_id };
    case "inputKeyboardButtonUrlAuth": return { _: "keyboardButtonUrlAuth", text: o.text, url: o.url, fwd_text: o.fwd_text, button_id: 7, style: o.style };
    case "inputMediaAreaChannelPost": return { _: "mediaAreaChannelPost", coordinates: o.coordinates, channel_id: o.channel.channel_id, msg_id: o.msg_id };
    case "inputGeoPoint": return { ...r, _: "geoPoint", access_hash: 0n };
    case "inputPageBlockMap": return { ...r, _: "pageBlockMap" };
  }
  return o._.startsWith("inputPrivacyValue") ? { ...r, ...users(), _: "p" + o._.slice(6) } : r;
};
// undefined and false mean the same for flags
const lax = (o) => {
  if (Array.isArray(o)) return o.map(lax);
  if (o === null || typeof o !== "object" || o instanceof Uint8Array) return o;
  const r = {};
  for (const k of Object.keys(o)) { const v = lax(o[k]); if (v !== false) r[k] = v; }
  return r;
};
const peers = (seen = []) => (peer) => {
  seen.push(peer);
  const f = peer._ === "peerUser" ? "private" : peer._ === "peerChat" ? "group" : "channel";
  const n = Number(peer.user_id ?? peer.chat_id ?? peer.channel_id);
  return [{ id: f === "private" ? n : f === "group" ? -n : -1000000000000 - n, type: f }, 77n];
};
exports.cases = (tier) => {
  const cs = [];
  const add = (name, bounds, run, weight = 1) => cs.push({ name, bounds, run, weight });
  const wire = (S, o) => { const { Api } = S.load("2_tl.ts"); return Api.deserializeType("X", Api.serializeObject(o)); };

  // ---- formatting
  const PLAIN = ["mention", "hashtag", "botCommand", "url", "email", "bold", "italic", "code", "cashtag", "phoneNumber", "underline", "strikethrough", "bankCard", "spoiler"];
  const entity = (S, type) => {
    const e = { type, offset: int(S, "offset"), length: int(S, "length") };
    if (type === "pre") e.language = text(S, "language");
    if (type === "textLink") e.url = S.choose("scheme", ["https://a.example/", "http://b.example:8/x?"]) + text(S, "url", 3);
    if (type === "textMention") e.userId = id(S, "userId");
    if (type === "blockquote" && S.choose("collapsible", [false, true])) e.collapsible = true;
    if (type === "customEmoji") e.customEmojiId = String(long(S, "emoji"));
    if (type === "dateTime") { e.dateTime = int(S, "dateTime"); e.format = S.choose("format", FORMATS) || undefined; }
    return e;
  };
  const TL_ENTITY = { mention: "messageEntityMention", hashtag: "messageEntityHashtag", botCommand: "messageEntityBotCommand", url: "messageEntityUrl", email: "messageEntityEmail", bold: "messageEntityBold", italic: "messageEntityItalic", code: "messageEntityCode", pre: "messageEntityPre", textLink: "messageEntityTextUrl", textMention: "messageEntityMentionName", cashtag: "messageEntityCashtag", phoneNumber: "messageEntityPhone", underline: "messageEntityUnderline", strikethrough: "messageEntityStrike", blockquote: "messageEntityBlockquote", bankCard: "messageEntityBankCard", spoiler: "messageEntitySpoiler", customEmoji: "messageEntityCustomEmoji", dateTime: "messageEntityFormattedDate" };
  add("entities", "every kind of formatting with any offset, length, user, emoji, date, 2-letter language, link ending in any 3 ASCII characters, every date format", async (S) => {
    const { messageEntityToTlObject, constructMessageEntity } = S.load("types/2_message_entity.ts");
    const type = S.choose("type", [...PLAIN, "pre", "textLink", "textMention", "blockquote", "customEmoji", "dateTime"]);
    const e = entity(S, type), asked = [];
    const tl = received(wire(S, messageEntityToTlObject(e, peers(asked))));
    S.assertEq(tl._, TL_ENTITY[type], `${type}: it becomes another kind of formatting`);
    S.assertEq([tl.offset, tl.length], [e.offset, e.length], `${type}: its range changes`);
    S.assertEq(constructMessageEntity(tl), e, `${type}: it does not come back as it was`);
    if (type === "textMention") S.assertEq(asked.map((x) => x.user_id), [BigInt(e.userId)], "another user is mentioned");
    S.cover(type);
  }, 2);
  add("user-links", "links of the form tg://user?id=… with one to four digits", async (S) => {
    const { messageEntityToTlObject, constructMessageEntity } = S.load("types/2_message_entity.ts");
    const { secretMessageEntityToTlObject, constructSecretMessageEntity } = S.load("types/0_secret_message_entity.ts");
    const n = S.choose("n", [1, 2, 3, 4]), u = S.int("u", 10 ** (n - 1), 10 ** n - 1);
    const e = { type: "textLink", offset: int(S, "offset"), length: int(S, "length"), url: "tg://user" + S.choose("slash", ["", "/"]) + "?id=" + String(u) };
    const want = { type: "textMention", offset: e.offset, length: e.length, userId: u };
    S.assertEq(constructMessageEntity(received(messageEntityToTlObject(e, peers()))), want, "the link does not mention the user");
    S.assertEq(constructSecretMessageEntity(secretMessageEntityToTlObject(e)), want, "the link in a secret chat does not mention the user");
    S.cover("mention");
  });
  add("secret-entities", "every kind of formatting of secret chats, as for the others", async (S) => {
    const { secretMessageEntityToTlObject, constructSecretMessageEntity } = S.load("types/0_secret_message_entity.ts");
    const { SecretChats } = S.load("2_tl.ts");
    const type = S.choose("type", [...PLAIN, "pre", "textLink", "textMention", "blockquote", "customEmoji"]);
    const e = entity(S, type);
    delete e.collapsible;
    if (type === "textMention") e.userId = S.int("secretUserId", 1, 2 ** 31 - 1);
    const o = secretMessageEntityToTlObject(e), tl = SecretChats.deserializeType("MessageEntity", SecretChats.serializeObject(o));
    S.assertEq(tl._, TL_ENTITY[type], `${type}: it becomes another kind of formatting`);
    S.assertEq([tl.offset, tl.length], [e.offset, e.length], `${type}: its range changes`);
    S.assertEq(constructSecretMessageEntity(tl), e, `${type}: it does not come back as it was`);
    S.cover(type);
  }, 2);
  const PRIORITY = ["blockquote", "pre", "code", "dateTime", "textLink", "mention", "bold", "italic", "underline", "strikethrough", "spoiler", "customEmoji"];
  for (const secret of [false, true]) add(secret ? "order-secret" : "order", `${tier === "quick" ? 2 : 3} ranges with any offsets and lengths, each of any kind of a list of twelve`, async (S) => {
    const { sortMessageEntities, sortSecretMessageEntities } = { ...S.load("types/2_message_entity.ts"), ...S.load("types/0_secret_message_entity.ts") };
    const N = tier === "quick" ? 2 : 3, kinds = PRIORITY.filter((k) => !secret || k !== "dateTime");
    const list = [];
    for (let i = 0; i < N; i++) list.push({ type: S.choose("type" + i, N === 2 || i < 2 ? kinds : ["pre", "bold"]), offset: S.int("offset" + i, 0, 2 ** 31 - 1), length: S.int("length" + i, 1, 2 ** 31 - 1) });
    const copies = list.map((e) => ({ ...e })), before = [...list];
    const sorted = (secret ? sortSecretMessageEntities : sortMessageEntities)(list);
    S.assert(sorted.length === N && before.every((e) => sorted.includes(e)), "ranges are lost or repeated");
    before.forEach((e, i) => S.assertEq(e, copies[i], "a range changes"));
    for (let i = 1; i < N; i++) {
      const a = sorted[i - 1], b = sorted[i];
      S.assert(a.offset <= b.offset, "ranges are not ordered by where they start");
      if (a.offset === b.offset) {
        S.assert(a.length >= b.length, "a range precedes a longer one that starts where it does");
        if (a.length === b.length) { S.assert(kinds.indexOf(a.type) <= kinds.indexOf(b.type), "equal ranges are not ordered by kind"); S.cover("equal"); }
      }
    }
    S.cover("sorted");
  }, 2);
  // ---- keyboards
  const style = (S, n) => {
    const kind = S.choose(n, ["none", "background", "emoji", "both"]);
    if (kind === "none") return undefined;
    const s = {};
    if (kind !== "emoji") s.background = S.choose(n + ".background", ["danger", "primary", "success"]);
    if (kind !== "background") { const e = long(S, n + ".emoji"); S.assume(e !== 0n); s.customEmojiId = String(e); }
    return s;
  };
  const INLINE = ["url", "callbackData", "miniApp", "loginUrl", "switchInlineQuery", "switchInlineQueryCurrentChat", "switchInlineQueryChosenChats", "callbackGame", "pay", "copy"];
  const inline = (S, type, n = "") => {
    const b = { type, text: text(S, n + "text") };
    if (type === "url" || type === "miniApp") b.url = text(S, n + "url");
    if (type === "callbackData") b.callbackData = S.str(n + "data", S.choose(n + "n", [0, 1, 2]), 0, 0xD7FF);
    if (type === "loginUrl") b.loginUrl = { url: text(S, n + "url"), forwardText: maybe(S, n + "forward", () => text(S, n + "forwardText")) };
    if (type.startsWith("switch")) b.inlineQuery = text(S, n + "query");
    if (type === "switchInlineQueryChosenChats") { const m = S.choose(n + "chats", [...Array(15).keys()]) + 1; b.isUser = !!(m & 1); b.isBot = !!(m & 2); b.isGroup = !!(m & 4); b.isChannel = !!(m & 8); }
    if (type === "copy") b.textToCopy = text(S, n + "copy");
    return b;
  };
  add("inline-buttons", "every kind of inline button with any 2-character texts, callback data of up to 2 characters, every combination of chosen chats, every style with any emoji", async (S) => {
    const { inlineKeyboardButtonToTlObject, constructInlineKeyboardButton } = S.load("types/1_inline_keyboard_button.ts");
    const type = S.choose("type", INLINE), b = inline(S, type);
    if (type === "url" || type === "switchInlineQueryChosenChats" && !b.isUser || type === "pay") b.style = style(S, "style");
    const resolver = async (x) => ({ _: "inputUser", user_id: 5n, access_hash: 6n });
    const tl = received(wire(S, await inlineKeyboardButtonToTlObject(b, resolver)));
    S.assertEq(lax(constructInlineKeyboardButton(tl)), lax(b), `${type}: it does not come back as it was`);
    S.cover(type);
  }, 2);
  const ADMIN = ["isAnonymous", "canManageChat", "canDeleteMessages", "canManageVideoChats", "canRestrictMembers", "canPromoteMembers", "canChangeInfo", "canInviteUsers", "canPostMessages", "canEditMessages", "canPinMessages", "canManageTopics", "canPostStories", "canEditStories", "canDeleteStories", "canManageDirectMessages", "canManageTags", "canManageLinkedChats"];
  const rights = (one) => Object.fromEntries(ADMIN.map((n) => [n, n === one]));
  const KEYS = ["text", "requestUser", "requestChat", "requestContact", "requestLocation", "requestPoll", "miniApp"];
  const key = (S, type, n = "") => {
    const b = { type, text: text(S, n + "text") };
    if (type === "requestUser" || type === "requestChat") b.requestId = int(S, n + "requestId");
    if (type === "requestUser") for (const f of ["isBot", "isPremium"]) b[f] = S.choose(n + f, [undefined, false, true]);
    if (type === "requestChat") {
      b.isChannel = S.choose(n + "isChannel", [false, true]);
      for (const f of b.isChannel ? ["hasUsername"] : ["isForum", "hasUsername"]) b[f] = S.choose(n + f, [undefined, false, true]);
      for (const f of b.isChannel ? ["isOwner"] : ["isOwner", "isBotMember"]) b[f] = S.choose(n + f, [false, true]);
      const r = b.hasUsername === undefined ? S.choose(n + "rights", ["none", "user", "bot", "both"]) : "none";
      if (r === "user" || r === "both") b.userAdministratorRights = rights("canPinMessages");
      if (r === "bot" || r === "both") b.botAdministratorRights = rights("canInviteUsers");
    }
    if (type === "requestPoll") b.pollType = S.choose(n + "pollType", [undefined, "regular", "quiz"]);
    if (type === "miniApp") b.url = text(S, n + "url");
    return b;
  };
  // fields whose three values differ in meaning
  const three = (b) => [b.isBot, b.isPremium, b.isForum, b.hasUsername, b.pollType];
  add("keyboard-buttons", "every kind of keyboard button with any 2-character texts and request numbers, every combination of conditions, every style with any emoji", async (S) => {
    const { keyboardButtonToTlObject, constructKeyboardButton } = S.load("types/1_keyboard_button.ts");
    const type = S.choose("type", KEYS), b = key(S, type);
    if (type === "text" || type === "requestUser" && !b.isBot && !b.isPremium || type === "requestChat" && !b.isForum && !b.hasUsername && !b.isOwner || type === "miniApp") b.style = style(S, "style");
    const back = constructKeyboardButton(wire(S, keyboardButtonToTlObject(b)));
    S.assertEq(lax(back), lax(b), `${type}: it does not come back as it was`);
    S.assertEq(three(back), three(b), `${type}: a condition that is given becomes one that is not, or the reverse`);
    S.cover(type);
  }, 2);
  add("reply-markup", "every kind of reply markup with any flags and an optional placeholder; up to two rows of up to two buttons of any kind", async (S) => {
    const { replyMarkupToTlObject, constructReplyMarkup } = S.load("types/2_reply_markup.ts");
    const type = S.choose("type", ["inlineKeyboard", "keyboard", "removeKeyboard", "forceReply"]);
    const m = { type };
    const rows = (make, kinds) => {
      const shape = S.choose("rows", [[], [0], [1], [2], [1, 2], [2, 1]]);
      let n = 0;
      return shape.map((k) => Array.from({ length: k }, () => { const j = n++; return j === 0 ? make(S, S.choose("kind", kinds), "b0") : { type: "text", text: text(S, "t" + j) }; }));
    };
    if (type === "inlineKeyboard") m.inlineKeyboard = rows(inline, INLINE.filter((k) => k !== "callbackData" && k !== "switchInlineQueryChosenChats")).map((r) => r.map((b) => b.type === "text" ? { type: "copy", text: b.text, textToCopy: b.text } : b));
    if (type === "keyboard") {
      m.keyboard = rows(key, KEYS.filter((k) => k !== "requestChat"));
      for (const f of ["isPersistent", "isResized", "isOneTime"]) m[f] = m.keyboard.length === 1 ? S.choose(f, [false, true]) : false;
    }
    if (type !== "inlineKeyboard") m.isSelective = S.choose("isSelective", [false, true]);
    if (type === "keyboard" || type === "forceReply") m.inputFieldPlaceholder = maybe(S, "placeholder", () => text(S, "placeholderText"));
    const back = constructReplyMarkup(received(wire(S, await replyMarkupToTlObject(m, async () => ({ _: "inputUserSelf" })))));
    S.assertEq(lax(back), lax(m), `${type}: it does not come back as it was`);
    S.cover(type);
  }, 2);
  // ---- rights
  add("administrator-rights", "every administrator right, up to four at a time with any values, the others all granted or all withheld", async (S) => {
    const { chatAdministratorRightsToTlObject, constructChatAdministratorRights } = S.load("types/0_chat_administrator_rights.ts");
    const r = flags(S, ADMIN, [false, true]);
    const back = constructChatAdministratorRights(wire(S, chatAdministratorRightsToTlObject(r)));
    S.assertEq(back, r, "the rights change");
    S.cover("rights");
  });
  const MEMBER = ["canSendMessages", "canSendAudio", "canSendDocuments", "canSendPhotos", "canSendVideos", "canSendVideoNotes", "canSendVoice", "canSendPolls", "canSendStickers", "canSendAnimations", "canSendGames", "canSendInlineBotResults", "canAddWebPagePreviews", "canMakeReactions", "canEditMemberTag", "canChangeInfo", "canInviteUsers", "canPinMessages", "canManageTopics", "canManageLinkedChats"];
  add("member-rights", "every member right, up to four at a time with any values, the others all granted, all withheld or all unspecified; any end date", async (S) => {
    const { chatMemberRightsToTlObject, constructChatMemberRights } = S.load("types/0_chat_member_rights.ts");
    const r = flags(S, MEMBER, [false, true, undefined]), until = maybe(S, "limited", () => int(S, "until"));
    const tl = wire(S, chatMemberRightsToTlObject(r, until));
    S.assertEq(tl.until_date, until ?? 0, "the end date changes");
    const back = constructChatMemberRights(tl);
    for (const n of MEMBER) S.assertEq(back[n], r[n] === undefined ? true : r[n], `${n} changes`);
    const again = constructChatMemberRights(wire(S, chatMemberRightsToTlObject(back, until)));
    S.assertEq(again, back, "rights that were read change when they are sent again");
    S.cover("rights");
  }, 2);
  // ---- reactions and others
  const reaction = (S, n, kind) => kind === "emoji" ? { type: "emoji", emoji: text(S, n + ".emoji") } : kind === "custom" ? { type: "custom", id: String(long(S, n + ".id")) } : { type: "paid" };
  const REACTIONS = ["emoji", "custom", "paid"];
  add("reactions", "every kind of reaction with any emoji and number; two reactions compared; none, all and up to two available reactions", async (S) => {
    const { reactionToTlObject, constructReaction, reactionEqual } = S.load("types/0_reaction.ts");
    const { availableReactionsToTlObject, constructAvailableReactions } = S.load("types/1_available_reactions.ts");
    const what = S.choose("what", ["one", "equal", "available"]);
    if (what === "one") { const r = reaction(S, "a", S.choose("kind", REACTIONS)); S.assertEq(constructReaction(wire(S, reactionToTlObject(r))), r, `${r.type}: the reaction changes`); }
    else if (what === "equal") {
      const a = reaction(S, "a", S.choose("kindA", REACTIONS)), b = reaction(S, "b", S.choose("kindB", REACTIONS));
      const same = a.type !== b.type ? false : a.type === "emoji" ? a.emoji === b.emoji : a.type === "custom" ? a.id === b.id : true;
      S.assertEq(reactionEqual(a, b), same, "reactions are compared wrongly");
      S.cover(same ? "same" : "different");
    } else {
      const type = S.choose("type", ["none", "all", "some"]);
      const a = { type };
      if (type === "some") a.reactions = S.choose("kinds", [[], ["emoji"], ["custom", "emoji"], ["paid", "custom"]]).map((k, i) => reaction(S, "r" + i, k));
      S.assertEq(constructAvailableReactions(wire(S, availableReactionsToTlObject(a))), a, "the available reactions change");
    }
    S.cover(what);
  });
  add("small-types", "birthdays, notification sounds and working hours with any numbers", async (S) => {
    const what = S.choose("what", ["birthday", "default", "none", "local", "ringtone", "hours"]);
    if (what === "birthday") {
      const { birthdayToTlObject, constructBirthday } = S.load("types/0_birthday.ts");
      const b = { day: int(S, "day"), month: int(S, "month"), year: maybe(S, "hasYear", () => int(S, "year")) };
      S.assertEq(constructBirthday(wire(S, birthdayToTlObject(b))), b, "the birthday changes");
    } else if (what === "hours") {
      const { workingHoursToTlObject, constructWorkingHours } = S.load("types/1_working_hours.ts");
      const n = S.choose("n", [0, 1]), unit = constructWorkingHours({ timezone_id: "", weekly_open: [{ start_minute: 1, end_minute: 1 }] }).intervals[0].startsAt;
      S.assert(unit === 60 || unit === 60000, "a minute is not a minute");
      const h = { timezone: text(S, "timezone"), intervals: Array.from({ length: n }, (_, i) => ({ startsAt: S.int("start" + i, 0, 1023) * unit, endsAt: S.choose("end" + i, [1, 1440, 10079]) * unit })) };
      S.assertEq(constructWorkingHours(wire(S, workingHoursToTlObject(h))), h, "the working hours change");
    } else {
      const { notificationSoundToTlObject, constructNotificationSound } = S.load("types/0_notification_sound.ts");
      const s = { type: what };
      if (what === "local") { s.title = text(S, "title"); s.data = text(S, "data"); }
      if (what === "ringtone") s.id = String(long(S, "id"));
      S.assertEq(constructNotificationSound(wire(S, notificationSoundToTlObject(s))), s, "the sound changes");
    }
    S.cover(what);
  });
  const location = (S) => ({ latitude: S.f64("lat"), longitude: S.f64("long"), horizontalAccuracy: maybe(S, "accurate", () => int(S, "accuracy")) });
  add("story-areas", "every kind of interactive area with any numbers", async (S) => {
    const { storyInteractiveAreaToTlObject, constructStoryInteractiveArea } = S.load("types/2_story_interactive_area.ts");
    const type = S.choose("type", ["location", "venue", "reaction", "messageReference", "link", "weather", "gift"]);
    const a = { type, position: {} };
    for (const f of ["xPercentage", "yPercentage", "widthPercentage", "heightPercentage", "rotationAngle"]) a.position[f] = S.f64(f);
    if (type === "location") a.location = location(S);
    if (type === "venue") a.venue = { location: location(S), title: text(S, "title"), address: text(S, "address"), foursquareId: text(S, "fid"), foursquareType: text(S, "ftype") };
    if (type === "reaction") { a.reaction = reaction(S, "r", S.choose("kind", REACTIONS)); a.count = 0; a.isDark = S.choose("dark", [false, true]); a.isFlipped = S.choose("flipped", [false, true]); }
    if (type === "messageReference") a.messageReference = { chatId: -1000000000000 - id(S, "channel") % 997852516352, messageId: int(S, "message") };
    if (type === "link") a.link = text(S, "link");
    if (type === "weather") { a.emoji = text(S, "emoji"); a.temperature = S.f64("temperature"); a.color = int(S, "color"); }
    if (type === "gift") a.slug = text(S, "slug");
    const tl = received(wire(S, storyInteractiveAreaToTlObject(a, peers())));
    S.assertEq(constructStoryInteractiveArea(tl), a, `${type}: it does not come back as it was`);
    S.cover(type);
  });
  add("story-privacy", "every choice of audience with up to two users", async (S) => {
    const { storyPrivacyToTlObject, constructStoryPrivacy } = S.load("types/2_story_privacy.ts");
    const type = S.choose("type", ["everyone", "contacts", "closeFriends", "only"]);
    const p = { type }, users = type === "closeFriends" ? [] : S.choose("n", type === "only" ? [1, 2] : [0, 1, 2]);
    const list = Array.from({ length: users || 0 }, (_, i) => id(S, "user" + i));
    if (type === "only") p.only = list; else if (type !== "closeFriends") p.except = list;
    const rules = storyPrivacyToTlObject(p, peers()).map((r) => received(wire(S, r)));
    S.assertEq(constructStoryPrivacy(rules), p, `${type}: the audience changes`);
    S.cover(type);
  });
  add("privacy-rules", "every privacy rule with up to two users or chats", async (S) => {
    const { inputPrivacyRuleToTlObject } = S.load("types/1_input_privacy_rule.ts"), { constructPrivacyRule } = S.load("types/3_privacy_rule.ts");
    const type = S.choose("type", ["contacts", "everybody", "users", "closeFriends", "premium", "bots", "chatMembers"]);
    const r = { type };
    if (!["closeFriends", "premium"].includes(type)) r.isAllowed = S.choose("allowed", [false, true]);
    const group = type === "chatMembers" && S.choose("group", [false, true]);
    const ids = type === "users" || type === "chatMembers" ? Array.from({ length: S.choose("n", [0, 1, 2]) }, (_, i) => id(S, "id" + i)) : [];
    if (type === "users") r.usersId = ids;
    if (type === "chatMembers") r.chatIds = ids.map((i) => group ? -(i % 999999999999) - 1 + 1 : -1000000000000 - i % 997852516352);
    if (group) for (const c of r.chatIds) S.assume(c < 0);
    const known = peers(), get = (p) => p._ === "peerChannel" && group ? null : known(p);
    const inputPeer = async (c) => group ? { _: "inputPeerChat", chat_id: BigInt(-c) } : { _: "inputPeerChannel", channel_id: BigInt(-1000000000000 - c), access_hash: 1n };
    const tl = received(wire(S, await inputPrivacyRuleToTlObject(r, async (u) => ({ _: "inputUser", user_id: BigInt(u), access_hash: 1n }), inputPeer)));
    const back = constructPrivacyRule(tl, get);
    S.assertEq([back.type, back.isAllowed], [r.type, r.isAllowed], `${type}: another rule comes back`);
    S.assertEq((back.users ?? back.chats ?? []).map((x) => x.id), r.usersId ?? r.chatIds ?? [], `${type}: it is about others`);
    S.cover(type);
  });
  // ---- names the protocol gives to choices
  const NAMES = [
    ["types/0_privacy_setting_key.ts", "privacySettingKeyToTlObject", (x) => x, { phoneNumber: "inputPrivacyKeyPhoneNumber", bio: "inputPrivacyKeyAbout", birthday: "inputPrivacyKeyBirthday", profilePhoto: "inputPrivacyKeyProfilePhoto", forwards: "inputPrivacyKeyForwards", invitation: "inputPrivacyKeyChatInvite", findByPhoneNumber: "inputPrivacyKeyAddedByPhone", voiceMessage: "inputPrivacyKeyVoiceMessages", paidMessageException: "inputPrivacyKeyNoPaidMessages", peerToPeerCall: "inputPrivacyKeyPhoneP2P", gifts: "inputPrivacyKeyStarGiftsAutoSave", savedMusic: "inputPrivacyKeySavedMusic", phoneCall: "inputPrivacyKeyPhoneCall", lastSeen: "inputPrivacyKeyStatusTimestamp" }],
    ["types/0_message_search_filter.ts", "messageSearchFilterToTlObject", (x) => x, { empty: "inputMessagesFilterEmpty", animations: "inputMessagesFilterGif", audios: "inputMessagesFilterMusic", documents: "inputMessagesFilterDocument", photos: "inputMessagesFilterPhotos", videos: "inputMessagesFilterVideo", voiceMessages: "inputMessagesFilterVoice", photosAndVideos: "inputMessagesFilterPhotoVideo", links: "inputMessagesFilterUrl", chatPhotos: "inputMessagesFilterChatPhotos", videoNotes: "inputMessagesFilterRoundVideo", voiceMessagesAndVideoNotes: "inputMessagesFilterRoundVoice", mentions: "inputMessagesFilterMyMentions", pinned: "inputMessagesFilterPinned" }],
    ["types/0_report_reason.ts", "reportReasonToTlObject", (x) => ({ type: x }), { spam: "inputReportReasonSpam", violence: "inputReportReasonViolence", pornography: "inputReportReasonPornography", childAbuse: "inputReportReasonChildAbuse", other: "inputReportReasonOther", copyright: "inputReportReasonCopyright", locationIrrelevant: "inputReportReasonGeoIrrelevant", fake: "inputReportReasonFake", illegalDrugs: "inputReportReasonIllegalDrugs", personalDetails: "inputReportReasonPersonalDetails" }],
  ];
  add("named-choices", "every privacy setting, search filter and report reason", async (S) => {
    const [file, f, make, table] = S.choose("table", NAMES), name = S.choose("name", Object.keys(table));
    const tl = wire(S, S.load(file)[f](make(name)));
    S.assertEq(tl, { _: table[name] }, `${name}: another choice is sent`);
    S.cover(f);
  });
  // ---- rich text
  const UNARY = ["bold", "italic", "underline", "strikethrough", "fixed", "link", "emailLink", "subscript", "superscript", "marked", "phoneNumberLink", "anchor", "spoiler", "mention", "hashtag", "botCommand", "cashtag", "url", "email", "phoneNumber", "bankCard", "textMention", "dateTime"];
  const LEAVES = ["empty", "plain", "math", "customEmoji", "photo"];
  const photo = (pid) => ({ _: "photo", id: pid, access_hash: 3n, file_reference: new Uint8Array([1, 2]), date: 1, dc_id: 2, sizes: [{ _: "photoSize", type: "x", w: 3, h: 4, size: 5 }] });
  const rich = (S, n, kinds, photos) => {
    const type = S.choose(n, kinds);
    if (type === "plain") return { type, text: text(S, n + ".text") };
    if (type === "empty") return { type };
    if (type === "math") return { type, code: text(S, n + ".code") };
    if (type === "customEmoji") return { type, customEmojiId: String(long(S, n + ".emoji")), alt: text(S, n + ".alt") };
    if (type === "photo") { const p = photo(fileNumber(S, n + ".photo")); photos.push(p); return { type, fileId: S.load("types/1_photo.ts").constructPhoto(p).fileId, width: int(S, n + ".width"), height: int(S, n + ".height") }; }
    if (type === "concatenate") return { type, components: S.choose(n + ".n", [0, 1, 2]) === 0 ? [] : [rich(S, n + ".0", ["plain", "bold"], photos), rich(S, n + ".1", ["plain", "math"], photos)] };
    const o = { type };
    if (type === "link") { o.url = text(S, n + ".url"); o.linkPreviewId = String(long(S, n + ".preview")); }
    if (type === "emailLink") o.email = text(S, n + ".email");
    if (type === "phoneNumberLink") o.phoneNumber = text(S, n + ".phone");
    if (type === "anchor") o.name = text(S, n + ".name");
    if (type === "textMention") o.userId = id(S, n + ".user");
    if (type === "dateTime") { o.date = int(S, n + ".date"); o.format = S.choose(n + ".format", n === "a" ? FORMATS : ["r", "wDt"]) || undefined; }
    o.text = n.length > 3 || type === "dateTime" && n === "a" ? { type: "plain", text: text(S, n + ".inner") } : rich(S, n + "/", n === "a" ? (tier === "quick" ? ["plain", "concatenate", "link", "photo"] : [...LEAVES, ...UNARY, "concatenate"]) : ["plain"], photos);
    return o;
  };
  add("rich-text", "every kind of rich text around plain text, a concatenation, a link or a photo (thorough: around every kind), with any 2-character texts and numbers", async (S) => {
    const { richTextComponentToTlObject, constructRichTextComponent } = S.load("types/3_rich_text_component.ts");
    const photos = [], r = rich(S, "a", [...LEAVES, ...UNARY, "concatenate"], photos);
    const tl = wire(S, richTextComponentToTlObject(r));
    S.assertEq(constructRichTextComponent(tl, photos), r, `${r.type}: it does not come back as it was`);
    S.cover(r.type);
  }, 3);
  // ---- page blocks
  const plain = (S, n) => ({ type: "plain", text: text(S, n) });
  const caption = (S, n) => ({ text: plain(S, n + ".text"), credit: plain(S, n + ".credit") });
  const TEXTS = ["paragraph", "pre", "footer", "kicker", "heading1", "heading2", "heading3", "heading4", "heading5", "heading6", "thinking"];
  const MEDIA = ["photo", "video", "animation", "audio", "voice"];
  const BLOCKS = [...TEXTS, "divider", "anchor", "blockQuote", "pullQuote", "embed", "math", "table", "map", "list", "orderedList", "photo", "video", "animation", "audio", "voice"];
  const HOLDERS = ["list", "orderedList", "cover", "embedPost", "collage", "slideshow", "details", "blockQuoteBlocks"];
  // media are named by a label; docs collects what the server will know about them
  const media = (S, n, type, docs) => {
    const b = { type, [type]: { label: n }, caption: caption(S, n) };
    docs.push({ n, type, id: fileNumber(S, n + ".id"), source: b[type] });
    if (type === "photo") { b.isSpoiler = S.choose(n + ".spoiler", [false, true]); b.url = maybe(S, n + ".hasUrl", () => text(S, n + ".url")); b.linkPreviewId = b.url === undefined ? undefined : String(S.big(n + ".preview", 1n, LONG[1])); }
    if (type === "video" || type === "animation") for (const f of ["isSpoiler", "isLoop", "isAutoplay"]) b[f] = S.choose(n + f, [false, true]);
    return b;
  };
  const block = (S, type, n, docs) => {
    if (type === "divider") return { type };
    if (type === "anchor") return { type, name: text(S, n + ".name") };
    if (type === "math") return { type, code: text(S, n + ".code") };
    if (type === "pre") return { type, text: plain(S, n), language: maybe(S, n + ".hasLanguage", () => text(S, n + ".language")) };
    if (TEXTS.includes(type)) return { type, text: plain(S, n) };
    if (type === "blockQuote" || type === "pullQuote") return { type, text: plain(S, n), caption: plain(S, n + ".caption") };
    if (MEDIA.includes(type)) return media(S, n, type, docs);
    if (type === "embed") return { type, isFullWidth: S.choose(n + "f", [false, true]), isScrollingAllowed: S.choose(n + "s", [false, true]), ...(S.choose(n + ".opt", [false, true]) ? { url: text(S, n + ".url"), html: text(S, n + ".html"), posterPhotoId: String(S.big(n + ".poster", 1n, LONG[1])), width: int(S, n + ".w"), height: int(S, n + ".h") } : {}), caption: caption(S, n) };
    if (type === "table") {
      const cell = () => { const o = flags(S, ["isHeader", "isCenterAligned", "isRightAligned", "isMiddleVerticallyAligned", "isBottomVerticallyAligned"], [false, true]); if (S.choose(n + ".opt", [false, true])) Object.assign(o, { text: plain(S, n + ".cell"), colspan: int(S, n + ".colspan"), rowspan: int(S, n + ".rowspan") }); return o; };
      return { type, isBordered: S.choose(n + "b", [false, true]), isStriped: S.choose(n + "s", [false, true]), title: plain(S, n), rows: S.choose(n + ".rows", [0, 1]) ? [{ cells: [cell()] }, { cells: [] }] : [] };
    }
    if (type === "map") return { type, location: location(S), zoom: int(S, n + ".zoom"), width: int(S, n + ".w"), height: int(S, n + ".h"), caption: caption(S, n) };
    const item = (i, f) => ({ type: "text", isCheckbox: S.choose(n + i + "c", [false, true]), isChecked: S.choose(n + i + "k", [false, true]), text: plain(S, n + i), ...f });
    if (type === "list") return { type, items: [item("x"), item("y")].slice(0, S.choose(n + ".n", [0, 1, 2])) };
    if (type === "orderedList") return { type, isReversed: S.choose(n + "r", [false, true]), ...(S.choose(n + ".opt", [false, true]) ? { start: int(S, n + ".start"), itemsType: text(S, n + ".type") } : {}), items: [item("x", S.choose(n + ".iopt", [false, true]) ? { number: text(S, n + ".num"), value: int(S, n + ".value"), itemType: text(S, n + ".itype") } : {})] };
  };
  const hold = (S, type, n, blocks) => {
    if (type === "list") return { type, items: [{ type: "text", isCheckbox: false, isChecked: false, text: plain(S, n) }, { type: "blockList", isCheckbox: S.choose(n + "c", [false, true]), isChecked: S.choose(n + "k", [false, true]), blocks }] };
    if (type === "orderedList") return { type, isReversed: false, items: [{ type: "blockList", isCheckbox: S.choose(n + "c", [false, true]), isChecked: S.choose(n + "k", [false, true]), blocks, number: text(S, n + ".num"), value: int(S, n + ".value"), itemType: text(S, n + ".itype") }, { type: "text", isCheckbox: true, isChecked: false, text: plain(S, n) }] };
    if (type === "cover") return { type, cover: blocks[0] };
    if (type === "embedPost") return { type, url: text(S, n + ".url"), linkPreviewId: String(long(S, n + ".preview")), authorPhotoId: String(long(S, n + ".author")), author: text(S, n + ".name"), date: int(S, n + ".date"), blocks, caption: caption(S, n) };
    if (type === "collage" || type === "slideshow") return { type, items: blocks, caption: caption(S, n) };
    if (type === "details") return { type, isOpen: S.choose(n + "o", [false, true]), blocks, title: plain(S, n) };
    return { type, blocks, caption: plain(S, n) };
  };
  const there = (S, blocks, docs) => {
    const { inputPageBlockToTlObject, collectMediaFileSources } = S.load("types/4_input_page_block.ts");
    const sources = collectMediaFileSources(blocks), photoIds = [], documentIds = [];
    S.assert(sources.length === docs.length && docs.every((d) => sources.filter((s) => s.fileSource === d.source && s.type === d.type).length === 1), "a medium is not uploaded, or more than once, or as something else");
    for (const s of sources) (s.type === "photo" ? photoIds : documentIds).push(docs.find((d) => d.source === s.fileSource).id);
    return blocks.map((b) => received(wire(S, inputPageBlockToTlObject(b, photoIds, documentIds))));
  };
  const known = (docs) => {
    const attribute = { video: [{ _: "documentAttributeVideo", duration: 1, w: 1, h: 1 }], animation: [{ _: "documentAttributeVideo", duration: 1, w: 1, h: 1 }, { _: "documentAttributeAnimated" }], audio: [{ _: "documentAttributeAudio", duration: 1 }], voice: [{ _: "documentAttributeAudio", duration: 1, voice: true }] };
    return [docs.filter((d) => d.type === "photo").map((d) => photo(d.id)), docs.filter((d) => d.type !== "photo").map((d) => ({ _: "document", id: d.id, access_hash: 9n, file_reference: new Uint8Array([4]), date: 1, mime_type: "a/b", size: 1n, dc_id: 2, attributes: attribute[d.type] }))];
  };
  // the received form of what was sent: media carry a file identifier instead of their source
  const same = (S, got, sent, docs, at = "") => {
    const { deserializeFileId, FileType } = S.load("types/_file_id.ts");
    const types = { photo: FileType.Photo, video: FileType.Video, animation: FileType.Animation, audio: FileType.Audio, voice: FileType.VoiceNote };
    const fix = (g, s) => {
      if (Array.isArray(s)) { S.assert(Array.isArray(g) && g.length === s.length, "the number of parts changes"); return s.map((x, i) => fix(g[i], x)); }
      if (s === null || typeof s !== "object") return s;
      const o = {};
      for (const k of Object.keys(s)) {
        if (k === s.type && MEDIA.includes(k)) {
          const f = deserializeFileId(g.fileId), d = docs.find((x) => x.source === s[k]);
          S.assertEq(f.location.id, d.id, `${k}: it shows another file`);
          S.assertEq(f.type, types[k], `${k}: its file has another type`);
          o.fileId = g.fileId;
        } else o[k] = fix(g?.[k], s[k]);
      }
      return o;
    };
    S.assertEq(lax(got), lax(fix(got, sent)), "the blocks change");
  };
  for (let part = 0; part < 4; part++) add(`page-blocks-${part}`, "every kind of page block without nested blocks with any 2-character texts and numbers, every combination of flags", async (S) => {
    const { constructPageBlock } = S.load("types/4_page_block.ts");
    const type = S.choose("type", BLOCKS.filter((_, i) => i % 4 === part)), docs = [];
    const b = block(S, type, "b", docs);
    const [tl] = there(S, [b], docs), back = constructPageBlock(tl, ...known(docs));
    same(S, [back], [b], docs);
    S.cover(type);
  }, 2);
  add("page-order", "a photo, a block with a photo, a voice message and an animation in it (of every kind that holds blocks), an audio file and a photo", async (S) => {
    const { constructPageBlock } = S.load("types/4_page_block.ts");
    const docs = [], m = (n, type) => { const b = { type, [type]: { label: n }, caption: { text: { type: "empty" }, credit: { type: "empty" } } }; docs.push({ n, type, id: 0x0701020304050601n + BigInt(docs.length), source: b[type] }); return b; };
    const holder = S.choose("holder", HOLDERS), inner = S.choose("inner", ["none", ...(tier === "quick" ? ["collage"] : HOLDERS)]);
    const first = m("p0", "photo");
    let deep = holder === "cover" ? [m("p1", S.choose("cover", ["photo", "voice"]))] : [m("v1", "voice"), m("p1", "photo"), m("a1", "animation")];
    if (inner !== "none") deep = holder === "cover" ? [hold(S, inner, "i", deep)] : [m("p2", "photo"), hold(S, inner, "i", inner === "cover" ? [deep[1]] : deep), m("u2", "audio")];
    if (inner === "cover" && holder !== "cover") docs.splice(docs.findIndex((d) => d.n === "v1"), 1), docs.splice(docs.findIndex((d) => d.n === "a1"), 1);
    const blocks = [first, hold(S, holder, "h", deep), m("u9", "audio"), m("p9", "photo")];
    const tl = there(S, blocks, docs), [photos, documents] = known(docs);
    const back = tl.map((x) => constructPageBlock(x, photos, documents));
    same(S, back, blocks, docs);
    S.cover(holder + "/" + inner);
  }, 3);
  return cs;
};
