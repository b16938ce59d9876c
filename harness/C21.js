"use strict";
// C21 File identifiers encode every file reference reversibly
exports.title = "File identifiers encode every file reference reversibly";
exports.assumptions = ["cases marked (abstract) take the zero-run and base64url encodings to be injective with their decodings as inverses, which C36 decides", "identifiers and access hashes are 64-bit, other numbers 32-bit"];
const TYPES = { Thumbnail: 0, ProfilePhoto: 1, Photo: 2, VoiceNote: 3, Video: 4, Document: 5, Encrypted: 6, Temp: 7, Sticker: 8, Audio: 9, Animation: 10, EncryptedThumbnail: 11, Wallpaper: 12, VideoNote: 13, SecureDecrypted: 14, SecureEncrypted: 15, Background: 16, DocumentAsFile: 17, Ringtone: 18, CallLog: 19, PhotoStory: 20, VideoStory: 21 };
const CLASS = (t) => [0, 1, 2, 11, 12, 20].includes(t) ? "photo" : t === 6 ? "encrypted" : t === 7 ? "temp" : t === 14 || t === 15 ? "secure" : "document";
const PHOTO = Object.values(TYPES).filter((t) => CLASS(t) === "photo"), COMMON = Object.values(TYPES).filter((t) => CLASS(t) !== "photo");
const L = [-(2n ** 63n), 2n ** 63n - 1n], I = [-(2 ** 31), 2 ** 31 - 1];
// the sources of photos, with what tells two of them apart
const sources = (S, p) => {
  const l = (n) => S.big(p + n, ...L), i = (n) => S.int(p + n, ...I);
  return {
    Thumbnail: () => ({ type: 1, fileType: S.choose(p + "thumb-of", [2, 5]), thumbnailType: S.int(p + "thumb", 0, 127) }),
    ChatPhotoSmall: () => ({ type: 2, chatId: l("chat"), chatAccessHash: l("chatHash") }),
    ChatPhotoBig: () => ({ type: 3, chatId: l("chat"), chatAccessHash: l("chatHash") }),
    FullLegacy: () => ({ type: 5, volumeId: l("volume"), localId: i("local"), secret: l("secret") }),
    ChatPhotoSmallLegacy: () => ({ type: 6, chatId: l("chat"), chatAccessHash: l("chatHash"), volumeId: l("volume"), localId: i("local") }),
    ChatPhotoBigLegacy: () => ({ type: 7, chatId: l("chat"), chatAccessHash: l("chatHash"), volumeId: l("volume"), localId: i("local") }),
    StickerSetThumbnailLegacy: () => ({ type: 8, stickerSetId: l("set"), stickerSetAccessHash: l("setHash"), volumeId: l("volume"), localId: i("local") }),
    StickerSetThumbnailVersion: () => ({ type: 9, stickerSetId: l("set"), stickerSetAccessHash: l("setHash"), version: i("version") }),
    Legacy: () => ({ type: 0, secret: l("secret") }),
    StickerSetThumbnail: () => ({ type: 4, stickerSetId: l("set"), stickerSetAccessHash: l("setHash") }),
  };
};
const UNIQUE = ["Thumbnail", "ChatPhotoSmall", "ChatPhotoBig", "FullLegacy", "ChatPhotoSmallLegacy", "ChatPhotoBigLegacy", "StickerSetThumbnailLegacy", "StickerSetThumbnailVersion"];
function abstract(S) {
  S.override("utilities/0_rle.ts", () => ({ rleEncode: (x) => x, rleDecode: (x) => x }));
  S.override("utilities/1_base64.ts", () => ({ base64EncodeUrlSafe: (x) => x, base64DecodeUrlSafe: (x) => x }));
}
const both = (a, b) => a && b;
// whether two files are the same: of the same kind, and the same object
function sameFile(S, a, b) {
  const x = a.location, y = b.location;
  if (x.type !== y.type) return false;
  if (x.type === "web") return S.eq(x.url, y.url);
  if (x.type === "common") return both(CLASS(a.type) === CLASS(b.type), x.id === y.id);
  const k = (s) => s.type === 1 ? "thumb" : s.type <= 3 ? "chat" : s.type === 9 ? "version" : "legacy";
  const s = x.source, t = y.source;
  // which rendition of a photo: small and big chat photos are the renditions a and c
  const rendition = (v) => v.type === 2 ? 97 : v.type === 3 ? 99 : v.thumbnailType;
  if (["thumb", "chat"].includes(k(s)) && ["thumb", "chat"].includes(k(t))) return both(x.id === y.id, rendition(s) === rendition(t));
  if (k(s) !== k(t)) return false;
  if (k(s) === "version") return both(s.stickerSetId === t.stickerSetId, s.version === t.version);
  return both(both(s.volumeId === t.volumeId, s.localId === t.localId), x.id === y.id);
}
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const photo = (S, p, src, over = {}) => ({ type: over.type ?? S.choose(p + "type", PHOTO), dcId: S.int(p + "dc", ...I), location: { type: "photo", id: S.big(p + "id", ...L), accessHash: S.big(p + "hash", ...L), source: sources(S, p)[src]() } });
  const common = (S, p) => ({ type: S.choose(p + "type", COMMON), dcId: S.int(p + "dc", ...I), location: { type: "common", id: S.big(p + "id", ...L), accessHash: S.big(p + "hash", ...L) } });
  const web = (S, p, n) => ({ type: S.choose(p + "type", [2, 4, 5]), dcId: S.int(p + "dc", ...I), location: { type: "web", url: S.str(p + "url", n, 32, 126), accessHash: S.big(p + "hash", ...L) } });
  const withRef = (S, f) => { const n = S.choose("reference", deep ? [null, 0, 1, 3, 25, 260] : [null, 0, 3, 25]); if (n !== null) f.fileReference = S.bytes("ref", n); return f; };
  const roundTrip = (S, f) => {
    const { serializeFileId, deserializeFileId } = S.load("types/_file_id.ts");
    const g = deserializeFileId(serializeFileId(f));
    S.assertEq([g.type, g.dcId], [f.type, f.dcId], "a file identifier does not restore the type and data centre");
    S.assertEq(g.location, f.location, "a file identifier does not restore the location");
    S.assertEq(g.fileReference ?? null, f.fileReference ?? null, "a file identifier does not restore the file reference");
  };
  for (const src of [...UNIQUE, "Legacy", "StickerSetThumbnail"]) cs.push({ name: "photo " + src + " (abstract)", bounds: "every photo type, data centre, identifier, access hash and source, without or with a file reference of several lengths", run: async (S) => { abstract(S); roundTrip(S, withRef(S, photo(S, "", src))); } });
  cs.push({ name: "common (abstract)", bounds: "every other type, data centre, identifier and access hash, without or with a file reference", run: async (S) => { abstract(S); roundTrip(S, withRef(S, common(S, ""))); } });
  cs.push({ name: "web (abstract)", bounds: `every printable address of up to 6 characters${deep ? " and of 300 characters" : ""}`, run: async (S) => { abstract(S); roundTrip(S, web(S, "", S.choose("length", deep ? [0, 1, 4, 6, 300] : [0, 1, 4, 6]))); } });
  cs.push({ name: "text form", weight: 3, bounds: "one file of every kind with every identifier or every reference of 4 bytes, through the real text encoding", run: async (S) => {
    const what = S.choose("what", ["id", "ref", "source"]);
    const f = { type: 5, dcId: 2, fileReference: new Uint8Array([1, 0, 0, 255]), location: { type: "common", id: 77n, accessHash: -1n } };
    if (what === "id") f.location.id = S.big("id", ...L);
    if (what === "ref") f.fileReference = S.bytes("ref", 4);
    if (what === "source") { f.type = 2; f.location = { type: "photo", id: 5n, accessHash: 6n, source: { type: 9, stickerSetId: 0n, stickerSetAccessHash: 1n << 40n, version: S.int("version", ...I) } }; }
    const { serializeFileId } = S.load("types/_file_id.ts");
    const t = serializeFileId(f);
    S.assert(typeof t === "string" || t.length > 0, "a file identifier is not a text");
    roundTrip(S, f);
  } });
  cs.push({ name: "foreign versions", bounds: "every last byte of the identifier of every document", run: async (S) => {
    abstract(S);
    const { serializeFileId, deserializeFileId } = S.load("types/_file_id.ts"), { InputError } = S.load("0_errors.ts"), rle = S.load("utilities/0_rle.ts"), b64 = S.load("utilities/1_base64.ts");
    const raw = rle.rleDecode(b64.base64DecodeUrlSafe(serializeFileId({ type: 5, dcId: 2, location: { type: "common", id: S.big("id", ...L), accessHash: 3n } }))), last = S.int("last", 0, 255);
    const other = new Uint8Array([...raw.slice(0, -1), last]);
    const r = S.attempt(() => deserializeFileId(b64.base64EncodeUrlSafe(rle.rleEncode(other))));
    S.assert(r.ok === (last === 4), "an identifier of another version is accepted or one of this version is refused");
    if (!r.ok) S.assert(r.error instanceof InputError, "a wrong kind of error is raised");
  } });
  const unique = (S, a, b) => {
    const { toUniqueFileId } = S.load("types/_file_id.ts");
    const x = toUniqueFileId(a), y = toUniqueFileId(b), want = sameFile(S, a, b), got = S.eq(x, y);
    S.assert(want === got, "two files have the same unique identifier although they differ, or different ones although they are the same");
    if (want) S.cover("same"); else S.cover("different");
  };
  for (const [i, s1] of UNIQUE.entries()) for (const s2 of UNIQUE.slice(i)) cs.push({ name: `unique ${s1} ${s2} (abstract)`, bounds: "every two such photos", covers: ["different"], run: async (S) => { abstract(S); unique(S, photo(S, "a.", s1, { type: 2 }), photo(S, "b.", s2, { type: S.choose("b.type", [2, 1]) })); } });
  cs.push({ name: "unique common (abstract)", bounds: "every two such files of every type", covers: ["same", "different"], run: async (S) => { abstract(S); unique(S, common(S, "a."), common(S, "b.")); } });
  cs.push({ name: "unique web (abstract)", bounds: "every two addresses of up to 6 characters", covers: ["same", "different"], run: async (S) => { abstract(S); unique(S, web(S, "a.", S.choose("la", [0, 1, 4, 6])), web(S, "b.", S.choose("lb", [0, 1, 4, 6]))); } });
  cs.push({ name: "unique kinds (abstract)", bounds: "every pair of a photo, another file and a web address", covers: ["different"], run: async (S) => {
    abstract(S);
    const src = S.choose("source", UNIQUE), p = () => photo(S, "a.", src, { type: 2 });
    const [a, b] = S.choose("kinds", [["p", "c"], ["p", "w"], ["c", "w"]]), mk = (k, n) => k === "p" ? p() : k === "c" ? common(S, n) : web(S, n, S.choose("length", [0, 4, 6, 13]));
    unique(S, mk(a, "x."), mk(b, "y."));
  } });
  // ---- what the client makes of the server's objects
  cs.push({ name: "photos (abstract)", bounds: "every identifier, access hash, data centre and thumbnail letter; two sizes in both orders", covers: ["story", "photo"], run: async (S) => {
    abstract(S);
    const { getPhotoFileId, deserializeFileId, toUniqueFileId } = S.load("types/_file_id.ts"), story = S.choose("story", [true, false]);
    S.cover(story ? "story" : "photo");
    const t1 = S.int("t1", 97, 122), t2 = S.int("t2", 97, 122), s1 = S.int("s1", 1, 1e6), s2 = S.int("s2", 1, 1e6); S.assume(s1 !== s2);
    const ph = { _: "photo", id: S.big("id", ...L), access_hash: S.big("hash", ...L), file_reference: S.bytes("ref", 5), date: 1, dc_id: S.int("dc", 1, 5), sizes: [{ _: "photoStrippedSize", type: "i", bytes: new Uint8Array(2) }, { _: "photoSize", type: String.fromCharCode(t1), w: 1, h: 1, size: s1 }, S.choose("progressive", [true, false]) ? { _: "photoSizeProgressive", type: String.fromCharCode(t2), w: 2, h: 2, sizes: [1, s2] } : { _: "photoSize", type: String.fromCharCode(t2), w: 2, h: 2, size: s2 }] };
    const { fileId, fileUniqueId } = getPhotoFileId(ph, story), f = deserializeFileId(fileId);
    S.assertEq([f.type, f.dcId, f.fileReference], [story ? 20 : 2, ph.dc_id, ph.file_reference], "a photo's identifier does not hold its type, data centre and reference");
    S.assertEq(f.location, { type: "photo", id: ph.id, accessHash: ph.access_hash, source: { type: 1, fileType: 2, thumbnailType: s1 > s2 ? t1 : t2 } }, "a photo's identifier does not denote its largest size");
    S.assertEq(fileUniqueId, toUniqueFileId(f), "a photo's unique identifier is not that of its identifier");
  } });
  cs.push({ name: "thumbnails (abstract)", bounds: "every identifier, access hash, data centre and thumbnail letter of a document's or a photo's thumbnail", covers: ["photo", "document"], run: async (S) => {
    abstract(S);
    const { deserializeFileId, toUniqueFileId } = S.load("types/_file_id.ts"), { constructThumbnail } = S.load("types/0_thumbnail.ts"), kind = S.choose("kind", ["photo", "document"]), t = S.int("t", 97, 122);
    S.cover(kind);
    const o = { _: kind, id: S.big("id", ...L), access_hash: S.big("hash", ...L), file_reference: S.bytes("ref", 5), date: 1, dc_id: S.int("dc", 1, 5), sizes: [], attributes: [], mime_type: "", size: 1n };
    const r = constructThumbnail({ _: "photoSize", type: String.fromCharCode(t), w: S.int("w", 1, 999), h: S.int("h", 1, 999), size: 7 }, o), f = deserializeFileId(r.fileId);
    S.assertEq([f.type, f.dcId, f.fileReference], [kind === "photo" ? 2 : 0, o.dc_id, o.file_reference], "a thumbnail's identifier does not hold its type, data centre and reference");
    S.assertEq(f.location, { type: "photo", id: o.id, accessHash: o.access_hash, source: { type: 1, fileType: kind === "photo" ? 2 : 5, thumbnailType: t } }, "a thumbnail's identifier does not denote it");
    S.assertEq(r.fileUniqueId, toUniqueFileId(f), "a thumbnail's unique identifier is not that of its identifier");
  } });
  cs.push({ name: "chat photos (abstract)", bounds: "every photo of every chat", run: async (S) => {
    abstract(S);
    const { deserializeFileId, toUniqueFileId } = S.load("types/_file_id.ts"), { constructChatPhoto } = S.load("types/0_chat_photo.ts"), id = S.big("id", ...L), hash = S.big("hash", ...L), chat = S.int("chat", -(2 ** 52), 2 ** 52), dc = S.int("dc", 1, 5);
    const r = constructChatPhoto({ _: S.choose("kind", ["userProfilePhoto", "chatPhoto"]), photo_id: id, dc_id: dc }, chat, hash);
    for (const [fid, uid, type] of [[r.smallFileId, r.smallFileUniqueId, 2], [r.bigFileId, r.bigFileUniqueId, 3]]) {
      const f = deserializeFileId(fid);
      S.assertEq([f.type, f.dcId, f.location], [1, dc, { type: "photo", id, accessHash: 0n, source: { type, chatId: BigInt(chat), chatAccessHash: hash } }], "a chat photo's identifier does not denote it");
      S.assertEq(uid, toUniqueFileId(f), "a chat photo's unique identifier is not that of its identifier");
    }
    S.assert(!S.eq(r.smallFileUniqueId, r.bigFileUniqueId), "the small and the big photo have the same unique identifier");
  } });
  // ---- what is requested for an identifier
  cs.push({ name: "locations (abstract)", bounds: "every identifier of every kind that can be downloaded", covers: ["chat-photo", "photo", "sticker-set", "thumbnail", "document", "encrypted"], run: async (S) => {
    abstract(S);
    const { serializeFileId } = S.load("types/_file_id.ts"), { FileManager } = S.load("client/2_file_manager.ts"), kind = S.choose("kind", ["chat-photo", "photo", "sticker-set", "thumbnail", "document", "encrypted"]);
    S.cover(kind);
    const asked = [], m = new FileManager({ id: 1, storage: { supportsFiles: false }, messageStorage: {}, invoke: (f, p) => { asked.push([f, p]); return Promise.resolve({ _: "upload.file", type: { _: "storage.fileJpeg" }, mtime: 1, bytes: new Uint8Array(0) }); } });
    const id = S.big("id", ...L), accessHash = S.big("hash", ...L), dcId = S.choose("dc", [1, 2, 3, 4, 5]), ref = S.choose("referenced", [true, false]) ? S.bytes("ref", 4) : undefined, refOr = ref ?? new Uint8Array(0);
    let f, want;
    if (kind === "chat-photo") {
      const big = S.choose("big", [true, false]), chat = S.int("chat", -(10 ** 12) - 5 * 10 ** 9, 10 ** 12), h = S.big("h", ...L); S.assume(chat !== 0 && chat !== -(10 ** 12));
      f = { type: 1, dcId, location: { type: "photo", id, accessHash: 0n, source: { type: big ? 3 : 2, chatId: BigInt(chat), chatAccessHash: h } } };
      want = { _: "inputPeerPhotoFileLocation", big: big || undefined, photo_id: id, peer: chat > 0 ? { _: "inputPeerUser", user_id: BigInt(chat), access_hash: h } : chat > -(10 ** 12) ? { _: "inputPeerChat", chat_id: BigInt(-chat) } : { _: "inputPeerChannel", channel_id: BigInt(-(10 ** 12) - chat), access_hash: h } };
    } else if (kind === "photo" || kind === "thumbnail") {
      const t = S.int("t", 33, 126);
      f = { type: kind === "thumbnail" ? 0 : S.choose("type", [2, 20]), dcId, fileReference: ref, location: { type: "photo", id, accessHash, source: { type: 1, fileType: 2, thumbnailType: t } } };
      want = { _: kind === "photo" ? "inputPhotoFileLocation" : "inputDocumentFileLocation", id, access_hash: accessHash, file_reference: refOr, thumb_size: String.fromCharCode(t) };
    } else if (kind === "sticker-set") {
      const set = S.big("set", ...L), h = S.big("h", ...L), version = S.int("version", ...I);
      f = { type: 2, dcId, location: { type: "photo", id: 0n, accessHash: 0n, source: { type: 9, stickerSetId: set, stickerSetAccessHash: h, version } } };
      want = { _: "inputStickerSetThumb", stickerset: { _: "inputStickerSetID", id: set, access_hash: h }, thumb_version: version };
    } else if (kind === "document") {
      f = { type: S.choose("type", [3, 4, 5, 9, 10]), dcId, fileReference: ref, location: { type: "common", id, accessHash } };
      want = { _: "inputDocumentFileLocation", id, access_hash: accessHash, file_reference: refOr, thumb_size: "" };
    } else {
      f = { type: 6, dcId, location: { type: "common", id, accessHash } };
      want = { _: "inputEncryptedFileLocation", id, access_hash: accessHash };
    }
    const text = serializeFileId(f);
    const r = S.outcome(async () => { for await (const _ of m.download(text, kind === "encrypted" ? { fileInformation: "0" + "00".repeat(64) + "0" } : undefined)); });
    await S.settle();
    S.assert(asked.length > 0, "nothing is requested");
    const w = {}; for (const k of Object.keys(want)) if (want[k] !== undefined) w[k] = want[k];
    const g = {}; for (const k of Object.keys(asked[0][0].location)) if (asked[0][0].location[k] !== undefined) g[k] = asked[0][0].location[k];
    S.assertEq(g, w, "another file is requested than the identifier denotes");
    S.assertEq(String(asked[0][1].dc).replace("-test", ""), String(dcId), "the file is requested from another data centre");
    void r;
  } });
  return cs;
};
