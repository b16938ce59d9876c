"use strict";
// C23 A downloaded file equals the requested range of the remote file
exports.title = "A downloaded file equals the requested range of the remote file";
exports.assumptions = ["the server answers a request with the file's bytes from the offset, at most as many as asked for", "AES is an invertible function of block and key", "the storage applies requests in order"];
const KB = 1024, MB = KB * KB;
const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
class Storage {
  constructor() { this.entries = []; this.isMemory = false; this.mustSerialize = false; this.supportsFiles = true; }
  initialize() {}
  async get(key) { return this.entries.find((e) => same(e[0], key))?.[1] ?? null; }
  async set(key, value) { this.entries = this.entries.filter((e) => !same(e[0], key)); if (value !== null) this.entries.push([[...key], value]); }
  async *getMany() {}
}
const DOC = { _: "inputDocumentFileLocation", id: 77n, access_hash: 5n, file_reference: new Uint8Array(0), thumb_size: "" };
function rig(S, file, { cache = false, files } = {}) {
  S.fixedRandom();
  const { FileManager } = S.load("client/2_file_manager.ts"), { StorageOperations } = S.load("client/0_storage_operations.ts");
  const t = { pending: [], asked: 0, auto: true };
  t.storage = cache ? new StorageOperations(new Storage()) : { supportsFiles: false, getFile: async () => null, saveFilePart: async () => {}, setFilePartCount: async () => {} };
  const answer = (f) => { const b = files ? files(f.location) : file, to = f.offset + BigInt(f.limit); const n = BigInt(b.length), from = Number(f.offset < n ? f.offset : n), end = Number(to < n ? to : n); return { _: "upload.file", type: { _: "storage.filePartial" }, mtime: 1, bytes: b.slice(from, end) }; };
  t.ok = (p) => { t.pending.splice(t.pending.indexOf(p), 1); p.resolve(answer(p.f)); };
  t.fail = (p, e) => { t.pending.splice(t.pending.indexOf(p), 1); p.reject(e); };
  t.m = new FileManager({ id: 1, storage: t.storage, messageStorage: {}, invoke: (f, p) => { t.asked++; S.assertEq(f._, "upload.getFile", "something else is requested"); S.assert(f.offset >= 0n && f.limit > 0 && f.limit <= MB && f.limit % KB === 0 && f.offset % 1024n === 0n, "a range is requested that the server does not allow"); if (t.auto) return Promise.resolve(answer(f)); return new Promise((resolve, reject) => t.pending.push({ f, p, resolve, reject })); } });
  t.FloodWait = S.load("4_errors.ts").FloodWait;
  t.get = async (params, location = DOC, stop) => { const out = []; for await (const b of t.m.downloadInner(location, 2, params)) { out.push(b); if (stop !== undefined && out.length === stop) break; } return out; };
  return t;
}
// the chunks against the file from an offset
function check(S, chunks, file, offset) {
  let n = 0;
  for (const c of chunks) {
    if (c.length === 0) continue;
    const i = S.int("i", 0, MB - 1); S.assume(i < c.length);
    S.assert(c[i] === file[offset + n + i], "a downloaded byte differs from the file's");
    n = n + c.length;
  }
  S.assertEq(n, offset < file.length ? file.length - offset : 0, "bytes are missing or are too many");
}
// the same for a file whose size is not symbolic
function whole(S, chunks, file, offset) { S.assertEq(new Uint8Array(chunks.flatMap((c) => [...c])), file.slice(offset), "what was downloaded differs from the file"); }
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  cs.push({ name: "sizes", weight: 4, bounds: `every file of up to ${deep ? 16 : 9} KB, every offset up to ${deep ? 17 : 10} KB, parts of 1, 2, 3 and 4 KB`, covers: ["beyond", "within"], run: async (S) => {
    const file = S.blob("file", 0, (deep ? 16 : 9) * KB), t = rig(S, file), chunk = S.choose("chunk", [1, 2, 3, 4]) * KB, offset = S.int("offset", 0, deep ? 17 : 10) * KB;
    S.cover(offset >= file.length ? "beyond" : "within");
    check(S, await t.get({ chunkSize: chunk, offset }), file, offset);
  } });
  cs.push({ name: "large", weight: 2, bounds: "every file of up to 7.5 MB, every offset up to 4 MB, parts of the default size (1 MB)", run: async (S) => {
    const file = S.blob("file", 0, 7.5 * MB), t = rig(S, file), offset = S.int("offset", 0, 4 * KB) * KB, given = S.choose("given", [true, false]);
    if (!given) S.assume(offset === 0);
    check(S, await t.get(given ? { offset } : undefined), file, offset);
  } });
  cs.push({ name: "schedules", weight: 6, bounds: `every content of ${deep ? "1 byte, 3 KB, 5 KB - 7 and 7 KB - 1" : "2 KB and 5 KB - 7"} bytes in parts of 1 KB, from offset 0 or 1 KB, ${deep ? "every order" : "the first five choices of the order"} in which requests end, up to ${deep ? 2 : 1} failures (an error or a rate limit)`, covers: ["error", "flood", "later-first"], run: async (S) => {
    const n = S.choose("size", deep ? [1, 3 * KB, 5 * KB - 7, 7 * KB - 1] : [2 * KB, 5 * KB - 7]), file = S.bytes("file", n), t = rig(S, file), offset = S.choose("offset", [0, 1]) * KB;
    t.auto = false;
    let r = "pending", fails = 0, turns = 0, free = deep ? 7 : 5; t.get({ chunkSize: KB, offset }).then((value) => r = { value }, (error) => r = { error });
    await S.settle();
    while (r === "pending" && turns++ < 60) {
      if (t.pending.length === 0) { await S.advance(12000); continue; }
      const ops = turns > free ? [[t.pending[0], "ok"]] : t.pending.flatMap((p) => [[p, "ok"], ...(fails < (deep ? 2 : 1) ? [[p, "error"], [p, "flood"]] : [])]);
      const [p, how] = S.choose("end", ops);
      if (how !== "ok") { fails++; S.cover(how); t.fail(p, how === "flood" ? new t.FloodWait({ error_code: 420, error_message: "FLOOD_WAIT_7" }) : new Error("lost")); } else { if (p !== t.pending[0]) S.cover("later-first"); t.ok(p); }
      await S.settle();
    }
    S.assert(r.value !== undefined, "a download fails or never ends");
    if (r.value) whole(S, r.value, file, offset);
    S.assert(S.unhandled().length === 0, "a download raises an error that nobody can catch");
  } });
  cs.push({ name: "failures", weight: 2, bounds: "a file of 6 parts whose download is cancelled, left by its reader, or refused for good, after each number of requests", covers: ["cancel", "refuse", "leave", "repeated"], run: async (S) => {
    const file = S.bytes("file", 5 * KB + 9), t = rig(S, file, { cache: S.choose("cache", [true, false]) }), how = S.choose("how", ["cancel", "refuse", "leave", "repeated"]), when = S.choose("when", [0, 1, 3, 5]), c = new AbortController();
    S.cover(how); t.auto = false;
    let r = "pending"; const out = [];
    (async () => { for await (const b of t.m.downloadInner(DOC, 2, { chunkSize: KB, signal: c.signal })) { out.push(b); if (how === "leave" && out.length > when) break; } })().then(() => r = { value: true }, (error) => r = { error });
    await S.settle();
    for (let k = 0; k < when && r === "pending"; k++) { t.ok(t.pending[0]); await S.settle(); }
    const reason = new Error("stop"), E = S.load("3_errors.ts");
    if (how === "cancel") { c.abort(reason); await S.settle(); const asked = t.asked; while (t.pending.length > 0) t.pending.shift().reject(reason); await S.advance(20000); S.assert(r.error === reason, "a cancelled download does not end with the reason"); S.assert(t.asked === asked, "parts are requested after a download was cancelled"); }
    if (how === "refuse") { while (t.pending.length > 0) t.fail(t.pending[0], new E.TimeTooSmall({ error_code: 400, error_message: "TIME_TOO_SMALL" })); await S.advance(20000); S.assert(r.error instanceof E.TimeTooSmall, "a refused download does not fail"); }
    if (how === "repeated") { for (let i = 0; i < 60 && r === "pending"; i++) { while (t.pending.length > 0) t.fail(t.pending[0], new Error("lost")); await S.advance(12000); } S.assert(r.error !== undefined && r.error.message === "lost", "a download that cannot be done does not fail"); }
    if (how === "leave") { let n = 0; while (r === "pending" && n++ < 20) { if (t.pending.length > 0) t.ok(t.pending[0]); await S.settle(); } S.assert(r.value, "a download that was left does not end"); const asked = t.asked; while (t.pending.length > 0) t.ok(t.pending[0]); await S.advance(20000); S.assert(t.asked === asked, "parts are requested after a download was left"); }
    // what was handed over until then is the beginning of the file
    const had = new Uint8Array(out.flatMap((b) => [...b]));
    S.assertEq(had, file.slice(0, had.length), "what was handed over is not the beginning of the file");
    S.assert(S.unhandled().length === 0, "a failed download raises an error that nobody can catch");
    // and a later download is not affected
    t.auto = true; t.pending = [];
    whole(S, await t.get({ chunkSize: KB }), file, 0);
  } });
  // ---- the cache
  cs.push({ name: "cached", weight: 4, bounds: `every content of ${deep ? 9 : 4} sizes up to 5 KB that is downloaded twice (in parts of 1, 2 or 3 KB, from every offset up to 6 KB)`, covers: ["served", "fetched"], run: async (S) => {
    const file = S.bytes("file", S.choose("size", deep ? [0, 1, KB - 1, KB, KB + 1, 2 * KB, 3 * KB, 4 * KB - 1, 5 * KB] : [0, KB, 2 * KB + 9, 4 * KB])), t = rig(S, file, { cache: true }), chunk = S.choose("chunk", [1, 2, 3]) * KB, first = S.choose("first", [0, 1]) * KB, offset = S.choose("offset", [0, 1, 2, 3, 4, 5, 6]) * KB;
    whole(S, await t.get({ chunkSize: chunk, offset: first }), file, first);
    const asked = t.asked;
    whole(S, await t.get({ chunkSize: S.choose("chunk2", [1, 4]) * KB, offset }), file, offset);
    S.cover(t.asked === asked ? "served" : "fetched");
  } });
  cs.push({ name: "cached while downloading", weight: 5, bounds: "two downloads of one file of 2 KB + 1 or 4 KB, in parts of 1 and 2 KB, that take turns in every way for six turns, then a third download", covers: ["both"], run: async (S) => {
    const file = S.bytes("file", S.choose("size", [2 * KB + 1, 4 * KB])), t = rig(S, file, { cache: true });
    const its = [t.m.downloadInner(DOC, 2, { chunkSize: KB }), t.m.downloadInner(DOC, 2, { chunkSize: 2 * KB })], outs = [[], []], done = [false, false];
    for (let k = 0; k < 6; k++) { const i = S.choose("turn" + k, [0, 1].filter((i) => !done[i])) ?? 0; const r = await its[i].next(); if (r.done) done[i] = true; else outs[i].push(r.value); if (done[0] && done[1]) break; }
    if (S.choose("third-now", [true, false])) whole(S, await t.get({ chunkSize: KB, offset: KB }), file, KB);
    for (const i of [0, 1]) for (let n = 0; !done[i]; n++) { if (n > 9) S.fail("a download never ends"); const r = await its[i].next(); if (r.done) done[i] = true; else outs[i].push(r.value); }
    S.cover("both");
    for (const o of outs) whole(S, o, file, 0);
    whole(S, await t.get({ chunkSize: KB }), file, 0);
  } });
  cs.push({ name: "cached renditions", bounds: "two renditions of one photo or document, one after the other, in both orders, with every content of up to 2 KB", covers: ["chat-photo", "thumbnail", "document"], run: async (S) => {
    const a = S.blob("a", 1, 2 * KB), b = S.blob("b", 1, 2 * KB), kind = S.choose("kind", ["chat-photo", "thumbnail", "document"]), peer = { _: "inputPeerUser", user_id: 5n, access_hash: 6n };
    S.cover(kind);
    const locs = kind === "chat-photo" ? [{ _: "inputPeerPhotoFileLocation", big: true, peer, photo_id: 9n }, { _: "inputPeerPhotoFileLocation", peer, photo_id: 9n }] : kind === "thumbnail" ? [{ _: "inputPhotoFileLocation", id: 9n, access_hash: 6n, file_reference: new Uint8Array(0), thumb_size: "a" }, { _: "inputPhotoFileLocation", id: 9n, access_hash: 6n, file_reference: new Uint8Array(0), thumb_size: "c" }] : [DOC, { ...DOC, thumb_size: "m" }];
    if (S.choose("order", [true, false])) locs.reverse();
    const of = (l) => l === locs[0] ? a : b, t = rig(S, null, { cache: true, files: (l) => of(locs.find((x) => x.big === l.big && x.thumb_size === l.thumb_size)) });
    for (const l of [locs[0], locs[1], locs[0]]) check(S, await t.get({ chunkSize: KB }, l), of(l), 0);
  } });
  // ---- encrypted files
  cs.push({ name: "encrypted", weight: 6, bounds: "every content of up to 3 KB (ten sizes around the boundaries), every key, every offset up to 4 KB, in parts of 1 and 2 KB; twice, with and without the cache", covers: ["exact", "padded", "beyond"], run: async (S) => {
    S.blockCipher();
    const size = S.choose("size", deep ? [1, 15, 16, 17, KB - 1, KB, KB + 1, 2 * KB, 2 * KB + 17, 3 * KB] : [1, 16, 17, KB, KB + 1]), offset = S.choose("offset", [0, 1, 2, 4]) * KB, chunk = S.choose("chunk", [1, 2]) * KB, key = S.bytes("key", 32), iv = S.bytes("iv", 32);
    S.cover(offset >= size ? "beyond" : size % 16 === 0 ? "exact" : "padded");
    const { ige256Encrypt, encodeHex } = S.load("0_deps.ts"), plain = S.bytes("plain", Math.ceil(size / 16) * 16), file = ige256Encrypt(plain, key, iv), want = plain.slice(0, size);
    const t = rig(S, file, { cache: S.choose("cache", [true, false]) }), info = "0" + encodeHex(key) + encodeHex(iv) + size;
    for (let k = 0; k < 2; k++) {
      const got = new Uint8Array((await t.get({ chunkSize: chunk, offset: k ? 0 : offset, fileInformation: info }, { _: "inputEncryptedFileLocation", id: 4n, access_hash: 5n })).flatMap((c) => [...c]));
      S.assertEq(got, want.slice(k ? 0 : offset), "an encrypted file is not the one that was sent");
    }
  } });
  cs.push({ name: "encrypted, shorter than declared", bounds: "files of 0, 16, 1024 and 1040 bytes that are declared to be longer", covers: ["ends"], run: async (S) => {
    const size = S.choose("size", [0, 16, KB, KB + 16]), t = rig(S, S.bytes("file", size)), { encodeHex } = S.load("0_deps.ts");
    const info = "0" + encodeHex(new Uint8Array(32)) + encodeHex(new Uint8Array(32)) + (size + S.choose("more", [1, 5000, 100000]));
    const it = t.m.downloadInner({ _: "inputEncryptedFileLocation", id: 4n, access_hash: 5n }, 2, { chunkSize: KB, fileInformation: info });
    t.auto = false; let r = "pending", n = 0, total = 0; 
    while (n < 40) {
      let x = null; it.next().then((v) => { x = v; }, (e) => { x = { done: true, e }; });
      for (let i = 0; i < 4 && x === null; i++) { while (t.pending.length > 0 && t.asked < 60) t.ok(t.pending[0]); await S.settle(); }
      n++;
      if (x === null || x.done) { r = x; break; }
      total += x.value.length;
    }
    S.assert(r !== null && r !== "pending", "a download never ends");
    S.assert(total <= size, "more is downloaded than the file holds");
    S.cover("ends");
  } });
  cs.push({ name: "parameters", bounds: "every offset between -2 MB and 2 MB, every part size between -2 MB and 2 MB", covers: ["valid", "invalid"], run: async (S) => {
    const { FileManager } = S.load("client/2_file_manager.ts"), { InputError } = S.load("0_errors.ts"), x = S.int("x", -2 * MB, 2 * MB), what = S.choose("what", ["offset", "chunk"]);
    const valid = what === "offset" ? x >= 0 && x % KB === 0 : x > 0 && x <= MB && x % KB === 0, r = S.attempt(() => what === "offset" ? FileManager.validateOffset(x) : FileManager.validateChunkSize(x, MB));
    S.cover(valid ? "valid" : "invalid");
    S.assert(r.ok === valid, "an offset or part size is accepted that the server does not allow, or refused although it is");
    if (!r.ok) S.assert(r.error instanceof InputError, "a wrong kind of error is raised");
    const t = rig(S, new Uint8Array(5)), q = await S.outcome(t.get(S.choose("bad", [{ offset: 5 }, { offset: -KB }, { chunkSize: 1000 }, { chunkSize: 0 }, { chunkSize: 2 * MB }])));
    S.assert(!q.ok && q.error instanceof InputError && t.asked === 0, "an invalid range is requested");
  } });
  return cs;
};
