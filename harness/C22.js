"use strict";
// C22 An uploaded file is sent completely, once, in valid parts
exports.title = "An uploaded file is sent completely, once, in valid parts";
exports.assumptions = ["the client sends a request whose answer is an error again only through this code", "AES is an invertible function of block and key"];
const KB = 1024, MB = KB * KB;
function rig(S, { pool = 1 } = {}) {
  S.fixedRandom();
  const { FileManager } = S.load("client/2_file_manager.ts");
  const t = { pending: [], saved: [], asked: 0, progress: [] };
  t.m = new FileManager({ id: 1, storage: { supportsFiles: false }, messageStorage: {}, getUploadPoolSize: async () => pool, handleUpdate: (u) => t.progress.push(u.uploadProgress), invoke: (f, p) => new Promise((resolve, reject) => { t.asked++; t.pending.push({ f, p, resolve, reject }); }) });
  t.FloodWait = S.load("4_errors.ts").FloodWait;
  t.end = (p, how) => {
    t.pending.splice(t.pending.indexOf(p), 1);
    if (how === "ok") { t.saved.push(p.f); p.resolve(true); }
    else p.reject(how === "flood" ? new t.FloodWait({ error_code: 420, error_message: "FLOOD_WAIT_7" }) : new Error("lost"));
  };
  // answers everything
  t.finish = async (up) => { let r = "pending", n = 0; up.then((value) => r = { value }, (error) => r = { error }); await S.settle(); while (r === "pending") { if (++n > 200) { S.fail("an upload never ends"); return { error: null }; } if (t.pending.length > 0) t.end(t.pending[0], "ok"); else await S.advance(12000); await S.settle(); } return r; };
  return t;
}
// the parts that reached the server against the file
function check(S, t, file, length, chunk, result, big, { known = true, name } = {}) {
  const n = t.saved.length;
  S.assert(n > 0, "nothing is sent");
  const at = new Map();
  for (const f of t.saved) { S.assert(!at.has(f.file_part), "a part is saved twice"); at.set(f.file_part, f); S.assertEq(f.file_id, result.id, "a part belongs to another file"); }
  let sent = 0;
  for (let k = 0; k < n; k++) {
    const f = at.get(k);
    S.assert(f !== undefined, "a part is missing"); if (!f) return;
    S.assertEq(f._, big ? "upload.saveBigFilePart" : "upload.saveFilePart", "a part is sent in the wrong form");
    if (big) S.assert(f.file_total_parts === n || !known && k < n - 1 && f.file_total_parts === -1, "the number of parts is wrong");
    const len = f.bytes.length;
    S.assert(k < n - 1 ? len === chunk : len > 0 && len <= chunk, "a part has a wrong size");
    const i = S.int("i", 0, chunk - 1);
    if (i < len) S.assert(f.bytes[i] === file(k * chunk + i), "a part has a wrong content");
    sent = sent + len;
  }
  S.assertEq(sent, length, "the parts are not the whole file");
  S.assertEq([result._, result.parts], [big ? "inputFileBig" : "inputFile", n], "the declared form or number of parts is wrong");
  if (name !== undefined) S.assertEq(result.name, name, "the file's name is wrong");
}
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  cs.push({ name: "buffer, schedules", weight: 5, bounds: `every file of up to ${deep ? 5 : 4} parts of 1 KB, with 1 connection (2 requests at a time), every order in which requests end and up to ${deep ? 2 : 1} failures (an error or a rate limit)`, covers: ["error", "flood", "later-first"],
    run: async (S) => {
      const t = rig(S), n = S.choose("parts", deep ? [1, 2, 3, 4, 5] : [1, 2, 4]), file = S.blob("file", (n - 1) * KB + 1, n * KB);
      const up = t.m.upload(file, { chunkSize: KB, fileName: "  a.bin " });
      let r = "pending", fails = 0, turns = 0; up.then((value) => r = { value }, (error) => r = { error });
      await S.settle();
      while (r === "pending" && turns++ < 40) {
        if (t.pending.length === 0) { await S.advance(12000); continue; }
        S.assert(t.pending.length <= 2, "too many requests at a time");
        const ops = t.pending.flatMap((p) => [[p, "ok"], ...(fails < (deep ? 2 : 1) ? [[p, "error"], [p, "flood"]] : [])]);
        const [p, how] = S.choose("end", ops);
        if (how !== "ok") { fails++; S.cover(how); } else if (p !== t.pending[0]) S.cover("later-first");
        t.end(p, how); await S.settle();
      }
      S.assert(r.value !== undefined, "an upload fails or never ends");
      if (r.value) check(S, t, (i) => file[i], file.length, KB, r.value, false, { name: "a.bin" });
    } });
  cs.push({ name: "buffer, sizes", weight: 3, bounds: "every file of up to 9 KB with parts of 1, 2, 3 and 4 KB, 1 to 3 connections", run: async (S) => {
    const chunk = S.choose("chunk", [1, 2, 3, 4]) * KB, pool = S.choose("pool", [1, 3]), t = rig(S, { pool }), file = S.blob("file", 1, 9 * KB);
    const r = await t.finish(t.m.upload(file, { chunkSize: chunk }));
    S.assert(r.value !== undefined, "an upload fails"); if (r.value) check(S, t, (i) => file[i], file.length, chunk, r.value, false, { name: "file" });
  } });
  cs.push({ name: "buffer, large", weight: 4, bounds: `every file of ${deep ? "9 to 12" : "9.9 to 11.1"} MB in parts of 512 KB (the default) or 256 KB`, covers: ["small", "big"], run: async (S) => {
    const t = rig(S, { pool: 3 }), file = S.blob("file", Math.floor((deep ? 9 : 9.9) * MB), Math.floor((deep ? 12 : 11.1) * MB)), def = S.choose("default", [true, false]);
    const r = await t.finish(t.m.upload(file, def ? undefined : { chunkSize: 256 * KB }));
    const big = file.length > 10 * MB; S.cover(big ? "big" : "small");
    S.assert(r.value !== undefined, "an upload fails"); if (r.value) check(S, t, (i) => file[i], file.length, (def ? 512 : 256) * KB, r.value, big);
  } });
  cs.push({ name: "buffer, default part", bounds: "every file of up to 1.2 MB in parts of the default size", run: async (S) => {
    const t = rig(S, { pool: 2 }), file = S.blob("file", 1, Math.floor(1.2 * MB));
    const r = await t.finish(t.m.upload(file));
    S.assert(r.value !== undefined, "an upload fails"); if (r.value) check(S, t, (i) => file[i], file.length, 512 * KB, r.value, false);
  } });
  // ---- streams
  const sizes = deep ? [0, 1, 1000, 1024, 1025, 2048, 3000] : [1, 1024, 1500, 2048];
  const flat = (S, pieces) => { const starts = []; let n = 0; for (const p of pieces) { starts.push(n); n += p.length; } return [(i) => { i = S.conc(i); for (let k = pieces.length - 1; k >= 0; k--) if (i >= starts[k] && pieces[k].length > 0) return pieces[k][i - starts[k]]; return 0; }, n]; };
  const checkStream = (S, t, pieces, chunk, result) => {
    const n = t.saved.length, at = new Map(), total = pieces.reduce((a, p) => a + p.length, 0);
    for (const f of t.saved) { S.assert(!at.has(f.file_part), "a part is saved twice"); at.set(f.file_part, f); S.assertEq(f.file_id, result.id, "a part belongs to another file"); }
    const big = total > chunk, all = [];
    for (let k = 0; k < n; k++) {
      const f = at.get(k);
      S.assert(f !== undefined, "a part is missing"); if (!f) return;
      S.assertEq(f._, big ? "upload.saveBigFilePart" : "upload.saveFilePart", "a part is sent in the wrong form");
      if (big) S.assert(f.file_total_parts === (k === n - 1 ? n : -1) || f.file_total_parts === n, "the number of parts is wrong");
      S.assert(k < n - 1 ? f.bytes.length === chunk : f.bytes.length > 0 && f.bytes.length <= chunk, "a part has a wrong size");
      all.push(...f.bytes);
    }
    S.assertEq(all.length, total, "the parts are not the whole file");
    const want = pieces.flatMap((p) => [...p]);
    S.assertEq(new Uint8Array(all), new Uint8Array(want), "the parts are not the stream's content");
    S.assertEq([result._, result.parts], [big ? "inputFileBig" : "inputFile", n], "the declared form or number of parts is wrong");
  };
  const streamOf = (kind, pieces) => {
    if (kind === "stream") return new ReadableStream({ start(c) { for (const p of pieces) c.enqueue(p); c.close(); } });
    if (kind === "iterable") return pieces;
    return (async function* () { for (const p of pieces) yield p; })();
  };
  cs.push({ name: "stream", weight: 6, bounds: `every content of up to three pieces of ${sizes.join(", ")} bytes, in parts of 1 KB and 2 KB, as a stream, an iterable and an asynchronous iterable`, covers: ["small", "big"], run: async (S) => {
    const t = rig(S, { pool: S.choose("pool", [1, 2]) }), n = S.choose("pieces", [1, 2, 3]), chunk = S.choose("chunk", [1, 2]) * KB, pieces = [];
    for (let k = 0; k < n; k++) pieces.push(S.bytes("piece" + k, S.choose("size" + k, sizes)));
    const total = pieces.reduce((a, p) => a + p.length, 0); S.assume(total > 0);
    S.cover(total > chunk ? "big" : "small");
    const copies = pieces.map((p) => p.slice());
    const r = await t.finish(t.m.upload(streamOf(S.choose("kind", n === 2 ? ["stream", "iterable", "async"] : ["stream"]), pieces), { chunkSize: chunk }));
    S.assert(r.value !== undefined, "an upload fails"); if (r.value) checkStream(S, t, copies, chunk, r.value);
  } });
  cs.push({ name: "stream, schedules", weight: 4, bounds: "every order in which the requests of a stream of up to 5 parts end, with up to 1 failure; the stream's pieces arrive before or between them", covers: ["error"], run: async (S) => {
    const t = rig(S), n = S.choose("parts", [2, 3, 5]), pieces = []; let controller, given = 0, r = "pending", fails = 0, turns = 0, closed = false;
    for (let k = 0; k < n; k++) pieces.push(S.bytes("piece" + k, k === n - 1 ? 10 : KB));
    const stream = new ReadableStream({ start(c) { controller = c; } });
    t.m.upload(stream, { chunkSize: KB }).then((value) => r = { value }, (error) => r = { error });
    await S.settle();
    while (r === "pending" && turns++ < 60) {
      const ops = [];
      if (given < n) ops.push(["give"]);
      if (t.pending.length > 0) { ops.push([t.pending[0], "ok"]); if (fails < 1) ops.push([t.pending.at(-1), "error"]); }
      if (ops.length === 0) { if (!closed) { closed = true; controller.close(); await S.settle(); } else await S.advance(12000); continue; }
      // the stream's pieces are given first, or requests end before the next is
      const [a, b] = S.choose("event", ops.slice(0, fails === 0 && turns < 6 ? 3 : 1));
      if (a === "give") { controller.enqueue(pieces[given++].slice()); await S.advance(1); } else { if (b === "error") { fails++; S.cover("error"); } t.end(a, b); }
      await S.settle();
    }
    S.assert(r.value !== undefined, "an upload fails or never ends");
    if (r.value) checkStream(S, t, pieces, KB, r.value);
  } });
  cs.push({ name: "empty", bounds: "an empty file, an empty stream", run: async (S) => {
    const t = rig(S), { InputError } = S.load("0_errors.ts");
    const r = await t.finish(t.m.upload(S.choose("kind", [() => new Uint8Array(0), () => streamOf("stream", []), () => streamOf("async", [new Uint8Array(0)])])(), { chunkSize: KB }));
    S.assert(r.error instanceof InputError, "an empty file is uploaded");
  } });
  // ---- cancellation and failure
  cs.push({ name: "failures", weight: 3, bounds: "a buffer or a stream of 3 parts whose upload is cancelled, or whose part the server refuses for good, after each request", covers: ["cancel", "refuse", "late"], run: async (S) => {
    const t = rig(S), kind = S.choose("kind", ["buffer", "stream"]), how = S.choose("how", ["cancel", "refuse"]), when = S.choose("when", [0, 1, 2, 3]), c = new AbortController();
    S.cover(how);
    const file = S.bytes("file", 3 * KB); let controller;
    const src = kind === "buffer" ? file : new ReadableStream({ start(x) { controller = x; x.enqueue(file.slice(0, 2 * KB)); } });
    let r = "pending"; t.m.upload(src, { chunkSize: KB, signal: c.signal }).then((value) => r = { value }, (error) => r = { error });
    await S.advance(1);
    for (let k = 0; k < when && r === "pending"; k++) { if (t.pending.length > 0) t.end(t.pending[0], "ok"); await S.advance(1); }
    const reason = new Error("stop"), asked = t.asked;
    if (how === "cancel") { c.abort(reason); await S.settle(); while (t.pending.length > 0) t.pending.shift().reject(reason); }
    else { const E = S.load("3_errors.ts"); while (t.pending.length > 0 && r === "pending") { t.pending.shift().reject(new E.TimeTooBig({ error_code: 400, error_message: "TIME_TOO_BIG" })); await S.settle(); } }
    await S.advance(20000);
    if (controller && r === "pending") { S.cover("late"); controller.enqueue(file.slice(2 * KB)); controller.close(); await S.advance(20000); while (t.pending.length > 0) { t.end(t.pending[0], "ok"); await S.advance(20000); } }
    S.assert(r !== "pending", "a cancelled upload never ends");
    if (how === "cancel") S.assert(r.error === reason || r.value !== undefined && t.saved.length === 3, "a cancelled upload is reported as complete");
    if (r.value) S.assert(t.saved.length === 3, "an incomplete upload is reported as complete");
    if (how === "cancel" && kind === "buffer") S.assert(t.asked === asked, "parts are sent after an upload was cancelled");
    S.assert(S.unhandled().length === 0, "a failed upload raises an error that nobody can catch");
  } });
  cs.push({ name: "part sizes", bounds: "every requested part size between -1 MB and 1 MB", covers: ["valid", "invalid"], run: async (S) => {
    const t = rig(S), { InputError } = S.load("0_errors.ts"), chunk = S.int("chunk", -MB, MB), valid = chunk > 0 && chunk <= 512 * KB && chunk % KB === 0;
    const { FileManager } = S.load("client/2_file_manager.ts");
    const r = S.attempt(() => FileManager.validateChunkSize(chunk, 512 * KB));
    S.cover(valid ? "valid" : "invalid");
    S.assert(r.ok === valid, "a part size is accepted that is not a multiple of 1 KB up to 512 KB, or refused although it is");
    if (!r.ok) S.assert(r.error instanceof InputError, "a wrong kind of error is raised");
    if (!valid) { const q = await S.outcome(t.m.upload(new Uint8Array(5), { chunkSize: S.choose("which", [0, -KB, 1000, 513 * KB]) })); S.assert(!q.ok && q.error instanceof InputError && t.asked === 0, "parts of an invalid size are sent"); }
  } });
  // ---- encrypted files
  cs.push({ name: "encrypted", weight: 6, bounds: "every content of 1 to 80 bytes, 1 KB + 5 bytes and 2 KB, and every key, as a buffer and as a stream, in parts of 1 KB", covers: ["buffer", "stream"], run: async (S) => {
    S.blockCipher(); const t = rig(S, { pool: 2 }), n = S.choose("length", deep ? [1, 15, 16, 17, 80, KB - 1, KB, KB + 5, 2 * KB] : [1, 16, 17, KB + 5]), kind = S.choose("kind", ["buffer", "stream"]), file = S.bytes("file", n), key = S.bytes("key", 32), iv = S.bytes("iv", 32);
    S.cover(kind);
    const { ige256Decrypt } = S.load("0_deps.ts");
    const copy = file.slice();
    const r = await t.finish(t.m.upload(kind === "buffer" ? file : streamOf("stream", [file.slice(0, 7), file.slice(7)]), { chunkSize: KB }, null, true, { key: key.slice(), iv: iv.slice() }));
    S.assert(r.value !== undefined, "an upload fails"); if (!r.value) return;
    const big = kind === "stream" && n > KB, parts = [...t.saved].sort((a, b) => a.file_part - b.file_part), all = new Uint8Array(parts.flatMap((p) => [...p.bytes]));
    S.assertEq(all.length, Math.ceil(n / 16) * 16, "the encrypted file has a wrong size");
    S.assertEq(parts.map((p) => p.file_part), parts.map((_, i) => i), "the parts are not numbered from zero");
    const plain = ige256Decrypt(all, key, iv);
    S.assertEq(plain.slice(0, n), copy, "the encrypted parts do not decrypt to the file");
    S.assertEq(r.value.fileSize, n, "the reported size is wrong");
    S.assertEq([r.value.inputEncryptedFile._, r.value.inputEncryptedFile.parts, r.value.inputEncryptedFile.id], [big ? "inputEncryptedFileBigUploaded" : "inputEncryptedFileUploaded", parts.length, parts[0].file_id], "the declared form or number of parts is wrong");
  } });
  return cs;
};
