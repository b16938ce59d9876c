"use strict";
// Explores every path of one harness case.  argv: job.json result.json
const fs = require("fs");
const C = require("./core.js");
const { E, T } = C;
const { S, concrete, NoValue } = require("./sapi.js");
const L = require("./loader.js");
const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
process.on("unhandledRejection", (e) => { if (!(e && e.__engine) && E.env) E.env.errors.push(e); });
const now = () => Number(process.hrtime.bigint() / 1000000n);
const t0 = now();
function finish(r) {
  const fns = [];
  for (const [file, ids] of E.fnSeen) { const m = E.files?.get(file); if (!m || !m.repo) continue; for (const id of ids.keys()) fns.push(file + ":" + m.functions[id]); }
  r.functions = fns.sort();
  r.stats = E.stats;
  r.solver = E.solver ? { queries: E.solver.queries, ms: Math.round(E.solver.timeMs), sat: E.solver.sat, unsat: E.solver.unsat, unknown: E.solver.unknown } : null;
  r.wallMs = now() - t0;
  fs.writeFileSync(process.argv[3], JSON.stringify(r));
  try { E.solver.close(); } catch {}
  process.exit(0);
}
// another model of the same path: random values wherever the path condition still holds
let rs = (job.seed ?? 1) * 2654435761 >>> 0 || 1;
const rnd = () => { rs ^= rs << 13; rs >>>= 0; rs ^= rs >>> 17; rs ^= rs << 5; rs >>>= 0; return rs; };
const ufm = new Map();
function hasUf(t) { if (t.op === "uf") return true; let m = ufm.get(t.id); if (m === undefined) ufm.set(t.id, m = t.args.some(hasUf)); return m; }
function diversify(m) {
  const evs = E.events.filter((e) => e.term !== T.TRUE);
  if (evs.some((e) => hasUf(e.term))) return m;
  let budget = 40000;
  let cur = new Map(m);
  const ok = (x) => { budget -= evs.length; return evs.every((e) => (T.evaluate(e.term, x) === 1n) === e.value); };
  const rbits = (w) => { let v = 0n; for (let i = 0; i < w; i += 32) v = v << 32n | BigInt(rnd()); return v & T.mask(w); };
  for (const v of E.vars.values()) {
    if (budget < 0) break;
    for (const cand of v.w > 64 ? [rbits(v.w)] : [rbits(v.w), rbits(v.w) & (T.mask(v.w) >> 1n), BigInt(rnd() % 7) & T.mask(v.w)]) {
      const n = new Map(cur); n.set(v.name, cand);
      if (ok(n)) { cur = n; break; }
    }
  }
  return cur;
}
async function tick() { return new Promise((r) => setImmediate(r)); }
async function runPath(c) {
  C.beginPath(); E.newEnv(); E.collisionFree = false; E.blockCipher = false; E.maxAlloc = undefined; E.allocLimit = undefined; E.noMerge = false; E.speculating = 0;
  L.freshInstances(); L.fileOverride.clear(); L.patches.clear();
  let done = false, err;
  const env = E.env;
  let p;
  try { p = Promise.resolve(c.run(S)); } catch (e) { p = Promise.reject(e); }
  p.then(() => { done = true; }, (e) => { done = true; err = e; });
  let n = 0, idle = 0;
  for (;;) {
    await tick();
    if (done || E.dead) break;
    await tick();
    if (done || E.dead) break;
    if (env.busy) { if (++idle > 200000) { E.dead = true; E.deadReason = new C.BoundExceeded("the harness never comes to rest"); break; } continue; }
    if (++n > 20000) { E.dead = true; E.deadReason = new C.BoundExceeded("more than 20000 timer events on a path"); break; }
    let fired;
    try { fired = env.fireNext(); } catch (e) { if (e && e.__engine) { E.dead = true; E.deadReason ??= e; break; } env.errors.push(e); fired = true; }
    if (!fired) { err = new Error("stuck: no event can make progress"); break; }
    // a busy real task (worker threads etc.) never exists here: everything is virtual
  }
  let reason = E.dead ? E.deadReason : null;
  if (!reason && err) {
    if (err.__engine) reason = err;
    else {
      if (process.env.VERIF_TRACE) console.error(err && err.stack); try { C.assertTerm(T.FALSE, "unexpected exception: " + (err && err.name) + ": " + describe(err)); } catch (e) { reason = e; }
      if (!reason) reason = new C.Abort("exception on a replayed prefix");
    }
  }
  const ok = reason === null;
  E.dead = true; E.deadReason = reason ?? new C.Abort("path over");
  return { ok, reason };
}
function describe(e) { try { const m = e && e.message; return typeof m === "string" ? m.slice(0, 300) + (process.env.VERIF_TRACE ? "\n" + e.stack : "") : String(e).slice(0, 200); } catch { return "?"; } }
(async () => {
  let result = { violations: [], incomplete: null, witnesses: [], paths: 0 };
  try {
    C.start({ timeoutMs: job.solverTimeoutMs ?? 60000, log: process.env.VERIF_SMTLOG, cmd: job.solverCmd });
    E.dead = false; E.newEnv(); C.beginPath();
    const h = L.harness(job.harness);
    const c = h.cases(job.tier).find((x) => x.name === job.case);
    if (!c) throw new Error("no case " + job.case);
    if (c.globals) L.setGlobals(c.globals);
    result.bounds = c.bounds;
    const maxPaths = c.maxPaths ?? 200000, maxMs = job.maxMs ?? 600000;
    let more = true;
    while (more) {
      const { ok, reason } = await runPath(c);
      E.stats.paths++;
      const obs = E.observed, model = E.model;
      if (reason && !(reason instanceof C.Abort)) { result.incomplete = (reason.message ?? String(reason)); if (process.env.VERIF_TRACE) console.error(reason.stack); break; }
      if (!ok) E.stats.infeasible++;
      if (ok && result.witnesses.length < (job.maxWitnesses ?? 40) && (E.stats.paths < 20 || E.stats.paths % 7 === 0)) {
        let m = model;
        if (!m) { try { m = E.solver.check() === "sat" ? C.fetchModel() : null; } catch { m = null; } }
        if (m) {
          m = diversify(m);
          const w = { model: Object.fromEntries([...m].map(([k, v]) => [k, v.toString()])), notes: [] };
          for (const [k, v] of obs) { try { w.notes.push([k, concrete(v, m)]); } catch (e) { if (!(e instanceof NoValue)) throw e; } }
          result.witnesses.push(w);
        }
      }
      await tick();
      if (E.violations.length) {
        for (const v of E.violations) if ((job.known ?? []).includes(v.msg.split("\n")[0]) && result.violations.some((x) => x.msg === v.msg)) continue; else result.violations.push({ msg: v.msg, model: Object.fromEntries([...(v.model ?? [])].map(([k, x]) => [k, x.toString()])) });
        E.violations = [];
        if (result.violations.filter((v) => !(job.known ?? []).includes(v.msg.split("\n")[0])).length >= (job.maxViolations ?? 3)) { result.stopped = true; break; }
      }
      if (now() - t0 > maxMs) { result.incomplete = "time budget of " + maxMs + " ms used up after " + E.stats.paths + " paths"; break; }
      if (E.stats.paths >= maxPaths) { result.incomplete = "path budget " + maxPaths + " used up"; break; }
      E.dead = false;
      more = C.backtrack();
    }
    if (E.stats.unknown) result.incomplete ??= "the solver gave no answer";
    for (const k of c.covers ?? []) if (!E.stats.covers?.[k] && !result.incomplete && !result.violations.length) result.incomplete = "vacuous: never reached " + k;
    if (!result.incomplete && !result.violations.length && E.stats.asserts === 0) result.incomplete = "vacuous: no assertion reached";
  } catch (e) {
    result.incomplete = "engine: " + (e && e.stack || e);
  }
  if (E.forkSites) for (const [k, v] of [...E.forkSites].sort((a, b) => b[1] - a[1]).slice(0, 8)) console.error(v, k);
  result.paths = E.stats.paths;
  finish(result);
})();
