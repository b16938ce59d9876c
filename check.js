#!/usr/bin/env node
"use strict";
// node check.js <property> [--tier quick|thorough] [--case name] [--list]
const fs = require("fs"), os = require("os"), path = require("path"), cp = require("child_process");
const HERE = __dirname;
const REPO = process.env.VERIF_REPO || "/repo";
const args = process.argv.slice(2);
const id = args[0];
const opt = (n, d) => { const k = args.indexOf("--" + n); return k < 0 ? d : args[k + 1]; };
const tier = opt("tier", process.env.VERIF_TIER === "thorough" ? "thorough" : "quick");
const seed = Number(process.env.VERIF_SEED ?? 1) || 0;
const only = opt("case");
const file = path.join(HERE, "harness", id + ".js");
if (!id || !fs.existsSync(file)) { console.error("usage: check.js <property> (no harness " + file + ")"); process.exit(2); }
const t0 = Date.now();
const work = fs.mkdtempSync(path.join(os.tmpdir(), "vcheck-" + id + "-"));
const cache = path.join(work, "cache"); fs.mkdirSync(cache);
process.on("exit", () => { try { fs.rmSync(work, { recursive: true, force: true }); } catch {} });
const BUDGET = Number(process.env.VERIF_BUDGET_MS ?? (tier === "quick" ? 780000 : 6 * 3600000));
const WORKERS = Number(process.env.VERIF_JOBS ?? 8);
// known findings: lines "known: property=<id> case=<case> msg=<message>"
const known = [];
const kf = path.join(HERE, "known_findings.txt");
if (fs.existsSync(kf)) for (const l of fs.readFileSync(kf, "utf8").split("\n")) { const m = /^known: property=(\S+) case=(\S+) msg=(.*)$/.exec(l); if (m && m[1] === id) known.push({ case: m[2], msg: m[3] }); }
const isKnown = (c, msg) => known.some((k) => (k.case === "*" || k.case === c) && k.msg === msg);
function listCases() {
  const r = cp.spawnSync(process.execPath, ["-e", `const h=require(${JSON.stringify(file)});console.log(JSON.stringify({title:h.title,assumptions:h.assumptions,cases:h.cases(${JSON.stringify(tier)}).map(c=>({name:c.name,bounds:c.bounds,weight:c.weight,budgetMs:c.budgetMs,solverTimeoutMs:c.solverTimeoutMs,validate:c.validate,maxWitnesses:c.maxWitnesses}))}))`], { encoding: "utf8" });
  if (r.status !== 0) { console.error(r.stderr); process.exit(2); }
  return JSON.parse(r.stdout);
}
const H = listCases();
let cases = H.cases;
if (only) cases = cases.filter((c) => c.name.includes(only));
if (args.includes("--list")) { for (const c of cases) console.log(c.name, "-", c.bounds); process.exit(0); }
function runCase(c) {
  return new Promise((resolve) => {
    const base = path.join(work, c.name.replace(/[^\w.-]/g, "_"));
    const left = BUDGET - (Date.now() - t0);
    const job = { harness: file, case: c.name, tier, seed, maxMs: Math.max(1000, Math.min(c.budgetMs ?? BUDGET, left - 5000)), solverTimeoutMs: c.solverTimeoutMs ?? (tier === "quick" ? 60000 : 600000), maxViolations: 3, known: known.filter((k) => k.case === "*" || k.case === c.name).map((k) => k.msg), maxWitnesses: c.maxWitnesses ?? 25 };
    fs.writeFileSync(base + ".job", JSON.stringify(job));
    const p = cp.spawn(process.execPath, ["--stack-size=3000", "--max-old-space-size=6000", path.join(HERE, "engine/worker.js"), base + ".job", base + ".out"], { stdio: ["ignore", "inherit", "inherit"], env: { ...process.env, VERIF_CACHE: cache, VERIF_REPO: REPO } });
    const timer = setTimeout(() => p.kill("SIGKILL"), Math.max(2000, left));
    running.add(p);
    p.on("exit", (code, sig) => {
      clearTimeout(timer); running.delete(p);
      let r;
      try { r = JSON.parse(fs.readFileSync(base + ".out", "utf8")); } catch { r = { violations: [], incomplete: `worker ended without a result (${sig ?? code})`, witnesses: [], paths: 0, functions: [], stats: {}, solver: null, wallMs: 0 }; }
      if (process.env.VERIF_FAILFAST && !enough && r.violations.some((v) => !isKnown(c.name, String(v.msg ?? v.message).split("\n")[0]))) { enough = true; for (const q of running) q.kill("SIGKILL"); }
      resolve({ c, r });
    });
  });
}
let enough = false; const running = new Set(); // VERIF_FAILFAST (used when trying out planted bugs): stop at the first violation
async function pool(items, n, f) { const out = []; let i = 0; await Promise.all(Array.from({ length: Math.min(n, items.length) }, async () => { while (i < items.length && !enough) { const k = i++; out[k] = await f(items[k]); } })); return out; }
function deno(jobs) {
  if (!jobs.length) return [];
  const f = path.join(work, "replay-" + process.hrtime.bigint());
  fs.writeFileSync(f + ".in", JSON.stringify({ repo: REPO, jobs }));
  const dd = path.join(work, "deno"); fs.mkdirSync(dd, { recursive: true });
  const r = cp.spawnSync("/opt/deno/deno", ["run", "--no-check", "--cached-only", "--no-remote", "--no-npm", "--config", path.join(REPO, "deno.jsonc"), "--import-map", "/opt/mtkruto-deps/import_map.json", "--unstable-kv", "--allow-read", "--allow-env", "--allow-write=" + work, path.join(HERE, "engine/replay.ts"), f + ".in", f + ".out"], { encoding: "utf8", timeout: 300000, env: { PATH: process.env.PATH, HOME: work, DENO_DIR: dd, DENO_NO_UPDATE_CHECK: "1", DENO_NO_PROMPT: "1", DENO_NO_PACKAGE_JSON: "1" } });
  try { return JSON.parse(fs.readFileSync(f + ".out", "utf8")); } catch { if (args.includes("-v")) console.error(r.stderr); return jobs.map(() => ({ error: (r.stderr || "").slice(0, 500) || "no result" })); }
}
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
(async () => {
  const order = [...cases].sort((a, b) => (b.weight ?? 1) - (a.weight ?? 1));
  const results = (await pool(order, WORKERS, runCase)).filter(Boolean);
  const violations = [], knownHit = [], inconclusive = [];
  // replay counterexamples on the real code
  const vjobs = [];
  for (const { c, r } of results) {
    if (r.incomplete) inconclusive.push(`${c.name}: ${r.incomplete}`);
    for (const v of r.violations) vjobs.push({ harness: file, case: c.name, tier, model: v.model, msg: v.msg });
  }
  const vres = deno(vjobs);
  vjobs.forEach((j, i) => {
    const o = vres[i];
    const seen = o.failures?.[0] ?? (o.exception ? "unexpected exception: " + o.exception : null);
    if (!seen) { inconclusive.push(`${j.case}: counterexample not reproduced on the real code (${j.msg.split("\n")[0]}) ${JSON.stringify(o).slice(0, 300)}`); return; }
    const rec = { property: id, case: j.case, tier, message: j.msg, observed: seen, model: j.model };
    if (isKnown(j.case, j.msg.split("\n")[0]) || isKnown(j.case, seen)) knownHit.push(rec); else violations.push(rec);
  });
  // run sampled path witnesses on the real code and compare what it did with what the encoding said
  const wjobs = [], wit = [];
  for (const { c, r } of results) if (c.validate !== false) for (const w of r.witnesses) { wjobs.push({ harness: file, case: c.name, tier, model: w.model }); wit.push({ c, w }); }
  let validated = 0; const mismatches = [];
  const chunks = []; for (let i = 0; i < wjobs.length; i += Math.max(10, Math.ceil(wjobs.length / 1))) chunks.push([i, wjobs.slice(i, i + Math.max(10, Math.ceil(wjobs.length / 1)))]);
  for (const [off, js] of chunks) deno(js).forEach((o, k) => {
    const { c, w } = wit[off + k];
    const bad = o.failures?.[0] ?? (o.exception ? "unexpected exception: " + o.exception : null);
    if (bad) { if (!isKnown(c.name, bad)) violations.push({ property: id, case: c.name, tier, message: bad, observed: bad, model: w.model, from: "path witness run on the real code" }); return; }
    if (o.error) { mismatches.push(`${c.name}: ${o.error}`); return; }
    if (o.discarded) { mismatches.push(`${c.name}: witness discarded`); return; }
    const byName = (l) => { const m = {}; for (const [k, v] of l) (m[k] ??= []).push(v); return m; };
    const a = byName(w.notes), b = byName(o.notes);
    const diff = Object.keys(a).find((k) => !a[k].every((x, i) => a[k].length !== b[k]?.length || same(x, b[k][i])));
    if (diff) mismatches.push(`${c.name}: ${diff}: encoding ${JSON.stringify(a[diff]).slice(0, 200)} real ${JSON.stringify(b[diff]).slice(0, 200)}`); else validated++;
  });
  if (mismatches.length) inconclusive.push("the encoding and the real code differ: " + mismatches.slice(0, 3).join(" | "));
  const sum = (f) => results.reduce((a, x) => a + (f(x.r) ?? 0), 0);
  const functions = [...new Set(results.flatMap((x) => x.r.functions ?? []))].sort();
  const evidence = {
    property: id, tier, seed, level: "model_checking",
    coverage: {
      states: sum((r) => r.paths), transitions: sum((r) => r.stats?.decisions), traces_validated_against_impl: validated,
      samples: results.slice(0, 4).map(({ c, r }) => ({ case: c.name, bounds: c.bounds, witness: r.witnesses?.[r.witnesses.length - 1] ? { notes: JSON.stringify(r.witnesses[r.witnesses.length - 1].notes).slice(0, 600) } : null })),
      meaning: "states = execution paths of the real code explored symbolically; transitions = symbolic branch decisions; every assertion on every path was decided by the solver for all values of the symbolic inputs on that path",
      exhaustive: inconclusive.length === 0 && violations.length === 0,
      paths_infeasible: sum((r) => r.stats?.infeasible), assertions: sum((r) => r.stats?.asserts), assertions_decided_by_simplifier: sum((r) => r.stats?.assertsTrivial), assertions_decided_by_solver: sum((r) => r.stats?.assertsSolver),
      solver_queries: sum((r) => r.solver?.queries), solver_sat: sum((r) => r.solver?.sat), solver_unsat: sum((r) => r.solver?.unsat), solver_unknown: sum((r) => r.solver?.unknown), solver_time_ms: sum((r) => r.solver?.ms),
      cases: results.map(({ c, r }) => ({ name: c.name, bounds: c.bounds, paths: r.paths, queries: r.solver?.queries, solver_ms: r.solver?.ms, wall_ms: r.wallMs, reached: r.stats?.reached ? Object.fromEntries(Object.entries(r.stats.reached).slice(0, 12)) : undefined, incomplete: r.incomplete ?? undefined })),
      functions_encoded: functions,
    },
    assumptions: H.assumptions ?? [], wall_s: (Date.now() - t0) / 1000, violations: violations.length,
  };
  if (inconclusive.length) evidence.coverage.inconclusive = inconclusive;
  if (!only) { fs.mkdirSync(path.join(HERE, "evidence"), { recursive: true }); fs.writeFileSync(path.join(HERE, "evidence", id + ".json"), JSON.stringify(evidence, null, 1)); }
  if (args.includes("-v")) for (const { c, r } of results) console.log(`${c.name}: paths ${r.paths} queries ${r.solver?.queries} solver ${r.solver?.ms}ms wall ${r.wallMs}ms asserts ${r.stats?.asserts} witnesses ${r.witnesses?.length} ${r.incomplete ?? ""}`);
  for (const k of new Set(knownHit.map((v) => v.message.split("\n")[0]))) console.log(`KNOWN-FINDING: property=${id} ${k}`);
  console.log(`${id} ${tier}: ${results.length} cases, ${evidence.coverage.states} paths, ${evidence.coverage.assertions} assertions, ${evidence.coverage.solver_queries} queries, ${evidence.coverage.solver_time_ms} ms solver, ${validated} witnesses agree, ${evidence.wall_s.toFixed(1)} s`);
  if (violations.length) {
    fs.mkdirSync(path.join(HERE, "replays"), { recursive: true });
    const shown = new Set();
    for (const v of violations) {
      const key = v.case + v.observed; if (shown.has(key)) continue; shown.add(key);
      const f = path.join(HERE, "replays", `${id}-${v.case.replace(/[^\w.-]/g, "_")}-${shown.size}.json`);
      fs.writeFileSync(f, JSON.stringify(v, null, 1));
      console.log(`  ${v.case}: ${v.observed}`);
      console.log(`VIOLATION property=${id} replay=${f}`);
    }
    process.exit(1);
  }
  // A case that could not be explored to its end is reported as such. It denies the verdict when it is not one of a few,
  // and always when the encoding itself is in doubt.
  if (inconclusive.length) {
    for (const m of inconclusive) console.log("INCOMPLETE " + m);
    const partial = results.filter(({ r }) => r.incomplete).length;
    if (mismatches.length || inconclusive.length > partial || partial * 2 > results.length || !evidence.coverage.assertions || process.env.VERIF_STRICT) process.exit(2);
  }
  process.exit(0);
})();
