"use strict";
// Runs the repository's own unit tests through the instrumented encoding (concrete values), to validate the encoder.
const fs = require("fs"), path = require("path"), cp = require("child_process");
const C = require("./core.js"); const { E } = C;
require("./sapi.js");
const L = require("./loader.js");
process.on("unhandledRejection", () => {});
const files = process.argv[2] ? process.argv.slice(2) : cp.execSync(`find ${L.REPO} -name '*_test.ts' -not -path '*/node_modules/*'`, { encoding: "utf8" }).trim().split("\n");
const tick = () => new Promise((r) => setImmediate(r));
(async () => {
  C.start({}); let pass = 0, fail = 0; 
  for (const f of files) {
    const tests = [];
    const reg = (a, b, c) => { if (typeof a === "function") tests.push([a.name, a]); else if (typeof a === "string") tests.push([a, typeof b === "function" ? b : c]); else tests.push([a.name, a.fn ?? b]); };
    L.setGlobals({ Deno: { test: reg, env: { get: () => undefined }, build: { os: "linux" } } });
    C.beginPath(); E.newEnv(); E.env.concreteRandom = true; L.freshInstances();
    E.dead = false;
    try { L.load(f); } catch (e) { console.log("LOAD", f, e.message.split("\n")[0]); fail++; continue; }
    const run = async (name, fn) => {
      E.dead = false;
      let done = false, err;
      const steps = [];
      const t = { step: async (n, g) => { if (typeof n === "function") { g = n; } else if (typeof n === "object") { g = n.fn; } await g(t); return true; } };
      Promise.resolve().then(() => fn(t)).then(() => done = true, (e) => { done = true; err = e; });
      for (let n = 0; n < 20000 && !done; n++) { await tick(); await tick(); if (!done && !E.env.fireNext() && n > 200) break; }
      if (!done) err = new Error("stuck");
      if (err) { fail++; console.log("FAIL", path.relative(L.REPO, f), "::", name, "::", String(err.message).split("\n")[0]); if (process.env.VERIF_TRACE) console.log(err.stack); } else pass++;
    };
    for (const [n, fn] of tests) await run(n, fn);
  }
  console.log("pass", pass, "fail", fail);
  E.solver.close(); process.exit(0);
})();
