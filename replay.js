#!/usr/bin/env node
"use strict";
// node replay.js <replay file>: runs one recorded counterexample on the real code.
const fs = require("fs"), os = require("os"), path = require("path"), cp = require("child_process");
const v = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const work = fs.mkdtempSync(path.join(os.tmpdir(), "vreplay-"));
const REPO = process.env.VERIF_REPO || "/repo";
fs.writeFileSync(work + "/in", JSON.stringify({ repo: REPO, jobs: [{ harness: path.join(__dirname, "harness", v.property + ".js"), case: v.case, tier: v.tier, model: v.model }] }));
const r = cp.spawnSync("/opt/deno/deno", ["run", "--no-check", "--cached-only", "--no-remote", "--no-npm", "--config", REPO + "/deno.jsonc", "--import-map", "/opt/mtkruto-deps/import_map.json", "--unstable-kv", "--allow-read", "--allow-env", "--allow-write=" + work, path.join(__dirname, "engine/replay.ts"), work + "/in", work + "/out"], { stdio: "inherit", env: { PATH: process.env.PATH, HOME: work, DENO_DIR: work + "/d", DENO_NO_UPDATE_CHECK: "1", DENO_NO_PROMPT: "1", DENO_NO_PACKAGE_JSON: "1" } });
const o = JSON.parse(fs.readFileSync(work + "/out", "utf8"))[0];
fs.rmSync(work, { recursive: true, force: true });
console.log(JSON.stringify(o, null, 1));
process.exit(o.failures.length || o.exception ? 1 : 0);
