"use strict";
// Nothing to build: checks the tools the checks use are there.
const cp = require("child_process");
const z = cp.spawnSync("z3-new", ["--version"], { encoding: "utf8" });
const d = cp.spawnSync("/opt/deno/deno", ["--version"], { encoding: "utf8" });
if (z.status !== 0 || d.status !== 0) { console.error("z3 or deno missing"); process.exit(1); }
console.log(z.stdout.trim(), "|", d.stdout.split("\n")[0]);
