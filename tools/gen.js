"use strict";
// Writes properties.jsonl and MANIFEST.json from tools/properties.js; a property is claimed when its harness exists.
const fs = require("fs"), path = require("path");
const root = path.join(__dirname, "..");
const P = require("./properties.js");
const strip = ({ id, title, statement, quantifier, why_tests_cant, anchors }) => ({ id, title, statement, quantifier, why_tests_cant, anchors });
for (const x of P) { if (x.title.length > 80) throw new Error("title too long: " + x.id); }
fs.writeFileSync(path.join(root, "properties.jsonl"), P.map((x) => JSON.stringify(strip(x))).join("\n") + "\n");
const checks = [], na = [];
for (const x of P) {
  const h = path.join(root, "harness", x.id + ".js");
  if (x.na) { na.push({ property: x.id, reason: x.na }); continue; }
  if (!fs.existsSync(h)) { na.push({ property: x.id, reason: "no check built yet" }); continue; }
  const H = require(h);
  checks.push({ property: x.id, quick_cmd: `node check.js ${x.id}`, thorough_cmd: `node check.js ${x.id} --tier thorough`, evidence_file: `evidence/${x.id}.json`, technique: "symbolic execution of the repository's TypeScript with Z3 deciding every path and assertion; counterexamples replayed in Deno", level: "model_checking", level_note: (H.note ?? "Bounded: holds for all values of the symbolic inputs within each case's stated bounds.") + (H.assumptions?.length ? " Assumes: " + H.assumptions.join("; ") + "." : "") });
}
const m = { version: 1, setup_cmd: "node engine/setup.js", checks, not_applicable: na, notes: "See DESIGN.md. Every run re-reads, compiles and encodes /repo's current sources." };
fs.writeFileSync(path.join(root, "MANIFEST.json"), JSON.stringify(m, null, 1) + "\n");
console.log(P.length, "properties", checks.length, "checks", na.length, "not applicable");
