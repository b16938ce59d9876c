"use strict";
// Synchronous dialogue with an SMT solver process over two FIFOs.
const fs = require("fs"), os = require("os"), path = require("path"), cp = require("child_process");
const T = require("./term.js");
class SolverError extends Error {}
class Solver {
  constructor({ cmd = (process.env.VERIF_SOLVER ?? "z3-new -in"), timeoutMs = 120000, log } = {}) {
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), "vsolve-"));
    const i = path.join(this.dir, "i"), o = path.join(this.dir, "o");
    cp.execFileSync("mkfifo", [i, o]);
    this.proc = cp.spawn("/bin/sh", ["-c", `exec ${cmd} < ${i} > ${o} 2>&1`], { stdio: "ignore" });
    this.proc.unref();
    this.win = fs.openSync(i, "w");
    this.rin = fs.openSync(o, "r");
    fs.rmSync(this.dir, { recursive: true, force: true });
    this.buf = ""; this.chunk = Buffer.alloc(1 << 16);
    this.queries = 0; this.timeMs = 0; this.sat = 0; this.unsat = 0; this.unknown = 0;
    this.log = log;
    this.out = [];
    this.send("(set-option :print-success false)");
    this.send("(set-option :global-declarations true)");
    this.send("(set-option :produce-models true)");
    this.send(`(set-option :timeout ${timeoutMs})`);
    this.emit = (l) => this.send(l);
  }
  send(line) { this.out.push(line); if (this.log) fs.appendFileSync(this.log, line + "\n"); }
  flush() {
    if (!this.out.length) return;
    const data = Buffer.from(this.out.join("\n") + "\n"); this.out.length = 0;
    let off = 0;
    while (off < data.length) off += fs.writeSync(this.win, data, off);
  }
  line() {
    for (;;) {
      const k = this.buf.indexOf("\n");
      if (k >= 0) { const l = this.buf.slice(0, k); this.buf = this.buf.slice(k + 1); return l; }
      const n = fs.readSync(this.rin, this.chunk, 0, this.chunk.length, null);
      if (n === 0) throw new SolverError("solver ended");
      this.buf += this.chunk.toString("latin1", 0, n);
    }
  }
  sexpr() {
    let s = "", depth = 0, started = false;
    do { const l = this.line(); s += l + "\n"; for (let i = 0, inq = false; i < l.length; i++) { const c = l[i]; if (c === "|") inq = !inq; if (inq) continue; if (c === "(") { depth++; started = true; } else if (c === ")") depth--; } if (!started && l.trim()) break; } while (depth > 0 || !started);
    return s;
  }
  push() { this.send("(push 1)"); }
  pop(n = 1) { if (n > 0) this.send(`(pop ${n})`); }
  assert(t) { this.send(`(assert ${T.ref(t, this.emit)})`); }
  // result: "sat" | "unsat" | "unknown"; extra terms are assumed for this query only.
  check(extra = []) {
    if (extra.length) { const refs = extra.map((t) => T.ref(t, this.emit)); this.push(); for (const r of refs) this.send(`(assert ${r})`); }
    this.send("(check-sat)");
    const t0 = process.hrtime.bigint();
    this.flush();
    let r = this.line().trim();
    this.timeMs += Number(process.hrtime.bigint() - t0) / 1e6;
    this.queries++;
    if (r.startsWith("(error")) throw new SolverError(r);
    if (r === "timeout") r = "unknown";
    this[r]++;
    if (extra.length) { if (r === "sat" && this.wantModel) this.model = this.values(this.wantModel); this.pop(); }
    return r;
  }
  values(terms) {
    const m = new Map();
    if (!terms.length) return m;
    for (let k = 0; k < terms.length; k += 200) {
      const part = terms.slice(k, k + 200);
      this.send(`(get-value (${part.map((t) => T.ref(t, this.emit)).join(" ")}))`);
      this.flush();
      const s = this.sexpr();
      if (s.startsWith("(error")) throw new SolverError(s);
      const vals = parsePairs(s);
      part.forEach((t, i) => m.set(t, vals[i]));
    }
    return m;
  }
  close() { try { fs.writeSync(this.win, "(exit)\n"); } catch {} try { fs.closeSync(this.win); fs.closeSync(this.rin); } catch {} try { this.proc.kill(); } catch {} }
}
function parsePairs(s) {
  // tokens: list of (ref value)
  const toks = s.match(/\|[^|]*\||[()]|[^\s()]+/g);
  let i = 0;
  const parse = () => { const t = toks[i++]; if (t !== "(") return t; const l = []; while (toks[i] !== ")") l.push(parse()); i++; return l; };
  const list = parse();
  return list.map((p) => val(p[p.length - 1]));
}
function val(v) {
  if (v === "true") return 1n; if (v === "false") return 0n;
  if (typeof v === "string") { if (v.startsWith("#x")) return BigInt("0x" + v.slice(2)); if (v.startsWith("#b")) return BigInt("0b" + v.slice(2)); }
  if (Array.isArray(v) && v[0] === "_" && v[1].startsWith("bv")) return BigInt(v[1].slice(2));
  throw new SolverError("value " + JSON.stringify(v));
}
module.exports = { Solver, SolverError };
