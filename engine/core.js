"use strict";
// Path exploration state: decisions, path condition, solver, model cache.
const T = require("./term.js");
const { Solver } = require("./solver.js");
class Abort extends Error { constructor(m) { super(m); this.__engine = true; } }
class Unsupported extends Error { constructor(m) { super(m); this.__engine = true; } }
class BoundExceeded extends Unsupported {}
const E = {
  solver: null, events: [], pos: 0, dead: false, deadReason: null, model: null, facts: new Map(),
  vars: new Map(), stats: null, maxDecisions: 20000, axiomCount: 0, ufApps: [], replayModel: null,
  fnSeen: new Map(), inPath: false, violations: [], pathAsserts: 0,
};
function resetStats() {
  E.stats = { paths: 0, infeasible: 0, decisions: 0, asserts: 0, assertsTrivial: 0, assertsSolver: 0, reached: {}, unknown: 0 };
}
resetStats();
function kill(err) { if (E.speculating) throw E.SPEC; if (!E.dead) { E.dead = true; E.deadReason = err; } throw err; }
function unsupported(m) { kill(new Unsupported(m)); }
function checkDead() { if (E.dead) throw E.deadReason; }
function variable(name, w) {
  name += "@" + w;
  let v = E.vars.get(name);
  if (v === undefined) { v = T.variable(name, w); E.vars.set(name, v); }
  else if (v.w !== w) throw new Error("variable " + name + " redeclared with another width");
  return v;
}
function fetchModel() {
  const vars = [...E.vars.values()].filter((v) => v.smt);
  const m = E.solver.values(vars);
  const r = new Map();
  for (const [t, v] of m) r.set(t.name, v);
  return r;
}
// sat / unsat of (path and t); on sat returns model
function query(t) {
  E.solver.push();
  E.solver.assert(t);
  const r = E.solver.check();
  let model = null;
  if (r === "sat") model = fetchModel();
  E.solver.pop();
  if (r === "unknown") E.stats.unknown++;
  return { r, model };
}
function pushEvent(ev) {
  E.events.push(ev); E.pos++;
  E.solver.push();
  E.solver.assert(ev.value ? ev.term : T.not(ev.term));
  addFact(ev);
}
function addFact(ev) {
  const note = (t, v) => {
    E.facts.set(t.id, v);
    if (t.op === "not") note(t.args[0], !v);
    else if (t.op === "and" && v) t.args.forEach((x) => note(x, true));
    else if (t.op === "or" && !v) t.args.forEach((x) => note(x, false));
  };
  note(ev.term, ev.value);
}
function next(term, kind) { // replays the prefix
  const ev = E.events[E.pos];
  if (ev.term !== term || ev.kind !== kind) kill(new Unsupported("nondeterministic re-execution (" + kind + ")"));
  E.pos++;
  addFact(ev);
  if (ev.modelAfter) E.model = ev.modelAfter;
  return ev.value;
}
// decide a symbolic condition, forking if both outcomes are possible
function fork(t) {
  checkDead();
  if (t === T.TRUE) return true;
  if (t === T.FALSE) return false;
  if (t.op === "not") return !fork(t.args[0]);
  const known = E.facts.get(t.id);
  if (known !== undefined) return known;
  const always = T.constant(t);
  if (always !== undefined) return always;
  if (E.speculating) throw E.SPEC;
  if (E.pos < E.events.length) return next(t, "b");
  E.stats.decisions++;
  if (E.pos > E.maxDecisions) kill(new BoundExceeded("more than " + E.maxDecisions + " decisions on a path"));
  const ev1 = E.model ? T.evaluate(t, E.model) : undefined;
  let mT = null, mF = null, rT, rF;
  if (ev1 === 1n) { rT = "sat"; mT = E.model; } else { const q = query(t); rT = q.r; mT = q.model; }
  if (ev1 === 0n) { rF = "sat"; mF = E.model; } else if (rT === "unsat") { rF = "sat"; mF = E.model; } else { const q = query(T.not(t)); rF = q.r; mF = q.model; }
  if (rT === "unknown" || rF === "unknown") kill(new Unsupported("solver gave no answer on a branch condition"));
  if (rT === "unsat" && rF === "unsat") kill(new Abort("infeasible"));
  const value = rT === "sat";
  const both = rT === "sat" && rF === "sat";
  if (!both) { // implied: no solver push needed, but keep the event for replay determinism
    pushEvent({ kind: "b", term: t, value, alt: false });
    return value;
  }
  if (process.env.VERIF_FORKS) { const l = new Error().stack.split("\n").slice(1, 7).map((x) => x.trim().replace(/^at /, "").replace(/\(.*\/(engine)/, "($1")).join(" < "); E.forkSites ??= new Map(); E.forkSites.set(l, (E.forkSites.get(l) ?? 0) + 1); }
  // the true side first
  pushEvent({ kind: "b", term: t, value: true, alt: true, altModel: mF });
  E.model = mT;
  E.events[E.events.length - 1].modelAfter = mT;
  return true;
}
function assume(t) {
  checkDead();
  if (t === T.TRUE) return;
  if (t === T.FALSE) kill(new Abort("assume false"));
  if (E.facts.get(t.id) === true) return;
  if (E.pos < E.events.length) { next(t, "a"); return; }
  if (E.model && T.evaluate(t, E.model) === 1n) {
    pushEvent({ kind: "a", term: t, value: true, alt: false, modelAfter: E.model });
    return;
  }
  const q = query(t);
  if (q.r === "unknown") kill(new Unsupported("solver gave no answer on an assumption"));
  if (q.r === "unsat") kill(new Abort("assumption infeasible"));
  E.model = q.model;
  pushEvent({ kind: "a", term: t, value: true, alt: false, modelAfter: q.model });
}
// axiom: known consistent fact (e.g. about uninterpreted functions)
function axiom(t) {
  checkDead();
  if (t === T.TRUE || E.facts.get(t.id) === true) return;
  if (E.pos < E.events.length) { next(t, "x"); if (E.model && T.evaluate(t, E.model) !== 1n) E.model = null; return; }
  if (E.model && T.evaluate(t, E.model) !== 1n) E.model = null;
  pushEvent({ kind: "x", term: t, value: true, alt: false });
}
function assertTerm(t, msg) {
  checkDead();
  if (E.pos < E.events.length) return; // decided on an earlier path that shares this prefix
  E.stats.asserts++; E.pathAsserts++;
  E.stats.reached[msg] = (E.stats.reached[msg] ?? 0) + 1;
  if (t === T.TRUE || E.facts.get(t.id) === true) { E.stats.assertsTrivial++; return; }
  E.stats.assertsSolver++;
  let q = query(T.not(t));
  if (q.r === "unknown" && t.op === "and") { // conjunct by conjunct
    q = { r: "unsat" };
    for (const c of t.args) { const p = query(T.not(c)); if (p.r !== "unsat") { q = p; if (p.r === "sat") break; } }
    if (q.r !== "unknown") E.stats.unknown--;
  }
  if (q.r === "unsat") return;
  if (q.r === "unknown") kill(new Unsupported("solver gave no answer on assertion: " + msg));
  E.violations.push({ msg, model: q.model });
  kill(new Abort("violation: " + msg));
}
// Is t implied by the path so far?  Used to recognise equal arguments of uninterpreted functions; false means "not shown".
function guess(name, args) { let h = 0xcbf29ce484222325n; for (const c of name) h = (h ^ BigInt(c.charCodeAt(0))) * 0x100000001b3n & 0xffffffffffffffffn; for (const a of args) for (let x = a; ; x >>= 64n) { h = (h ^ (x & 0xffffffffffffffffn)) * 0x100000001b3n & 0xffffffffffffffffn; h ^= h >> 29n; if (x < 0x10000000000000000n) break; } return h; }
function wide(name, args) { const w = Number(/_(\d+)$/.exec(name)?.[1] ?? 64); let r = 0n; for (let k = 0; k < w; k += 64) r = r << 64n | guess(name + k, args); return r & T.mask(w); }
function implied(t) {
  checkDead();
  if (t === T.TRUE) return true;
  if (t === T.FALSE) return false;
  const known = E.facts.get(t.id);
  if (known !== undefined) return known;
  if (E.speculating) throw E.SPEC;
  if (E.pos < E.events.length) {
    const ev = E.events[E.pos];
    if (ev.kind === "q") return next(t, "q");
    if (ev.kind !== "n" || ev.asked !== t) kill(new Unsupported("nondeterministic re-execution (n)"));
    E.pos++;
    return false;
  }
  let no = E.model ? T.evaluate(t, E.model, wide) === 0n : false;
  if (!no) no = query(T.not(t)).r !== "unsat";
  if (no) { E.events.push({ kind: "n", asked: t, term: T.TRUE, value: true, alt: false }); E.pos++; E.solver.push(); } else pushEvent({ kind: "q", term: t, value: true, alt: false });
  return !no;
}
function isPossible(t) { if (t === T.TRUE) return true; if (t === T.FALSE) return false; return query(t).r === "sat"; }
// Prepare the next path; false when the space is exhausted.
function backtrack() {
  while (E.events.length) {
    const ev = E.events[E.events.length - 1];
    E.solver.pop();
    if (ev.alt) {
      ev.alt = false; ev.value = !ev.value; ev.modelAfter = ev.altModel; ev.altModel = null;
      E.solver.push(); E.solver.assert(ev.value ? ev.term : T.not(ev.term));
      return true;
    }
    E.events.pop();
  }
  return false;
}
function beginPath() { E.pos = 0; E.dead = false; E.deadReason = null; E.model = new Map(); E.facts = new Map(); E.pathAsserts = 0; E.inPath = true; E.counters = new Map(); E.ufApps = []; E.observed = []; }
function start(opts = {}) {
  E.solver = new Solver(opts);
  E.events = []; E.vars = new Map(); E.violations = []; resetStats();
}
module.exports = { pushEvent, E, T, Abort, Unsupported, BoundExceeded, kill, unsupported, checkDead, variable, fork, assume, axiom, assertTerm, implied, isPossible, backtrack, beginPath, start, query, fetchModel };
