"use strict";
// C28 Locks and queues serialize tasks without losing any
exports.title = "Locks and queues serialize tasks without losing any";
exports.assumptions = ["tasks last 0, 1, 2 or 3 units of time, or never yield; the schedule is every interleaving these durations and arrival times produce"];
exports.cases = (tier) => {
  const cs = [], deep = tier !== "quick";
  const N = deep ? 4 : 3;
  const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
  cs.push({ name: "mutex", bounds: `${N} holders with arrival times 0..2 and durations 0..2, each releasing normally or after a failure`, weight: 4, run: async (S) => {
    const { Mutex } = S.load("utilities/0_mutex.ts");
    const m = new Mutex(), order = [], asked = [];
    let inside = 0, done = 0, failed = 0;
    const at = [], dur = [], fails = [];
    for (let i = 0; i < N; i++) { at.push(S.choose("at" + i, [0, 1, 2])); dur.push(S.choose("dur" + i, [0, 1, 2])); fails.push(S.choose("fails" + i, [false, true])); }
    const holder = async (i) => {
      if (at[i]) await sleep(at[i]);
      asked.push(i);
      const unlock = await m.lock();
      try {
        inside++;
        S.assert(inside === 1, "two holders are inside at once");
        order.push(i);
        if (dur[i]) await sleep(dur[i]);
        S.assert(inside === 1, "another holder entered while the lock was held");
        if (fails[i]) throw new Error("task");
      } finally {
        inside--;
        unlock();
      }
    };
    for (let i = 0; i < N; i++) holder(i).then(() => done++, () => { failed++; });
    await S.advance(50);
    S.assert(done + failed === N, "a holder never got the lock");
    S.assert(failed === fails.filter((x) => x).length, "a failure is not the holder's own");
    S.assertEq(order, asked, "the lock is not passed on in request order");
    S.note("order", order);
  } });
  cs.push({ name: "mutex-late-release", bounds: "a holder that releases twice, and holders that ask while it holds", run: async (S) => {
    const { Mutex } = S.load("utilities/0_mutex.ts");
    const m = new Mutex();
    const u1 = await m.lock();
    let two = 0, three = 0;
    let u2, u3;
    const p2 = m.lock().then((u) => { two++; u2 = u; }), p3 = m.lock().then((u) => { three++; u3 = u; });
    await S.settle();
    S.assert(two === 0 && three === 0, "the lock is given away while held");
    u1(); if (S.bool("twice")) u1();
    await S.settle();
    S.assert(two === 1 && three === 0, "a repeated release lets more than one holder in");
    u2();
    await S.settle();
    S.assert(three === 1, "the lock is not passed on");
    u3();
    const p = await S.peek(m.lock());
    S.assert(p !== "pending", "the lock is not free after everyone released it");
  } });
  cs.push({ name: "queue", bounds: `${N} tasks added at times 0..2, taking 0..2 units or no turn at all, failing or not`, weight: 4, run: async (S) => {
    const { Queue } = S.load("utilities/2_queue.ts");
    const q = new Queue("t"), order = [], added = [], ended = [];
    let inside = 0;
    const spec = [];
    for (let i = 0; i < N; i++) spec.push({ at: S.choose("at" + i, [0, 1, 2]), dur: S.choose("dur" + i, [-1, 0, 2]), fails: S.choose("fails" + i, [false, true]) });
    const task = (i) => async () => {
      inside++;
      S.assert(inside === 1, "two tasks run at once");
      order.push(i);
      if (spec[i].dur === 0) await S.tick(); else if (spec[i].dur > 0) await sleep(spec[i].dur);
      inside--;
      ended.push(i);
      if (spec[i].fails) throw new Error("task " + i);
    };
    for (let t = 0; t <= 2; t++) { for (let i = 0; i < N; i++) if (spec[i].at === t) { added.push(i); q.add(task(i)); } await S.advance(1); }
    await S.advance(30);
    S.assertEq(order, added, "the tasks do not run in order, each once");
    S.assertEq(ended, added, "a task is left unfinished");
    S.assert(S.unhandled().length === 0, "a failing task surfaces as an unhandled error");
  } });
  cs.push({ name: "queue-nested", bounds: "tasks that add further tasks while running, before and after their own awaits; failing or not; up to 6 tasks", run: async (S) => {
    const { Queue } = S.load("utilities/2_queue.ts");
    const q = new Queue("t"), order = [];
    let inside = 0;
    const early = S.choose("early", [0, 1, 2]), late = S.choose("late", [0, 1, 2]), fails = S.choose("fails", [false, true]), wait = S.choose("wait", [false, true]);
    const leaf = (n) => async () => { inside++; S.assert(inside === 1, "two tasks run at once"); order.push(n); await S.tick(); inside--; };
    q.add(async () => {
      inside++;
      order.push("first");
      for (let i = 0; i < early; i++) q.add(leaf("early" + i));
      if (wait) await sleep(1);
      for (let i = 0; i < late; i++) q.add(leaf("late" + i));
      inside--;
      if (fails) throw new Error("x");
    });
    q.add(leaf("second"));
    await S.advance(30);
    const want = ["first"];
    for (let i = 0; i < early; i++) want.push("early" + i);
    if (!wait) for (let i = 0; i < late; i++) want.push("late" + i);
    want.push("second");
    if (wait) for (let i = 0; i < late; i++) want.push("late" + i);
    S.assertEq(order, want, "nested tasks do not run in order, each once");
    let again = false;
    q.add(async () => { again = true; });
    await S.advance(5);
    S.assert(again, "the queue does not run tasks after having been idle");
  } });
  cs.push({ name: "queue-many", bounds: "40 tasks, one of which fails, with pauses that leave the queue idle", run: async (S) => {
    const { Queue } = S.load("utilities/2_queue.ts");
    const q = new Queue("t"), order = [], want = [];
    const bad = S.choose("bad", [0, 7, 19, 39]), pause = S.choose("pause", [1, 5, 40]);
    for (let i = 0; i < 40; i++) { want.push(i); q.add(async () => { order.push(i); if (i % 3 === 0) await S.tick(); if (i === bad) throw new Error("x"); }); if (i % pause === pause - 1) await S.advance(3); }
    await S.advance(30);
    S.assertEq(order, want, "tasks are lost, repeated or out of order");
  } });
  cs.push({ name: "queue-throw", bounds: "a queue that reports failures, two tasks", run: async (S) => {
    const { Queue } = S.load("utilities/2_queue.ts");
    const q = new Queue("t", S.choose("throw", [false, true]));
    const order = [];
    q.add(async () => { order.push(0); if (S.bool("f0")) throw new Error("a"); });
    q.add(async () => { order.push(1); });
    await S.advance(5);
    S.assertEq(order, [0, 1], "a failing task stops the others");
  } });
  const T = deep ? [0, 1, 2, 3, 4, 5] : [0, 1, 2, 3];
  cs.push({ name: "loop", bounds: "a loop whose body takes 1 or 2 units or fails, aborted, started and aborted again at times 0..5", weight: 4, run: async (S) => {
    const { AbortableLoop } = S.load("client/0_abortable_loop.ts");
    let inside = 0, errors = 0, runs = 0, thrown = 0;
    let allowed = true, rounds = 0;
    const dur = S.choose("dur", [1, 2]), fail = S.choose("fail", [0, 1, 2]);
    const loop = new AbortableLoop(async (l, signal) => {
      S.assert(l === loop, "the body gets another loop");
      S.assert(++inside === 1, "two iterations of a loop run at once");
      S.assert(allowed && !signal.aborted, "an aborted loop goes on running");
      runs++;
      await sleep(dur);
      inside--;
      if (fail && runs % fail === 0) { thrown++; throw new Error("body"); }
    }, (l, e) => { S.assert(l === loop && e.message === "body", "the error handler gets something else"); S.assert(allowed, "an error is reported after the loop was aborted"); errors++; });
    loop.start();
    S.assert(runs === 1, "the loop does not start at once");
    if (S.bool("startTwice")) { loop.start(); S.assert(runs === 1, "starting a running loop runs its body again"); }
    await S.advance(S.choose("t1", T) + 0.5);
    loop.abort(); allowed = false;
    const before = runs;
    const again = S.choose("again", ["no", "now", "later", "now-abort"]);
    if (again === "now" || again === "now-abort") { loop.start(); if (again === "now-abort") loop.abort(); else allowed = true; }
    await S.advance(6);
    if (again === "now") S.assert(runs > before && inside <= 1, "a loop started after an abort does not run");
    else { S.assert(runs === before, "an aborted loop runs its body again"); S.assert(inside === 0, "the last iteration does not end"); }
    if (again === "later") {
      allowed = true; loop.start();
      await S.advance(3);
      S.assert(runs > before, "a loop started after it stopped does not run");
    }
    S.assert(errors === thrown || errors === thrown - 1, "a failure of the body is not reported");
    allowed = false; loop.abort();
    const end = runs;
    await S.advance(9);
    S.assert(runs === end && inside === 0, "the loop is not stopped in the end");
    S.note("runs", runs);
  } });
  cs.push({ name: "loop-self", bounds: "a loop that aborts itself or restarts itself in any of its first three iterations, from the body or from the error handler", run: async (S) => {
    const { AbortableLoop } = S.load("client/0_abortable_loop.ts");
    const at = S.choose("at", [1, 2, 3]), how = S.choose("how", ["body", "bodyFail", "handler"]), restart = S.choose("restart", [false, true]);
    let runs = 0, signals = [];
    const stop = () => { loop.abort(); if (restart) loop.start(); };
    const loop = new AbortableLoop(async (l, signal) => {
      runs++;
      signals.push(signal);
      if (runs > 12) { loop.abort(); return; }
      await sleep(1);
      if (runs === at) { if (how !== "handler") stop(); if (how !== "body") throw new Error("x"); }
    }, () => { if (how === "handler") stop(); });
    loop.start();
    await S.advance(8);
    if (restart) S.assert(runs > at, "a loop restarted from within does not go on");
    else S.assert(runs === at, "a loop aborted from within goes on, or stops early");
    S.assert(signals[at - 1].aborted, "the iteration is not told that the loop was aborted");
    loop.abort();
    const n = runs;
    await S.advance(5);
    S.assert(runs <= n, "the loop is not stopped in the end");
  } });
  return cs;
};
