import { World, fc } from "./world.mjs";

const fail = (m) => { throw new Error(m); };
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const short = (m) => m.type + (m.memberId ? ` ${m.memberId}/${m.which}` : "") + (m.cycles != null ? ` ${m.cycles}` : "");

// ------------------------------------------------------------------ U01: the worker under every message history

const msgArb = fc.oneof(
  { weight: 4, arbitrary: fc.record({ type: fc.constant("init"), iters: fc.integer({ min: 0, max: 60 }), frac: fc.constantFrom(0, 0.3), reject: fc.constantFrom(false, false, false, true), crash: fc.constantFrom(null, null, null, 0, 20) }) },
  { weight: 5, arbitrary: fc.constant({ type: "start" }) },
  { weight: 4, arbitrary: fc.constant({ type: "pause" }) },
  { weight: 2, arbitrary: fc.constant({ type: "reset" }) },
  { weight: 2, arbitrary: fc.record({ type: fc.constant("step"), cycles: fc.oneof(fc.integer({ min: -3, max: 25 }), fc.constantFrom(0, 1000)) }) },
  { weight: 3, arbitrary: fc.record({ type: fc.constant("evaluate"), memberId: fc.integer({ min: 0, max: 14 }), which: fc.constantFrom("train", "val") }) },
);
const workerEvent = fc.oneof(
  { weight: 6, arbitrary: fc.record({ e: fc.constantFrom("send", "tell", "tell"), msg: msgArb }) },
  { weight: 6, arbitrary: fc.constant({ e: "deliver" }) },
  { weight: 5, arbitrary: fc.constant({ e: "timer" }) },
  { weight: 4, arbitrary: fc.constant({ e: "load" }) },
  { weight: 1, arbitrary: fc.constant({ e: "load", broken: true }) },
  { weight: 1, arbitrary: fc.record({ e: fc.constant("wait"), ms: fc.integer({ min: 1, max: 400 }) }) },
);

class WorkerOracle {
  constructor(w, info) {
    Object.assign(this, { w, info, active: false, live: false, inits: 0, answers: 0, pauses: 0, paused: 0, lastControl: null, pending: null, stepping: false,
      evals: [], owed: 0, turns: 0, resets: 0, resetDone: 0, lastSnapAt: null, tail: [], quietSinceReset: false, errors: 0, handling: null });
    const log = w.log;
    // what is thrown here would be caught by the code under test: keep it for the driver
    w.log = { push: (e) => { log.push(e); try { this.see(e); } catch (x) { this.violation ??= x; } } };
    this.entries = log;
  }
  see(e) {
    const w = this.w;
    if (e.op === "handle") {
      this.settle();
      const m = e.msg;
      this.handling = m;
      this.got = [];
      this.stepped = 0;
      this.couldStep = this.live && !this.w.engine.is_finished();
      if (m.type === "init") { this.inits++; this.active = false; this.lastControl = "init"; this.initAnswered = false; }
      if (m.type === "start") { if (this.live && !this.active) { this.active = true; this.lastSnapAt = this.lastFrontAt = null; this.began = w.clock; } if (this.live) this.lastControl = "start"; }
      if (m.type === "pause") { this.active = false; this.lastControl = "pause"; this.pauses++; }
      if (m.type === "reset") { this.active = false; this.lastControl = "reset"; this.live = false; this.resets++; }
    } else if (e.op === "create") {
      this.createdNow = true;
    } else if (e.op === "step") {
      const stepMessage = this.handling?.type === "step";
      if (e.n > 0) this.turns++;
      if (stepMessage) this.stepped = (this.stepped ?? 0) + e.n;
      if (!this.active && !stepMessage) fail(`the search advances although the last control message was ${this.lastControl}`);
      if (stepMessage && e.n !== Math.max(0, this.handling.cycles | 0) && !this.active) fail(`a request for ${this.handling.cycles} cycles ran ${e.n}`);
    } else if (e.op === "crash") {
      this.info.classes["engine faults"] = (this.info.classes["engine faults"] ?? 0) + 1;
      this.crashOwed = true;
      // a fault while the loop runs ends the run; one while a step request is served is answered there
      if (this.handling?.type !== "step") { this.active = false; this.lastControl = "fault"; }
    } else if (e.op === "post") this.post(e.msg);
  }
  post(m) {
    const w = this.w, eng = w.engine;
    this.got?.push(m);
    this.tail.push(m.type);
    switch (m.type) {
      case "ready":
        this.answers++; this.live = true; this.initAnswered = true;
        if (this.answers > this.inits) fail("more answers to init than requests");
        if (!same(m.split, eng.split)) fail("ready carries another split than the search's");
        break;
      case "error":
        this.errors++;
        this.crashOwed = false;
        if (!this.handling || this.handling.type === "init") this.initAnswered = true;
        break;
      case "snapshot":
        if (!this.live) fail("a snapshot although there is no search");
        if (!same(m.snap, eng.snapshot())) fail("the snapshot is not the state of the search");
        this.lastSnapAt = w.clock;
        this.finalSnap = m.snap;
        break;
      case "front_update":
        if (!this.live) fail("a front although there is no search");
        if (!same(m.front, eng.best_equations(10000))) fail("the front is not that of the search");
        this.lastFrontAt = w.clock;
        this.finalFront = m.front;
        break;
      case "done":
        if (!this.active) fail(`done although nothing was running (last control message: ${this.lastControl})`);
        if (!eng.is_finished()) fail("done before the search has finished");
        if (!same(this.finalSnap, eng.snapshot()) || !same(this.finalFront, eng.best_equations(10000))) fail("done before the final state was sent");
        this.active = false;
        this.lastControl = "done";
        this.dones = (this.dones ?? 0) + 1;
        break;
      case "paused":
        if (this.lastControl !== "pause") fail(`paused although the last control message was ${this.lastControl}`);
        this.paused++;
        break;
      case "reset_done":
        this.resetDone++;
        if (this.resetDone > this.resets) fail("more answers to reset than requests");
        break;
      case "eval_result": break;
      default: fail(`unknown message ${m.type}`);
    }
  }
  /** A request has been handled to the end: was it answered? (init may answer later, when the engine is loaded) */
  settle() {
    const m = this.handling, got = this.got ?? [];
    if (!m) return;
    this.handling = null;
    const one = (t) => got.filter((x) => x.type === t).length;
    if (m.type === "reset" && one("reset_done") !== 1) fail(`reset answered by ${got.map((x) => x.type)}`);
    if (m.type === "pause" && this.entriesAfterPause !== undefined) return;
    if (m.type === "evaluate") {
      if (got.length !== 1) fail(`evaluate answered by ${got.length} messages`);
      const known = this.live && this.expectEval(m);
      if (known) { if (!(got[0].type === "eval_result" && got[0].requestId === m.requestId && same(got[0].result, known))) fail("the answer to evaluate is not that of the request"); this.info.classes["evaluations answered"] = (this.info.classes["evaluations answered"] ?? 0) + 1; }
      else if (got[0].type !== "error") fail(`evaluate without such a member answered by ${got[0].type}`);
    }
    if (m.type === "step") {
      if (!this.live) { if (one("error") !== 1) fail("step without a search is not refused"); }
      else if (this.couldStep && one("error") === 0 && this.stepped !== Math.max(0, m.cycles | 0)) fail(`a request for ${m.cycles} cycles ran ${this.stepped}`);
      else if (one("error") === 0 && (one("snapshot") < 1 || one("front_update") < 1)) fail("step is not answered by a snapshot and a front");
    }
    if (m.type === "start" && !this.live && !this.startedBlind && one("error") !== 1) fail("start without a search is not refused");
  }
  expectEval(m) { try { return this.w.engine.evaluate_member(m.memberId, m.which); } catch { return null; } }
}

async function workerCase(c, info) {
  const w = new World(c.stepMs);
  w.threads = c.threads;
  w.startWorker();
  const o = new WorkerOracle(w, info);
  const sent = [];
  let n = 0;
  info.text = c.events.map((e) => (e.e === "send" || e.e === "tell" ? e.e + " " + short(e.msg) : e.e === "wait" ? `wait ${e.ms}` : e.e)).join(", ");
  const act = {
    deliver: async () => { if (w.toWorker.length) { await w.deliverToWorker(); o.settle(); return true; } },
    timer: async () => {
      if (!w.timers.length) return;
      // a turn of the running loop: a timer of an earlier run may be pending besides its own
      const was = o.active, only = w.timers.length === 1, before = o.turns;
      await w.fireTimer();
      if (!was || !o.active || !(only || o.turns > before)) return true;
      if (w.clock - Math.max(o.lastSnapAt ?? -1, o.began) > 1000) fail(`no snapshot for ${w.clock - o.lastSnapAt} ms of a running search`);
      if (w.clock - Math.max(o.lastFrontAt ?? -1, o.began) > 1000) fail(`no front for ${w.clock - o.lastFrontAt} ms of a running search`);
      return true;
    },
    load: async (ev) => { if (w.loading.length) { if (ev?.broken) k["failed loads"] = (k["failed loads"] ?? 0) + 1; await w.finishLoading(ev?.broken); return true; } },
  };
  const k = info.classes;
  const look = () => { if (o.violation) throw o.violation; };
  for (const ev of c.events) {
    look();
    if (ev.e === "send" || ev.e === "tell") {
      const { iters, frac, reject, crash, ...m } = ev.msg;
      if (m.type === "init") Object.assign(m, { csvText: "t" + n, options: { niterations: iters, rows: 5, validation_fraction: frac, reject: reject ? "r" + n : false, crash }, unary: ["a"], binary: ["b" + n], ternary: [] });
      if (m.type === "evaluate") { m.requestId = `q${n}:${m.memberId}:${m.which}`; m.memberId = String(m.memberId); }
      n++;
      w.toWorker.push(m);
      if (m.type === "init") sent.push(m);
      // "tell": and the worker gets to it before anything else is sent
      if (ev.e === "tell") { while (await act.deliver()); if (m.type === "init") { await act.load(); if (w.threads) await act.load(); } }
    } else if (ev.e === "wait") w.clock += ev.ms;
    else await act[ev.e](ev);
  }
  for (let i = 0; ; i++) {
    if (i > 3000) fail("the worker never comes to rest");
    if (!((await act.deliver()) || (await act.load()) || (await act.timer()))) break;
    look();
  }
  look();
  if (o.crashOwed) fail("a fault of the engine is never reported");
  if (o.active) fail("a running search stopped without done");
  if (o.paused < Math.min(1, o.pauses)) fail("pause is never answered");
  if (o.lastControl === "init" && !o.initAnswered) fail("init is never answered");
  if (w.engine) {
    const g = sent.find((m) => m.csvText === w.engine.given.csv), e = w.engine.given;
    if (!same([g.options, g.unary, g.binary, g.ternary], [e.opts, e.unary, e.binary, e.ternary])) fail("the search was not built from the request's settings");
  }
  if (w.poolMisuse) fail(w.poolMisuse);
  if (w.pools) k["thread pools"] = w.pools;
  k["runs to completion"] = o.dones ?? 0;
  k["pauses"] = o.pauses;
  k["resets"] = o.resets;
  k["searches"] = w.sessions;
  info.nontrivial = o.entries.some((e) => e.op === "step") && (o.pauses > 0 || o.resets > 0 || o.inits > 1 || (o.dones ?? 0) > 0);
}

export const U01 = {
  rule: "some cycles were run, and the history has a pause, a reset, a second init or a completed run",
  assumptions: ["the compiled engine is replaced by a model with the same interface (W04 covers the real one); loading it and starting its threads take any time and may fail", "messages, timers and the loading of the engine happen in any order the event loop allows"],
  subs: [{ name: "history", quick: 30000, deep: 60, arb: fc.record({ stepMs: fc.constantFrom(0, 1, 12, 30), threads: fc.constantFrom("", "", "ok", "fail"), events: fc.array(workerEvent, { minLength: 1, maxLength: 60, size: "max" }) }), run: workerCase }],
};

// ------------------------------------------------------------------ U02: what the page shows

const userEvent = fc.oneof(
  { weight: 2, arbitrary: fc.record({ e: fc.constant("init"), iters: fc.integer({ min: 0, max: 80 }), frac: fc.constantFrom(0, 0.3), rows: fc.integer({ min: 1, max: 6 }), cols: fc.integer({ min: 2, max: 4 }), reject: fc.constantFrom(false, false, false, false, true), crash: fc.constantFrom(null, null, null, null, 20) }) },
  { weight: 4, arbitrary: fc.constant({ e: "start" }) },
  { weight: 2, arbitrary: fc.constant({ e: "pause" }) },
  { weight: 1, arbitrary: fc.constant({ e: "reset" }) },
  // the data pane is used before, between and during searches
  { weight: 1, arbitrary: fc.record({ e: fc.constant("edit"), rows: fc.integer({ min: 1, max: 6 }), cols: fc.integer({ min: 2, max: 4 }), header: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ e: fc.constant("roles"), y: fc.integer({ min: 0, max: 3 }), w: fc.option(fc.integer({ min: 0, max: 3 }), { nil: null }), x: fc.array(fc.integer({ min: 0, max: 3 }), { maxLength: 3 }) }) },
  { weight: 1, arbitrary: fc.constant({ e: "parse" }) },
  { weight: 1, arbitrary: fc.record({ e: fc.constant("initSame"), iters: fc.integer({ min: 0, max: 80 }), frac: fc.constantFrom(0, 0.3) }) },
  { weight: 3, arbitrary: fc.record({ e: fc.constant("select"), i: fc.integer({ min: 0, max: 7 }) }) },
  { weight: 8, arbitrary: fc.constant({ e: "deliver" }) },
  { weight: 10, arbitrary: fc.constant({ e: "answer" }) },
  { weight: 6, arbitrary: fc.constant({ e: "timer" }) },
  { weight: 4, arbitrary: fc.constant({ e: "load" }) },
  { weight: 8, arbitrary: fc.record({ e: fc.constant("settle"), ticks: fc.integer({ min: 0, max: 3 }) }) },
  { weight: 1, arbitrary: fc.record({ e: fc.constant("wait"), ms: fc.integer({ min: 1, max: 400 }) }) },
);

// one search after another, each used: built, run for a while, equations selected while answers are under way
const phase = fc.tuple(
  fc.record({ rows: fc.integer({ min: 1, max: 7 }), cols: fc.integer({ min: 2, max: 4 }), iters: fc.integer({ min: 10, max: 80 }), frac: fc.constantFrom(0, 0.3) }),
  fc.integer({ min: 0, max: 6 }),
  fc.array(fc.oneof(
    { weight: 6, arbitrary: fc.record({ e: fc.constant("select"), i: fc.integer({ min: 0, max: 7 }) }) },
    { weight: 4, arbitrary: fc.record({ e: fc.constant("settle"), ticks: fc.integer({ min: 0, max: 2 }) }) },
    { weight: 3, arbitrary: fc.constantFrom({ e: "deliver" }, { e: "answer" }, { e: "timer" }) },
    { weight: 1, arbitrary: fc.constantFrom({ e: "pause" }, { e: "start" }, { e: "edit", rows: 3, cols: 3, header: true }) },
  ), { maxLength: 12 }),
  fc.constantFrom(false, false, true),
).map(([o, ticks, acts, reset]) => [{ e: "init", reject: false, crash: null, ...o }, { e: "settle", ticks: 0 }, { e: "start" }, { e: "settle", ticks }, ...acts, ...(reset ? [{ e: "reset" }, { e: "settle", ticks: 0 }] : [])]);
const phases = fc.record({ stepMs: fc.constantFrom(1, 12, 30), events: fc.array(phase, { minLength: 1, maxLength: 5 }).map((p) => p.flat()) });

async function viewCase(c, info) {
  const w = new World(c.stepMs);
  w.startClient();
  const { useSessionStore: store, useSearchController, SrWorkerClient } = w.client;
  globalThis.__react.current = null;
  info.text = c.events.map((e) => (e.e === "init" ? `init ${e.rows}x${e.cols} ${e.iters} cycles${e.reject ? " (rejected)" : ""}` : e.e === "select" ? `select ${e.i}` : e.e)).join(", ");
  const loadMeta = store.getState().loadWasmMetadata();
  await w.finishLoading();
  await loadMeta;
  w.mount(() => useSearchController(SrWorkerClient));
  const rt = () => store.getState().runtime;
  const tables = new Map();
  let serial = 0, want = "idle";
  const count = (k) => { info.classes[k] = (info.classes[k] ?? 0) + 1; };

  // what is on screen must belong together
  const consistent = () => {
    const v = w.view, r = rt();
    if (r.status === "initializing" || r.status === "error") return;
    const eng = w.engine;
    if (v.evalTrain || v.evalVal) {
      count("evaluations shown");
      if (!eng || r.selectedId == null) fail("an evaluation is shown without a selected equation");
      for (const [which, x] of [["train", v.evalTrain], ["val", v.evalVal]])
        if (x && !same(x.yhat, eng.yhat(r.selectedId, which))) fail(`the ${which} evaluation shown is not that of the selected equation of this search`);
      const t = tables.get(eng.given.csv), g = eng.given.opts, y = t.map((row) => row[g.y_column ?? t[0].length - 1]);
      const pick = (i) => i.map((j) => y[j]);
      if (!same(v.trainActual, pick(eng.split.train)) || !same(v.valActual, pick(eng.split.val))) fail("the targets shown are not those of the evaluated rows");
      if (v.evalTrain && v.trainYhat.length !== v.trainActual.length) fail("predictions and targets have different lengths");
      if (v.evalVal && v.valYhat.length !== v.valActual.length) fail("validation predictions and targets have different lengths");
      if (v.effectiveFitMode === "curve_1d") {
        const xc = g.x_columns ?? t[0].map((_, i) => i).filter((i) => i !== (g.y_column ?? t[0].length - 1) && i !== g.weights_column);
        if (xc.length !== 1) fail("a curve over one input is drawn for a search with several");
        const x = t.map((row) => row[xc[0]]);
        if (!same(v.trainXY, { x: eng.split.train.map((j) => x[j]), y: v.trainActual })) fail("the points shown are not those of the training rows");
        if (!same(v.valXY, { x: eng.split.val.map((j) => x[j]), y: v.valActual })) fail("the points shown are not those of the validation rows");
        count("curves");
      }
    }
    for (const m of r.front) if (!eng || !m.equation.startsWith(`s${eng.session}e`)) fail("the table lists an equation of an earlier search");
    if (r.snapshot && (!eng || !r.snapshot.best.equation.startsWith(`s${eng.session}e`))) fail("the snapshot shown is that of an earlier search");
    if (v.selectedSummary && r.selectedId != null && v.selectedSummary.id !== r.selectedId) fail("the summary shown is not that of the selected equation");
  };
  const resetting = () => w.toWorker.some((m) => m.type === "reset") || w.toClient.some((m) => m.type === "reset_done");
  let draft = null;
  const write = (e, header) => {
    const name = ["a", "b", "c", "d"].slice(0, e.cols).join(",");
    const table = Array.from({ length: e.rows }, (_, i) => Array.from({ length: e.cols }, (_, j) => serial * 100 + i * 10 + j + 0.5));
    // inputs the engine reads as not finite: equations that leave them out still have predictions for all rows
    const words = table.map((r) => r.map(String));
    if (serial % 3 === 1 && e.cols > 1) { const i = serial % e.rows, j = serial % (e.cols - 1); table[i][j] = serial % 2 ? NaN : -Infinity; words[i][j] = serial % 2 ? "nan" : "-inf"; }
    serial++;
    const csv = (header ? name + "\n" : "") + words.map((r) => r.join(",")).join("\n") + "\n";
    tables.set(csv, table);
    draft = { rows: e.rows, cols: e.cols, header };
    store.getState().setCsvText(csv);
    store.getState().setOptionsPatch({ has_headers: header });
  };
  const begin = (reject) => {
    w.render();
    w.view.initSearch();
    w.render();
    want = reject ? "error" : "ready";
    const g = w.toWorker.at(-1), s = store.getState();
    if (g?.type !== "init" || g.csvText !== s.csvText) fail("Initialize does not ask for a search on the text of the data pane");
    for (const [k, was] of [["unary", s.unaryOps], ["binary", s.binaryOps], ["ternary", s.ternaryOps]]) if (!same(g[k], was)) fail(`Initialize asks for other ${k} operators than those selected`);
  };
  const user = {
    init: async (e) => {
      if (!w.view.canInit || resetting()) return;
      const s = store.getState();
      s.setOptionsPatch({ x_columns: null, y_column: null, weights_column: null, niterations: e.iters, validation_fraction: e.frac, rows: e.rows, reject: e.reject ? "no" : false, crash: e.crash });
      write(e, true);
      if (e.cols !== 3) s.parseCsv();
      begin(e.reject);
    },
    edit: async (e) => { write(e, e.header); count("edits"); },
    parse: async () => { if (draft) { store.getState().parseCsv(); } },
    // the roles the pane lets one pick: existing columns, no column twice
    roles: async (e) => {
      if (!draft) return;
      const y = e.y % draft.cols, wt = e.w === null || e.w % draft.cols === y ? null : e.w % draft.cols;
      store.getState().setOptionsPatch({ y_column: y, weights_column: wt, x_columns: [...new Set(e.x.filter((i) => i < draft.cols && i !== y && i !== wt))].sort() });
      count("role changes");
    },
    initSame: async (e) => {
      const o = store.getState().options;
      const fits = (i) => i == null || i < draft.cols;
      if (!draft || !w.view.canInit || resetting() || !fits(o.y_column) || !fits(o.weights_column) || !(o.x_columns ?? []).every(fits) || o.x_columns?.length === 0) return;
      store.getState().setOptionsPatch({ niterations: e.iters, validation_fraction: e.frac, rows: draft.rows, reject: false, crash: null });
      const asked = store.getState().options;
      begin(false);
      for (const k of Object.keys(asked)) if (asked[k] !== null && !same(w.toWorker.at(-1).options[k], asked[k])) fail(`Initialize asks for ${k} = ${JSON.stringify(w.toWorker.at(-1).options[k])}, selected is ${JSON.stringify(asked[k])}`);
      count("searches on edited data");
    },
    start: async () => {
      if (resetting()) return;
      if (rt().status !== "ready" && rt().status !== "paused") return;
      w.view.start();
      want = "done";
    },
    pause: async () => {
      if (resetting()) return;
      if (rt().status !== "running") return;
      w.view.pause();
      if (want === "done") want = "paused or done";
    },
        reset: async () => { w.view.reset(); want = "idle"; },
    select: async (e) => {
      if (resetting()) return;
      const f = rt().front;
      const points = w.view.points;
      const list = e.i < 4 ? f : points;
      if (!list.length) return;
      const m = list[e.i % list.length];
      w.view.selectEquation({ id: m.id, complexity: m.complexity });
      count("selections");
    },
    deliver: async () => w.toWorker.length && (await w.deliverToWorker(), true),
    answer: async () => w.toClient.length && (await w.deliverToClient(), true),
    timer: async () => w.timers.length && (await w.fireTimer(), true),
    load: async () => w.loading.length && (await w.finishLoading(), true),
    wait: async (e) => { w.clock += e.ms; },
    settle: async (e) => {
      const go = async () => { while ((await user.answer()) || (await user.deliver()) || (await user.load())) consistent(); };
      await go();
      for (let i = 0; i < e.ticks; i++) { await user.timer(); await go(); }
    },
  };
  for (const ev of c.events) {
    await user[ev.e](ev);
    w.render();
    consistent();
  }
  for (let i = 0; ; i++) {
    if (i > 3000) fail("the page never comes to rest");
    if (!((await user.answer()) || (await user.deliver()) || (await user.load()) || (await user.timer()))) break;
    consistent();
  }
  const r = rt(), v = w.view;
  if (w.engine?.crashed) { want = want.replace("done", "error"); count("engine faults"); }
  if (!want.split(" or ").includes(r.status)) fail(`the page comes to rest as ${r.status}${r.error ? ` (${r.error})` : ""} where ${want} is due`);
  if (r.status === "error" && !r.error) fail(`status ${r.status} with error ${r.error}`);
  if (r.status === "idle" && (r.snapshot || r.front.length || r.split || r.selectedId != null || Object.keys(r.evalByKey).length)) fail("a reset page still shows results");
  if (r.status === "ready" || r.status === "paused" || r.status === "done") {
    if (!same(r.split, w.engine.split)) fail("the split shown is not that of the search");
  }
  if (r.status === "done") {
    if (!same(r.snapshot, w.engine.snapshot()) || !same(r.front, w.engine.best_equations(10000))) fail("a finished page does not show the final state");
    if (r.selectedComplexity != null && r.front.length) {
      const at = r.front.filter((m) => m.complexity === r.selectedComplexity), below = r.front.filter((m) => m.complexity < r.selectedComplexity);
      const due = at.at(-1) ?? below.at(-1) ?? r.front[0];
      if (r.selectedId !== due.id) fail(`complexity ${r.selectedComplexity} was asked for: equation ${due.id} is due, ${r.selectedId} is selected`);
      if (!v.evalTrain) fail("the selected equation of a finished search is not evaluated");
      if (r.split.val.length && !v.evalVal) fail("the selected equation of a finished search is not evaluated on the validation rows");
      count("selections followed to the end");
    }
  }
  count("ended " + r.status);
  info.nontrivial = w.sessions > 0 && (w.sessions > 1 || r.selectedId != null || r.status === "done" || r.status === "paused");
}

// ------------------------------------------------------------------ U02: the preview and the curve

const numArb = fc.oneof(fc.integer({ min: -1000, max: 1000 }), fc.double({ noNaN: true, noDefaultInfinity: true, min: -1e9, max: 1e9 }), fc.constantFrom(0, 0.5, 1e-7, 12345678.25));
// text of a field, and the number the engine reads there (null: it refuses the table, and the preview leaves the row out)
const ODD = [["", null], ["n/a", null], ["TRUE", null], ["0x10", null], ["1,5", null], ["2024-01-02T00:00:00Z", null], [" ", null], ["e5", null], ["--1", null], ["1 2", null],
  ["NaN", NaN], ["inf", Infinity], ["-Infinity", -Infinity], ["+7", 7], ["9007199254740993", 9007199254740992], [".5", 0.5], ["5.", 5], ["1E3", 1000], ["1e999", Infinity], [" 12 ", 12], ["-0.0", -0]];
const previewArb = fc.record({
  odd: fc.array(fc.tuple(fc.nat(7), fc.nat(4), fc.nat(ODD.length - 1)), { maxLength: 3 }),
  cols: fc.integer({ min: 2, max: 5 }), rows: fc.array(fc.array(numArb, { minLength: 5, maxLength: 5 }), { minLength: 1, maxLength: 8 }),
  header: fc.boolean(), names: fc.array(fc.constantFrom("a", "b c", "x_1", "7", "n,m", "q\"r", "Ω"), { minLength: 5, maxLength: 5 }),
  eol: fc.constantFrom("\n", "\r\n"), quote: fc.integer({ min: 0, max: 3 }), blank: fc.boolean(), tail: fc.boolean(),
  y: fc.option(fc.integer({ min: 0, max: 4 }), { nil: null }), w: fc.option(fc.integer({ min: 0, max: 4 }), { nil: null }),
});
async function previewCase(c, info) {
  const w = new World(1);
  w.startClient();
  globalThis.__react.current = null;
  const store = w.client.useSessionStore;
  const p = store.getState().loadWasmMetadata();
  await w.finishLoading();
  await p;
  const table = c.rows.map((r) => r.slice(0, c.cols));
  const enc = (v, i, j) => { const t = String(v); return /[",]/.test(t) || (c.quote && (i + j) % c.quote === 0) ? `"${t.replaceAll('"', '""')}"` : t; };
  const texts = table.map((r) => r.map(String));
  for (const [i, j, k] of c.odd) if (texts[i % table.length][j % c.cols] !== undefined) { texts[i % table.length][j % c.cols] = ODD[k][0]; table[i % table.length][j % c.cols] = ODD[k][1]; }
  const lines = texts.map((r, i) => r.map((v, j) => enc(v, i, j)).join(","));
  const kept = table.filter((r) => !r.includes(null));
  if (c.odd.length) info.classes["odd fields"] = 1;
  const names = c.names.slice(0, c.cols);
  if (c.header) lines.unshift(names.map((n, j) => enc(n, 1, j)).join(","));
  if (c.blank) lines.splice(Math.min(2, lines.length), 0, "");
  const csv = lines.join(c.eol) + (c.tail ? c.eol : "");
  info.text = JSON.stringify(csv);
  const y = c.y === null ? null : c.y % c.cols, wt = c.w === null || c.w % c.cols === (y ?? c.cols - 1) || c.cols < 3 ? null : c.w % c.cols;
  const s = store.getState();
  s.setOptionsPatch({ has_headers: c.header, y_column: y, weights_column: wt, x_columns: null });
  s.setCsvText(csv);
  s.parseCsv();
  const { parsed, options, runtime } = store.getState();
  if (!kept.length) { if (parsed) fail("a table without rows of numbers is shown"); if (runtime.status !== "error" || !runtime.error) fail("a table without rows of numbers is not refused"); return; }
  if (!parsed) fail(`a well-formed table is refused: ${runtime.error}`);
  if (parsed.rows.length !== kept.length || !parsed.rows.every((r, i) => r.length === c.cols && r.every((v, j) => v === kept[i][j] || (Number.isNaN(v) && Number.isNaN(kept[i][j]))))) fail(`the preview is not the table of the text: ${parsed.rows.join(" / ")} instead of ${kept.join(" / ")}`);
  if (c.header ? !same(parsed.headers, names) : parsed.headers.length !== c.cols) fail(`the headers are ${JSON.stringify(parsed.headers)}`);
  const yy = y ?? c.cols - 1, xs = [...Array(c.cols).keys()].filter((i) => i !== yy && i !== wt);
  if (options.y_column !== yy || options.weights_column !== wt || !same(options.x_columns, xs)) fail("the default column roles are not: last column the target, all others inputs");
  info.nontrivial = table.length > 1;
}
const curveArb = fc.array(fc.tuple(fc.integer({ min: -4, max: 4 }), fc.oneof({ weight: 9, arbitrary: fc.integer({ min: 0, max: 99 }) }, { weight: 1, arbitrary: fc.constantFrom(NaN, Infinity) })), { maxLength: 12 });
async function curveCase(c, info) {
  const w = new World(1);
  w.startClient();
  const x = c.map((p) => p[0]), y = c.map((p) => p[1]);
  const keep = JSON.stringify([x, y]);
  const got = w.client.sortXY(x, y);
  if (JSON.stringify([x, y]) !== keep) fail("sorting a curve changes the data it is drawn from");
  const want = c.filter((p) => Number.isFinite(p[0]) && Number.isFinite(p[1])).map((p, i) => [...p, i]).sort((a, b) => a[0] - b[0] || a[2] - b[2]);
  if (!same(got.x, want.map((p) => p[0]))) fail("the curve is not in order");
  const pairs = (xs, ys) => xs.map((v, i) => `${v}:${ys[i]}`).sort();
  if (!same(pairs(got.x, got.y), pairs(want.map((p) => p[0]), want.map((p) => p[1])))) fail("the curve pairs points with other points' values");
  info.nontrivial = want.length > 2;
  info.text = JSON.stringify(c);
}

export const U02 = {
  rule: "session: at least one search was built, and there is a second one, a selection, or the history ends paused or done; preview: two rows or more; curve: three points or more",
  assumptions: ["React, zustand and the parser of the preview are replaced by small models of what is used of them; the engine by a model with the same interface", "rows with fields that are no numbers occur in the preview only (the engine refuses such a table)", "buttons are pressed only when the page enables them, and after Reset none before the page has answered it"],
  subs: [
    { name: "session", quick: 14000, deep: 60, arb: fc.record({ stepMs: fc.constantFrom(1, 12, 30), events: fc.array(userEvent, { minLength: 1, maxLength: 80, size: "max" }) }), run: viewCase },
    { name: "phases", quick: 6000, deep: 60, arb: phases, run: viewCase },
    { name: "preview", quick: 4000, deep: 60, arb: previewArb, run: previewCase },
    { name: "curve", quick: 3000, deep: 60, arb: curveArb, run: curveCase },
  ],
};
