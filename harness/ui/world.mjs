// A small browser for the web client: the worker script and the client-side modules of /repo/web/ui are bundled from the
// working tree and run against stand-ins for React, zustand, papaparse and the compiled engine. Nothing happens by itself:
// messages, timers and the loading of the engine wait in queues until the schedule of the case lets them happen.
import { createRequire } from "node:module";
import path from "node:path";
import fs from "node:fs";
const require = createRequire(import.meta.url);
const MODULES = "/opt/veriftools/node/node_modules";
const esbuild = require(path.join(MODULES, "esbuild"));
export const fc = require(path.join(MODULES, "fast-check"));
const UI = (process.env.VERIF_REPO ?? "/repo") + "/web/ui/src";

const STUBS = {
  react: `
    const R = globalThis.__react;
    export const useState = (i) => R.current.useState(i), useRef = (i) => R.current.useRef(i),
      useMemo = (f, d) => R.current.useMemo(f, d), useCallback = (f, d) => R.current.useMemo(() => f, d),
      useEffect = (f, d) => R.current.useEffect(f, d), useLayoutEffect = useEffect, useInsertionEffect = useEffect,
      useReducer = (r, i, f) => { const [s, set] = useState(f ? () => f(i) : i); const at = useRef(r); at.current = r; const [dispatch] = useState(() => (a) => set((v) => at.current(v, a))); return [s, dispatch]; },
      useDebugValue = () => {}, startTransition = (f) => f(), useTransition = () => [false, startTransition], useDeferredValue = (v) => v, useId = () => useState(() => "id" + Math.random())[0],
      useSyncExternalStore = (sub, get) => { const [, set] = useState(0); useEffect(() => sub(() => set((n) => n + 1)), [sub]); return get(); },
      memo = (c) => c, forwardRef = (c) => c, createContext = (v) => ({ v }), useContext = (c) => c.v, Fragment = "fragment", createElement = (type, props, ...children) => { const { key, ...p } = props ?? {}; if (children.length) p.children = children.length > 1 ? children : children[0]; return { type, key: key == null ? null : String(key), props: p, many: children.length > 1 }; },
      createRoot = () => ({ render() {}, unmount() {} }), lazy = (f) => f, isValidElement = (e) => typeof e === "object" && e !== null && "type" in e && "props" in e, StrictMode = "fragment", Suspense = "fragment";
    export default { useState, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useInsertionEffect, useReducer, useDebugValue, startTransition, useTransition, useDeferredValue, useId, useSyncExternalStore, memo, forwardRef, createContext, useContext, createElement, Fragment };`,
  // Elements as the compiler of the page makes them; \`many\` tells children written out one by one from a list.
  "react/jsx-runtime": `
    const el = (many) => (type, props, key) => ({ type, key: key === undefined ? null : String(key), props: props ?? {}, many });
    export const jsx = el(false), jsxs = el(true), jsxDEV = (type, props, key, s) => el(s)(type, props, key), Fragment = "fragment";`,
  "react-plotly.js": `export default "plot";`,
  zustand: `
    export function create(init) {
      let state; const subs = new Set();
      const set = (p, replace) => {
        const next = typeof p === "function" ? p(state) : p;
        if (!Object.is(next, state)) { const prev = state; state = replace ? next : Object.assign({}, state, next); subs.forEach((f) => f(state, prev)); }
      };
      const get = () => state;
      const api = { setState: set, getState: get, getInitialState: () => first, subscribe: (f) => { subs.add(f); return () => subs.delete(f); } };
      const first = state = init(set, get, api);
      const hook = (sel) => { const R = globalThis.__react.current; if (R) R.watch(api); return sel ? sel(state) : state; };
      return Object.assign(hook, api);
    }`,
  // The part of Papa.parse used here: commas, quotes, any line ending, skipEmptyLines, dynamicTyping.
  papaparse: `
    const NUM = /^\\s*-?(\\d+\\.?|\\.\\d+|\\d+\\.\\d+)([eE][-+]?\\d+)?\\s*$/;
    const typed = (v) => v === "true" || v === "TRUE" ? true : v === "false" || v === "FALSE" ? false
      : NUM.test(v) && Math.abs(parseFloat(v)) < 2 ** 53 ? parseFloat(v) : /^\\d{4}-\\d\\d-\\d\\dT\\d\\d:\\d\\d:\\d\\dZ$/.test(v) ? new Date(v) : v === "" ? null : v;
    export function parse(text, opts) {
      const errors = [], rows = []; let row = [], cell = "", quoted = false, i = 0, was = false;
      const endCell = () => { row.push(cell); cell = ""; was = false; };
      const endRow = () => { endCell(); rows.push(row); row = []; };
      for (; i < text.length; i++) {
        const c = text[i];
        if (quoted) { if (c === '"') { if (text[i + 1] === '"') { cell += '"'; i++; } else quoted = false; } else cell += c; }
        else if (c === '"' && cell === "" && !was) { quoted = true; was = true; }
        else if (c === ",") endCell();
        else if (c === "\\n") endRow();
        else if (c === "\\r") { if (text[i + 1] === "\\n") i++; endRow(); }
        else cell += c;
      }
      if (quoted) errors.push({ message: "Quoted field unterminated" });
      if (cell !== "" || row.length || was) endRow(); else if (text.length === 0) errors.push({ message: "Unable to auto-detect delimiting character; defaulted to ','" });
      let data = opts.skipEmptyLines ? rows.filter((r) => !(r.length === 1 && r[0].length === 0)) : rows;
      if (opts.dynamicTyping) data = data.map((r) => r.map(typed));
      return { data, errors, meta: {} };
    }
    export default { parse };`,
  "symbolic_regression_wasm.js": `
    const P = () => globalThis.__pkg;
    export default (...a) => P().init(...a);
    export const init_thread_pool = (...a) => P().init_thread_pool(...a), builtin_operator_registry = () => P().registry(),
      default_search_options = () => P().searchDefaults(), default_core_options = () => P().coreDefaults();
    export class WasmSearch { constructor(...a) { return P().create(...a); } }`,
  "generated/defaultCsv": `export const DEFAULT_CSV = "x,y\\n0,1\\n1,3\\n2,5\\n";`,
};
const plugin = {
  name: "stand-ins",
  setup(b) {
    b.onResolve({ filter: /.*/ }, (a) => {
      const hit = Object.keys(STUBS).find((k) => a.path === k || (a.path.startsWith(".") && a.path.endsWith(k)));
      if (hit) return { path: hit, namespace: "stub" };
      if (a.kind !== "entry-point" && !a.path.startsWith(".")) return { path: a.path, namespace: "blank" };
    });
    b.onLoad({ filter: /.*/, namespace: "stub" }, (a) => ({ contents: STUBS[a.path], loader: "js" }));
    b.onLoad({ filter: /.*/, namespace: "blank" }, () => ({ contents: "module.exports = {};", loader: "js" }));
  },
};
function bundle(stdin) {
  const r = esbuild.build({
    stdin: { contents: stdin, resolveDir: UI, loader: "ts", sourcefile: "entry.ts" },
    bundle: true, write: false, format: "cjs", platform: "neutral", logLevel: "silent", plugins: [plugin], target: "es2022",
    define: { "import.meta.url": '"file:///app/"' }, jsx: "automatic",
  });
  return r.then((x) => x.outputFiles[0].text);
}
let code = null;
export async function load() {
  code = {
    worker: await bundle(`import "./worker/srWorker";`),
    client: await bundle(`
      export * from "./state/sessionStore";
      export * from "./worker/srWorkerClient";
      export { useSearchController } from "./app/panes/searchSolutions/useSearchController";
      export { App } from "./app/App";
      export { sortXY, formatSci } from "./app/panes/searchSolutions/plotUtils";`),
  };
}
export const exists = () => fs.existsSync(UI);

/** The engine as the worker sees it: counters, a front that changes as cycles pass, members that come and go. */
export class Engine {
  constructor(world, csv, opts, unary, binary, ternary) {
    world.log.push({ op: "create", csv });
    if (opts.reject) throw new Error("x_columns must not include y_column: " + opts.reject);
    this.world = world;
    this.session = ++world.sessions;
    this.given = { csv, opts, unary, binary, ternary };
    this.total = opts.niterations;
    this.cycles = 0;
    this.k = 250;
    const n = opts.rows;
    const val = [], train = [];
    for (let i = 0; i < n; i++) (opts.validation_fraction > 0 && (i * 7 + this.session) % 3 === 0 && train.length ? val : train).push(i);
    if (this.session % 2) train.reverse();
    this.split = { train, val };
    world.engine = this;
  }
  set_pareto_k(k) { this.k = k; }
  get_split_indices() { return structuredClone(this.split); }
  is_finished() { return this.cycles >= this.total; }
  /** Members ascending in complexity; a member's identifier, once given to a complexity, is replaced now and then. */
  members() {
    if (this.total === 0 || this.given.opts.empty) return [];
    const out = [];
    for (let c = 1; c <= 4; c++) {
      const born = Math.floor(this.cycles / (10 * c + (this.session % 3)));
      if ((c * 5 + born + this.session) % 4 === 0) continue;
      out.push(this.member(c, born));
    }
    return out;
  }
  member(c, born) {
    // identifiers start from the same numbers in every search
    return { id: String(10 * born + c), complexity: c, loss: 10 / (c + born), cost: 11 / (c + born), equation: `s${this.session}e${10 * born + c}` };
  }
  best() { return this.members().at(-1) ?? this.member(1, 0); }
  snapshot() {
    return { total_cycles: this.total, cycles_completed: this.cycles, total_evals: 17 * this.cycles, best: this.best(),
      pareto_points: this.members().slice(-this.k).map(({ equation, ...m }) => m) };
  }
  step(n) {
    // a fault of the engine (a panic arrives as an exception)
    if (n > 0 && this.given.opts.crash != null && this.cycles >= this.given.opts.crash && !this.is_finished()) {
      this.crashed = true;
      this.world.log.push({ op: "crash" });
      throw new Error("unreachable executed");
    }
    const before = this.cycles;
    this.cycles = Math.min(this.total, this.cycles + n);
    if (n > 0) { this.world.clock += this.world.stepMs * n; this.world.log.push({ op: "step", n, session: this.session, before }); }
    return this.snapshot();
  }
  best_equations(k) { const m = this.members(); return m.slice(Math.max(0, m.length - k)); }
  yhat(id, which) { return this.split[which].map((row) => this.session * 1000 + Number(id) + row / 100); }
  metrics(id, which) {
    const s = this.session * 100 + Number(id) + (which === "val" ? 0.5 : 0);
    return { n: this.split[which].length, mse: s + 1e4, mae: s + 2e4, rmse: s + 3e4, r2: s + 4e4, corr: s + 5e4, min_abs_err: s + 6e4, max_abs_err: s + 7e4 };
  }
  evaluate_member(id, which) {
    if (which === "val" && this.split.val.length === 0) throw new Error("no validation dataset");
    if (![...this.members(), this.best()].some((m) => m.id === id)) throw new Error("member not found");
    const yhat = this.yhat(id, which);
    return { metrics: this.metrics(id, which), yhat };
  }
}

export const flush = async () => { for (let i = 0; i < 12; i++) await null; };

export class World {
  constructor(stepMs) {
    this.log = [];
    this.sessions = 0;
    this.engine = null;
    this.clock = 0;
    this.stepMs = stepMs;
    this.toWorker = [];
    this.toClient = [];
    this.timers = [];
    this.loading = [];
    this.warnings = [];
    this.onPost = () => {};
    const pkg = {
      init: () => new Promise((res, rej) => this.loading.push((broken) => (broken ? rej(new Error("the engine cannot be fetched")) : res({ memory: { buffer: this.threads ? new SharedArrayBuffer(8) : new ArrayBuffer(8) } })))),
      init_thread_pool: (n) => new Promise((res, rej) => {
        this.pools = (this.pools ?? 0) + 1;
        if (!this.threads || !Number.isInteger(n) || n < 1 || n > 1024) this.poolMisuse = `a pool of ${n} threads is started${this.threads ? "" : " without shared memory"}`;
        this.loading.push((broken) => (broken || this.threads === "fail" ? rej(new Error("no threads")) : res()));
      }),
      create: (...a) => new Engine(this, ...a),
      registry: () => [1, 2, 3].flatMap((arity) => ["a", "b"].map((n) => ({ arity, name: n + arity, display: n + arity, infix: null, commutative: false, associative: false, complexity: 1 }))),
      searchDefaults: () => ({ has_headers: true, x_columns: null, y_column: null, weights_column: null, validation_fraction: 0, loss_kind: "mse", huber_delta: 1 }),
      coreDefaults: () => ({ seed: 0, niterations: 30 }),
    };
    this.pkg = pkg;
  }
  run(text, names, values) {
    globalThis.__pkg = this.pkg;
    const module = { exports: {} };
    new Function("module", "exports", ...names, text)(module, module.exports, ...values);
    return module.exports;
  }
  startWorker() {
    const self = {
      crossOriginIsolated: Boolean(this.threads), navigator: { hardwareConcurrency: 4 }, onmessage: null,
      postMessage: (m) => { if (self.dead) return; const c = structuredClone(m); this.log.push({ op: "post", msg: c }); this.onPost(c); this.toClient.push(c); },
    };
    const quiet = { warn() {}, error() {}, log() {}, info() {}, debug() {} };
    const setTimeout = (f, ms) => { this.timers.push({ f, due: this.clock + (ms ?? 0) }); return this.timers.length; };
    this.run(code.worker, ["self", "performance", "setTimeout", "console", "postMessage"],
      [self, { now: () => this.clock }, setTimeout, quiet, self.postMessage]);
    this.worker = self;
  }
  async deliverToWorker() {
    const m = this.toWorker.shift();
    this.log.push({ op: "handle", msg: m });
    globalThis.__pkg = this.pkg;
    this.worker.onmessage({ data: m });
    await flush();
  }
  async fireTimer() {
    this.timers.sort((a, b) => a.due - b.due);
    const t = this.timers.shift();
    this.clock = Math.max(this.clock, t.due);
    this.log.push({ op: "timer" });
    globalThis.__pkg = this.pkg;
    t.f();
    await flush();
  }
  async finishLoading(broken = false) {
    const f = this.loading.shift();
    globalThis.__pkg = this.pkg;
    f(broken);
    await flush();
  }

  // ---- the client side: one mounted hook with the semantics of React's, re-rendered until nothing changes
  startClient() {
    const world = this;
    class Worker {
      constructor() { world.uiWorker = this; world.startWorker(); }
      postMessage(m) { if (!this.dead) world.toWorker.push(structuredClone(m)); }
      terminate() {
        this.dead = true;
        if (world.uiWorker !== this) return;
        // nothing of a terminated worker happens any more, nor does what it has sent arrive
        world.worker.dead = true;
        for (const q of [world.toWorker, world.toClient, world.timers, world.loading]) q.length = 0;
      }
    }
    let uuid = 0;
    const crypto = { randomUUID: () => `00000000-0000-4000-8000-${String(++uuid).padStart(12, "0")}` };
    globalThis.__react = { current: null };
    this.client = this.run(code.client, ["performance", "crypto", "Worker", "URL", "console", "navigator"],
      [{ now: () => this.clock }, crypto, Worker, class { constructor(p, b) { this.href = b + p; } }, { warn() {}, error() {}, log() {} }, { clipboard: { writeText: async (t) => { this.copy?.(t); } } }]);
    this.dirty = false;
    this.cells = [];
    this.stores = new Set();
  }
  /** What a component may call while it renders; its state lives in `cells`. */
  hooks(cells, effects) {
    let i = 0;
    const same = (a, b) => a && b && a.length === b.length && a.every((x, i) => Object.is(x, b[i]));
    const cell = (mk) => { if (i === cells.length) cells.push(mk()); return cells[i++]; };
    return {
      watch: (api) => { if (!this.stores.has(api)) { this.stores.add(api); api.subscribe(() => { this.dirty = true; }); } },
      useState: (init) => { const c = cell(() => ({ v: typeof init === "function" ? init() : init })); c.set ??= (v) => { const n = typeof v === "function" ? v(c.v) : v; if (!Object.is(n, c.v)) { c.v = n; this.dirty = true; } }; return [c.v, c.set]; },
      useRef: (init) => cell(() => ({ current: init })),
      useMemo: (f, d) => { const c = cell(() => ({})); if (!same(c.d, d)) { c.v = f(); c.d = d; } return c.v; },
      useEffect: (f, d) => { const c = cell(() => ({})); if (!same(c.d, d)) effects.push([c, f, d]); },
    };
  }
  mount(fn) {
    this.fn = fn;
    this.render();
  }
  render() {
    globalThis.__pkg = this.pkg;
    for (let round = 0; ; round++) {
      if (round > 60) throw new Error("the view keeps re-rendering");
      this.dirty = false;
      const effects = [];
      globalThis.__react.current = this.hooks(this.cells, effects);
      this.view = this.fn();
      globalThis.__react.current = null;
      for (const [c] of effects) { if (c.undo) { c.undo(); c.undo = null; } }
      for (const [c, f, d] of effects) { c.d = d; const u = f(); c.undo = typeof u === "function" ? u : null; }
      if (!this.dirty) return;
    }
  }
  async deliverToClient() {
    const m = this.toClient.shift();
    this.uiWorker.onmessage({ data: m });
    await flush();
    this.render();
  }
}
