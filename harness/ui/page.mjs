// U03: the page as it is rendered. Every case drives the real components through what is on the screen.
import { World, fc, flush } from "./world.mjs";
import { Page } from "./dom.mjs";

const fail = (m) => { throw new Error(m); };
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const sci = (x) => (Number.isFinite(x) ? x.toExponential(3) : String(x));

// Distinct values everywhere, so that a field bound to a neighbour's option shows.
const NUMBERS = ["maxsize", "seed", "populations", "population_size", "ncycles_per_iteration", "maxdepth", "warmup_maxsize_by", "topn", "tournament_selection_n",
  "tournament_selection_p", "parsimony", "adaptive_parsimony_scaling", "crossover_probability", "perturbation_factor", "probability_negate_constant", "optimizer_probability",
  "optimizer_iterations", "optimizer_nrestarts", "optimizer_f_calls_limit", "fraction_replaced", "fraction_replaced_hof", "fraction_replaced_guesses", "alpha"];
const FLAGS = ["use_frequency", "use_frequency_in_tournament", "use_baseline", "annealing", "skip_mutation_failures", "should_simplify", "should_optimize_constants", "migration", "hof_migration"];
const WEIGHTS = ["mutate_constant", "mutate_operator", "mutate_feature", "swap_operands", "rotate_tree", "add_node", "insert_node", "delete_node", "simplify", "randomize", "do_nothing", "optimize", "form_connection", "break_connection"];
const defaults = (flags) => {
  const o = { has_headers: true, x_columns: null, y_column: null, weights_column: null, validation_fraction: 0, loss_kind: "mse", huber_delta: 1.25, lp_p: 2, quantile_tau: 0.5, epsilon_insensitive_eps: 0.1, niterations: 30, progress: false, batching: false };
  NUMBERS.forEach((k, i) => { o[k] = i % 2 ? 2 + i : 0.5 + i / 64; });
  FLAGS.forEach((k, i) => { o[k] = Boolean((flags >> i) & 1); });
  o.mutation_weights = Object.fromEntries(WEIGHTS.map((k, i) => [k, 0.25 + i / 32]));
  return o;
};
const REGISTRY = [
  ...["cos", "sin", "exp", "log", "neg", "abs", "cbrt", "sign", "sinh", "cosh", "exp2", "log2", "log10", "log1p", "asin", "atan"].map((n) => [1, n, n === "neg" ? "-" : n]),
  ...["add", "sub", "mul", "div", "pow", "max", "min", "atan2", "pow_abs"].map((n) => [2, n, { add: "+", sub: "-", mul: "*", div: "/", pow: "^" }[n] ?? n]),
  ...["fma", "clamp"].map((n) => [3, n, n]),
].map(([arity, name, display]) => ({ arity, name, display, infix: null, commutative: false, associative: false, complexity: 1 }));

async function open(c) {
  const w = new World(c.stepMs ?? 12);
  const all = defaults(c.flags ?? 0x155);
  const web = Object.fromEntries(["has_headers", "x_columns", "y_column", "weights_column", "validation_fraction", "loss_kind", "huber_delta", "lp_p", "quantile_tau", "epsilon_insensitive_eps"].map((k) => [k, all[k]]));
  w.pkg.searchDefaults = () => structuredClone({ ...web, seed: -1, core: { seed: 5 } });
  w.pkg.coreDefaults = () => structuredClone(Object.fromEntries(Object.entries(all).filter(([k]) => !(k in web))));
  w.pkg.registry = () => structuredClone(REGISTRY);
  w.startClient();
  const page = new Page(w, { type: w.client.App, key: null, props: {} });
  await w.finishLoading();
  page.render();
  const s = () => w.client.useSessionStore.getState();
  if (!same(Object.entries(s().options ?? {}).sort(), Object.entries(all).sort())) fail(`the page starts from other options than the engine's defaults: ${JSON.stringify(s().options)}`);
  return { w, page, s, store: w.client.useSessionStore, all };
}
const tab = (page, name) => page.click(page.button(name) ?? fail(`no tab ${name}`));
const labelled = (fields, name) => {
  const hits = fields.filter((f) => f.name === name);
  if (hits.length !== 1) fail(`the page has ${hits.length} fields labelled ${name}`);
  return hits[0].c;
};
/** A select shows the option with its value (the first one if there is none). */
const shown = (page, c) => {
  const opts = page.all("option", c);
  const hit = opts.find((o) => String(o.props.value) === String(c.props.value));
  return hit ? String(hit.props.value) : `nothing (of ${opts.map((o) => o.props.value)})`;
};

// ------------------------------------------------------------------ the option form

const valueArb = fc.oneof(fc.integer({ min: 0, max: 2000 }).map(String), fc.double({ min: 0, max: 1, noNaN: true }).map((v) => String(Number(v.toPrecision(4)))), fc.constantFrom("0", "1e-5", "007", "0.50", "-3", ".25"));
const formEvent = fc.oneof(
  { weight: 6, arbitrary: fc.record({ e: fc.constant("number"), i: fc.nat(NUMBERS.length - 1), v: valueArb }) },
  { weight: 3, arbitrary: fc.record({ e: fc.constant("flag"), i: fc.nat(FLAGS.length - 1) }) },
  { weight: 3, arbitrary: fc.record({ e: fc.constant("weight"), i: fc.nat(WEIGHTS.length - 1), v: valueArb }) },
  { weight: 4, arbitrary: fc.record({ e: fc.constant("op"), i: fc.nat(30) }) },
  { weight: 2, arbitrary: fc.record({ e: fc.constant("loss"), k: fc.constantFrom("mse", "mae", "rmse", "huber", "huber") }) },
  { weight: 2, arbitrary: fc.record({ e: fc.constant("delta"), v: valueArb }) },
  { weight: 1, arbitrary: fc.record({ e: fc.constant("iterations"), v: valueArb }) },
  { weight: 1, arbitrary: fc.record({ e: fc.constant("tab"), t: fc.constantFrom("Data", "Configure", "Run") }) },
);
const formArb = fc.record({ flags: fc.nat(511), events: fc.array(formEvent, { minLength: 1, maxLength: 25, size: "max" }) });
async function formCase(c, info) {
  const { w, page, s, all } = await open(c);
  info.text = c.events.map((e) => [e.e, e.i ?? e.k ?? e.t ?? "", e.v ?? ""].filter((x) => x !== "").join(" ")).join(", ");
  const want = { ...all, mutation_weights: { ...all.mutation_weights } };
  const ops = { 1: [...s().unaryOps], 2: [...s().binaryOps], 3: [...s().ternaryOps] };
  for (const a of [1, 2, 3]) for (const n of ops[a]) if (!REGISTRY.some((o) => o.arity === a && o.name === n)) fail(`the page starts with the unknown operator ${n}`);
  let at = "Data";
  const go = (t) => { if (at !== t) { tab(page, t); at = t; } };
  const opField = (fields, o) => labelled(fields, o.display === o.name ? o.name : `${o.name} (${o.display})`);
  const offered = REGISTRY.filter((o) => o.arity < 3);
  const check = () => {
    for (const k of Object.keys(want)) if (!same(s().options[k], want[k])) fail(`${k} is ${JSON.stringify(s().options[k])}, entered was ${JSON.stringify(want[k])}`);
    for (const [a, k] of [[1, "unaryOps"], [2, "binaryOps"], [3, "ternaryOps"]]) if (!same([...s()[k]].sort(), [...ops[a]].sort())) fail(`the operators of arity ${a} are ${s()[k]}, chosen were ${ops[a]}`);
    if (at === "Configure") {
      const f = page.fields();
      for (const k of NUMBERS) if (Number(labelled(f, k).props.value) !== want[k]) fail(`the field ${k} shows ${labelled(f, k).props.value}, the option is ${want[k]}`);
      for (const k of FLAGS) if (labelled(f, k).props.checked !== want[k]) fail(`the box ${k} shows ${labelled(f, k).props.checked}, the option is ${want[k]}`);
      for (const k of WEIGHTS) if (Number(labelled(f, k).props.value) !== want.mutation_weights[k]) fail(`the field ${k} shows ${labelled(f, k).props.value}, the weight is ${want.mutation_weights[k]}`);
      if (shown(page, labelled(f, "loss_kind")) !== want.loss_kind) fail(`the loss shown is ${shown(page, labelled(f, "loss_kind"))}, the option is ${want.loss_kind}`);
      if (want.loss_kind === "huber" && Number(labelled(f, "huber_delta").props.value) !== want.huber_delta) fail("the field huber_delta does not show the option");
      for (const o of offered) if (opField(f, o).props.checked !== ops[o.arity].includes(o.name)) fail(`the box of ${o.name} is ${opField(f, o).props.checked ? "" : "not "}ticked`);
      for (const [a, title] of [[1, "Unary"], [2, "Binary"]]) if (!page.text(page.root).includes(`${title} (${ops[a].length} selected)`)) fail(`the count of ${title} operators is not ${ops[a].length}`);
    }
    if (at === "Run") {
      const it = labelled(page.fields(), "iterations");
      if (Number(it.props.value) !== want.niterations) fail(`the field iterations shows ${it.props.value}, the option is ${want.niterations}`);
      const init = page.button("Initialize");
      if (page.enabled(init) !== (ops[1].length + ops[2].length + ops[3].length > 0)) fail("Initialize is offered without operators, or refused with some");
    }
  };
  check();
  for (const e of c.events) {
    if (e.e === "tab") go(e.t);
    else if (e.e === "iterations") { go("Run"); page.type(labelled(page.fields(), "iterations"), e.v); want.niterations = Number(e.v); }
    else {
      go("Configure");
      const f = page.fields();
      if (e.e === "number") { page.type(labelled(f, NUMBERS[e.i]), e.v); want[NUMBERS[e.i]] = Number(e.v); }
      if (e.e === "weight") { page.type(labelled(f, WEIGHTS[e.i]), e.v); want.mutation_weights[WEIGHTS[e.i]] = Number(e.v); }
      if (e.e === "flag") { page.tick(labelled(f, FLAGS[e.i])); want[FLAGS[e.i]] = !want[FLAGS[e.i]]; }
      if (e.e === "loss") { page.type(labelled(f, "loss_kind"), e.k); want.loss_kind = e.k; }
      if (e.e === "delta" && want.loss_kind === "huber") { page.type(labelled(f, "huber_delta"), e.v); want.huber_delta = Number(e.v); }
      if (e.e === "op") {
        const o = offered[e.i % offered.length], l = ops[o.arity];
        page.tick(opField(f, o));
        ops[o.arity] = l.includes(o.name) ? l.filter((n) => n !== o.name) : [...l, o.name];
      }
    }
    check();
    info.classes[e.e] = (info.classes[e.e] ?? 0) + 1;
  }
  // what is entered is what the search is asked with
  go("Run");
  if (ops[1].length + ops[2].length > 0) {
    page.click(page.button("Initialize"));
    const m = w.toWorker.at(-1);
    if (m?.type !== "init") fail("Initialize does not ask for a search");
    const free = ["x_columns", "y_column", "weights_column"];
    for (const k of Object.keys(want)) if (!free.includes(k) && !same(m.options[k], want[k])) fail(`the search is asked for with ${k} = ${JSON.stringify(m.options[k])}, entered was ${JSON.stringify(want[k])}`);
    for (const [a, k] of [[1, "unary"], [2, "binary"], [3, "ternary"]]) if (!same([...m[k]].sort(), [...ops[a]].sort())) fail(`the search is asked for with the ${k} operators ${m[k]}, chosen were ${ops[a]}`);
    info.classes.asked = 1;
  }
  info.nontrivial = c.events.length > 2;
}

// ------------------------------------------------------------------ the data pane

const cellArb = fc.oneof({ weight: 5, arbitrary: fc.integer({ min: -50, max: 50 }) }, { weight: 3, arbitrary: fc.double({ min: -1e6, max: 1e6, noNaN: true }).map((v) => (Math.abs(v) < 1e-6 ? 0 : v)) }, { weight: 2, arbitrary: fc.integer({ min: 0, max: 9 }).map((v) => 1e9 + v) }, { weight: 1, arbitrary: fc.constantFrom(1e-9, 1e12, 0.1) });
export const tableArb = fc.record({
  cols: fc.oneof({ weight: 5, arbitrary: fc.integer({ min: 2, max: 5 }) }, { weight: 1, arbitrary: fc.integer({ min: 11, max: 14 }) }),
  cells: fc.array(cellArb, { minLength: 14, maxLength: 40 }), rows: fc.oneof({ weight: 5, arbitrary: fc.integer({ min: 2, max: 6 }) }, { weight: 1, arbitrary: fc.integer({ min: 11, max: 16 }) }),
  names: fc.array(fc.constantFrom("a", "b", "x y", "t_1", "Ω", "price"), { minLength: 14, maxLength: 14 }), alike: fc.option(fc.nat(1000), { nil: null }),
});
function build(t, header) {
  const rows = Array.from({ length: t.rows }, (_, i) => Array.from({ length: t.cols }, (_, j) => t.cells[(t.alike === null ? i * 5 + j * 3 + ((i * j) % 4) : i * t.cols + j) % t.cells.length]));
  const names = t.names.slice(0, t.cols), words = rows.map((r) => r.join(","));
  const value = (v) => (typeof v === "number" ? v : v === "inf" ? Infinity : Number(v));
  for (const r of rows) r.forEach((v, j) => { r[j] = value(v); });
  return { rows, names, csv: [...(header ? [names.join(",")] : []), ...words].join("\n") + "\n", written: header };
}
const parsedAs = (d, header) => (header
  ? d.written ? { headers: d.names, rows: d.rows } : { headers: d.rows[0].map(String), rows: d.rows.slice(1) }
  : { headers: d.names.map((_, i) => `col_${i}`), rows: d.rows });
const dataEvent = fc.oneof(
  { weight: 3, arbitrary: fc.record({ e: fc.constant("write"), t: tableArb, header: fc.boolean() }) },
  { weight: 4, arbitrary: fc.record({ e: fc.constant("upload"), t: tableArb, header: fc.boolean(), drop: fc.boolean() }) },
  { weight: 5, arbitrary: fc.record({ e: fc.constant("arrive"), i: fc.nat(4) }) },
  { weight: 4, arbitrary: fc.constant({ e: "parse" }) },
  { weight: 1, arbitrary: fc.constant({ e: "header" }) },
  { weight: 4, arbitrary: fc.record({ e: fc.constant("y"), i: fc.nat(13) }) },
  { weight: 4, arbitrary: fc.record({ e: fc.constant("w"), i: fc.option(fc.nat(13), { nil: null }) }) },
  { weight: 5, arbitrary: fc.record({ e: fc.constant("x"), i: fc.nat(13) }) },
  { weight: 2, arbitrary: fc.record({ e: fc.constant("inspect"), i: fc.nat(13) }) },
  { weight: 1, arbitrary: fc.record({ e: fc.constant("fraction"), v: fc.constantFrom("0", "0.25", "0.9", ".1") }) },
  { weight: 1, arbitrary: fc.constant({ e: "away" }) },
);
const dataArb = fc.record({ events: fc.array(dataEvent, { minLength: 1, maxLength: 30, size: "max" }) });

/** The Data pane against the table last parsed (`d`), the text in the box and the roles in the options. */
function checkData(page, s, d, text) {
  const o = s().options, f = page.fields(), box = page.all("textarea")[0];
  if (box.props.value !== text) fail(`the text box shows ${JSON.stringify(box.props.value)}, the data is ${JSON.stringify(text)}`);
  if (labelled(f, "has header row").props.checked !== o.has_headers) fail("the header box does not show its option");
  const tables = page.all("table").map((t) => page.rows(t));
  if (!d) { if (tables.length) fail("tables are shown before anything was parsed"); return; }
  const n = d.headers.length;
  const summary = tables.find((t) => t[0].includes("mean") && t[0].includes("std")), preview = tables.find((t) => t !== summary);
  if (!summary || !preview) fail("the preview or the column summary is missing");
  const head = d.headers.slice(0, 12), body = d.rows.slice(0, 12).map((r) => r.slice(0, 12).map((v) => (Number.isFinite(v) ? v.toFixed(4) : String(v))));
  if (!same(preview, [head, ...body])) fail(`the preview shows ${JSON.stringify(preview)}, the table starts ${JSON.stringify([head, ...body])}`);
  if (!page.text(page.root).includes(`Parsed ${d.rows.length} rows × ${n} columns`)) fail("the size of the parsed table is shown wrong");
  if (!same(summary.slice(1).map((r) => r[0]), d.headers)) fail(`the column summary lists ${JSON.stringify(summary.slice(1).map((r) => r[0]))}, the columns are ${JSON.stringify(d.headers)}`);
  for (let j = 0; j < n; j++) {
    const v = d.rows.map((r) => r[j]).filter(Number.isFinite);
    if (!v.length) continue;
    const big = Math.max(...v.map(Math.abs)), mean = v.reduce((a, b) => a + b / v.length, 0);
    const std = Math.sqrt(v.reduce((a, b) => a + (b - mean) ** 2, 0) / v.length);
    const due = { mean, std, min: Math.min(...v), max: Math.max(...v) };
    for (const [k, x] of Object.entries(due)) {
      const at = summary[0].indexOf(k), got = Number(summary[j + 1][at]);
      if (!(Math.abs(got - x) <= 6e-4 * Math.abs(x) + 1e-12 * big)) fail(`${k} of column ${d.headers[j]} is shown as ${summary[j + 1][at]}, it is ${x} (values ${JSON.stringify(v)})`);
    }
  }
  // column roles
  const y = o.y_column, wt = o.weights_column, x = o.x_columns;
  const col = (i) => Number.isInteger(i) && i >= 0 && i < n;
  if (!col(y) || !(wt === null || (col(wt) && wt !== y)) || !Array.isArray(x) || !x.every((i, k) => col(i) && i !== y && i !== wt && (k === 0 || x[k - 1] < i)))
    fail(`the column roles of a table of ${n} columns are target ${y}, weights ${wt}, inputs ${JSON.stringify(x)}`);
  if (shown(page, labelled(f, "y column")) !== String(y)) fail(`the target shown is ${shown(page, labelled(f, "y column"))}, it is ${y}`);
  if (shown(page, labelled(f, "weights column (optional)")) !== (wt === null ? "" : String(wt))) fail(`the weights shown are ${shown(page, labelled(f, "weights column (optional)"))}, they are ${wt}`);
  const boxes = f.filter((q) => q.c.props.type === "checkbox" && /^\d+: /.test(q.name));
  if (!same(boxes.map((q) => q.name), d.headers.map((h, i) => `${i}: ${h}`.trim()))) fail(`the input boxes are ${JSON.stringify(boxes.map((q) => q.name))}`);
  boxes.forEach((q, i) => {
    if (q.c.props.checked !== x.includes(i)) fail(`the input box of column ${i} is ${q.c.props.checked ? "" : "not "}ticked, the inputs are ${x}`);
    if (page.enabled(q.c) !== (i !== y && i !== wt)) fail(`the input box of column ${i} is ${page.enabled(q.c) ? "" : "not "}enabled with target ${y} and weights ${wt}`);
  });
  if (Number(labelled(f, "validation fraction").props.value) !== o.validation_fraction) fail("the validation fraction shown is not the option");
  // the scatter
  const plot = page.all("plot");
  if (x.length === 0) { if (plot.length) fail("points of no input are plotted"); return; }
  if (plot.length !== 1) fail("the plot of the inputs against the target is missing");
  const pick = labelled(f, "x column"), at = shown(page, pick);
  if (!same(page.all("option", pick).map((q) => [Number(q.props.value), page.text(q)]), x.map((i) => [i, d.headers[i]]))) fail("the columns offered for the plot are not the inputs");
  if (!x.includes(Number(at))) fail(`the plot shows column ${at}, the inputs are ${x}`);
  const t = plot[0].props.data;
  const drawn = (xs, ys) => xs.map((v, i) => [v, ys[i]]).filter((q) => q.every(Number.isFinite));
  if (t.length !== 1 || !same(drawn(t[0].x, t[0].y), drawn(d.rows.map((r) => r[Number(at)]), d.rows.map((r) => r[y])))) fail(`the plotted points are not column ${at} against the target ${y}`);
  const title = (q) => (typeof q === "string" ? q : q?.text);
  if (title(plot[0].props.layout.xaxis.title) !== d.headers[Number(at)] || title(plot[0].props.layout.yaxis.title) !== d.headers[y]) fail("the axes of the plot name other columns");
}
/** The user's side of the Data pane; `st` holds what the pane is due to show. */
function dataUser(page, s, st, count) {
  const parse = () => {
    const o = s().options, was = { y: o.y_column, w: o.weights_column, x: o.x_columns };
    return () => {
      const d = parsedAs(st.draft, o.has_headers), n = d.headers.length;
      st.d = d;
      const picked = [was.y, was.w, ...(was.x ?? [])].filter((i) => i !== null), now = s().options;
      if (picked.every((i) => i < n)) {
        const y = was.y ?? n - 1, due = { y, w: was.w, x: was.x ?? d.headers.map((_, i) => i).filter((i) => i !== y && i !== was.w) };
        const got = { y: now.y_column, w: now.weights_column, x: now.x_columns };
        if (!same(got, due)) fail(`parsing turns the column roles ${JSON.stringify(was)} into ${JSON.stringify(got)}`);
      } else count("roles of another table");
    };
  };
  const roles = () => { const o = s().options; return { y: o.y_column, w: o.weights_column, x: o.x_columns }; };
  const due = (want) => { if (!same(roles(), want)) fail(`the roles picked are ${JSON.stringify(roles())}, due are ${JSON.stringify(want)}`); };
  return {
    write: (e) => { if (st.files.length) return; st.draft = build(e.t, e.header); st.text = st.draft.csv; page.type(page.all("textarea")[0], st.text); },
    upload: (e) => {
      const d = build(e.t, e.header);
      let arrive;
      const file = { name: "t.csv", size: d.csv.length, text: () => new Promise((res) => { arrive = () => res(d.csv); }), arrayBuffer: () => new Promise((res) => { arrive = () => res(new TextEncoder().encode(d.csv).buffer); }) };
      const files = Object.assign([file], { item: (i) => [file][i] ?? null });
      if (e.drop) page.fire(page.all((x) => x.props.onDrop)[0], "onDrop", page.event({}, { dataTransfer: { files } }));
      else page.fire(page.all((x) => x.type === "input" && x.props.type === "file")[0], "onChange", page.event({ files, value: "t.csv" }));
      if (!arrive) fail("a chosen file is not read");
      for (const f of st.files) f.last = false;
      st.files.push({ d, arrive, last: true });
      if (st.files.length > 1) count("uploads that overtake");
    },
    arrive: async (e) => {
      if (!st.files.length) return;
      const [f] = st.files.splice(e.i % st.files.length, 1);
      if (!f.last) { f.arrive(); await flush(); page.render(); count("uploads given up"); return; }
      st.draft = f.d;
      st.text = f.d.csv;
      const after = parse();
      f.arrive();
      await flush();
      page.render();
      after();
      count("uploads");
    },
    parse: () => {
      if (!st.draft) return;
      const after = parse();
      page.click(page.button("Parse / Preview"));
      after();
      count("parses");
    },
    header: () => { page.tick(labelled(page.fields(), "has header row")); },
    y: (e) => {
      if (!st.d) return;
      const i = e.i % st.d.headers.length, was = roles();
      page.type(labelled(page.fields(), "y column"), i);
      const w = was.w === i ? null : was.w;
      due({ y: i, w, x: was.x.filter((k) => k !== i) });
      count("targets picked");
    },
    w: (e) => {
      if (!st.d) return;
      const c = labelled(page.fields(), "weights column (optional)"), was = roles(), i = e.i === null ? null : e.i % st.d.headers.length;
      const opt = page.all("option", c).find((q) => String(q.props.value) === (i === null ? "" : String(i)));
      if (!opt) fail(`column ${i} is not offered for the weights`);
      if (Boolean(opt.props.disabled) !== (i !== null && i === was.y)) fail(`column ${i} is ${opt.props.disabled ? "not " : ""}offered for the weights, the target is ${was.y}`);
      if (opt.props.disabled) return;
      page.type(c, opt.props.value);
      due({ y: was.y, w: i, x: was.x.filter((k) => k !== i) });
      count("weights picked");
    },
    x: (e) => {
      if (!st.d) return;
      const i = e.i % st.d.headers.length, was = roles();
      if (i === was.y || i === was.w) return;
      page.tick(page.fields().filter((q) => q.c.props.type === "checkbox" && /^\d+: /.test(q.name))[i].c);
      due({ ...was, x: (was.x.includes(i) ? was.x.filter((k) => k !== i) : [...was.x, i]).sort((a, b) => a - b) });
      count("inputs picked");
    },
    inspect: (e) => {
      const x = s().options.x_columns ?? [];
      if (!st.d || x.length === 0) return;
      const i = x[e.i % x.length];
      page.type(labelled(page.fields(), "x column"), i);
      if (shown(page, labelled(page.fields(), "x column")) !== String(i)) fail(`column ${i} is picked for the plot, ${shown(page, labelled(page.fields(), "x column"))} is shown`);
    },
    fraction: (e) => { if (!st.d) return; page.type(labelled(page.fields(), "validation fraction"), e.v); if (s().options.validation_fraction !== Number(e.v)) fail("the validation fraction entered is not taken"); },
    away: () => { tab(page, "Configure"); tab(page, "Data"); },
  };
}
async function dataCase(c, info) {
  const { page, s } = await open({ flags: 0 });
  info.text = c.events.map((e) => e.e + (e.t ? ` ${e.t.rows}x${e.t.cols}` : "") + (e.i != null ? ` ${e.i}` : "")).join(", ");
  const count = (k) => { info.classes[k] = (info.classes[k] ?? 0) + 1; };
  const st = { text: s().csvText, draft: null, d: null, files: [] };
  const user = dataUser(page, s, st, count);
  checkData(page, s, st.d, st.text);
  for (const e of c.events) {
    const before = JSON.stringify(s().options), keep = ["has_headers", "y_column", "weights_column", "x_columns", "validation_fraction"];
    await user[e.e](e);
    page.render();
    const o = s().options, b = JSON.parse(before);
    for (const k of Object.keys(b)) if (!keep.includes(k) && !same(o[k], b[k])) fail(`${e.e} on the data pane changes ${k}`);
    checkData(page, s, st.d, st.text);
  }
  info.nontrivial = st.d !== null && c.events.length > 2;
}

// ------------------------------------------------------------------ the whole page, with its search

const smallTable = fc.record({ cols: fc.integer({ min: 2, max: 4 }), cells: fc.array(fc.oneof({ weight: 12, arbitrary: fc.integer({ min: 0, max: 999 }) }, { weight: 1, arbitrary: fc.constantFrom("NaN", "inf", "-Infinity", "+7", "1e400") }), { minLength: 14, maxLength: 24 }), rows: fc.integer({ min: 2, max: 8 }), names: fc.constant(["a", "b", "c", "d"]), alike: fc.constant(0) });
const act = fc.oneof(
  { weight: 2, arbitrary: fc.record({ e: fc.constant("tab"), t: fc.constantFrom("Data", "Configure", "Run") }) },
  { weight: 3, arbitrary: fc.record({ e: fc.constant("write"), t: smallTable, header: fc.constant(true) }) },
  { weight: 1, arbitrary: fc.record({ e: fc.constant("upload"), t: smallTable, header: fc.constant(true), drop: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ e: fc.constant("arrive"), i: fc.nat(2) }) },
  { weight: 2, arbitrary: fc.constant({ e: "parse" }) },
  { weight: 1, arbitrary: fc.record({ e: fc.constantFrom("y", "x", "w"), i: fc.nat(3) }) },
  { weight: 5, arbitrary: fc.record({ e: fc.constant("init"), iters: fc.constantFrom(0, 10, 25, 60, 90), frac: fc.constantFrom(0, 0.3), reject: fc.constantFrom(false, false, false, false, true), crash: fc.constantFrom(null, null, null, null, 20) }) },
  { weight: 5, arbitrary: fc.constant({ e: "start" }) },
  { weight: 2, arbitrary: fc.constant({ e: "pause" }) },
  { weight: 1, arbitrary: fc.constant({ e: "reset" }) },
  { weight: 4, arbitrary: fc.record({ e: fc.constantFrom("row", "row", "point"), i: fc.nat(5) }) },
  { weight: 1, arbitrary: fc.constantFrom({ e: "more" }, { e: "copy" }) },
  { weight: 4, arbitrary: fc.constant({ e: "deliver" }) },
  { weight: 6, arbitrary: fc.constant({ e: "answer" }) },
  { weight: 4, arbitrary: fc.constant({ e: "timer" }) },
  { weight: 2, arbitrary: fc.constant({ e: "load" }) },
  { weight: 5, arbitrary: fc.record({ e: fc.constant("settle"), ticks: fc.integer({ min: 0, max: 4 }) }) },
);
const initArb = fc.record({ e: fc.constant("init"), iters: fc.constantFrom(10, 25, 60, 90, 200), frac: fc.constantFrom(0, 0.3), reject: fc.constantFrom(false, false, false, false, false, false, true), crash: fc.constantFrom(null, null, null, null, null, null, 20) });
const settle = (ticks) => fc.record({ e: fc.constant("settle"), ticks });
const click = fc.record({ e: fc.constantFrom("row", "row", "point"), i: fc.nat(5) });
const during = fc.oneof(
  { weight: 6, arbitrary: fc.tuple(click, settle(fc.constantFrom(0, 0, 1, 2))) },
  { weight: 2, arbitrary: fc.tuple(click) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom({ e: "more" }, { e: "copy" })) },
  { weight: 2, arbitrary: fc.tuple(fc.record({ e: fc.constant("tab"), t: fc.constantFrom("Data", "Configure") }), settle(fc.integer({ min: 0, max: 2 })), fc.constant({ e: "tab", t: "Run" })) },
  { weight: 2, arbitrary: fc.tuple(fc.constant({ e: "pause" }), settle(fc.integer({ min: 0, max: 1 })), click, settle(fc.constant(0)), fc.constantFrom({ e: "start" }, { e: "settle", ticks: 0 })) },
  { weight: 1, arbitrary: fc.tuple(fc.record({ e: fc.constant("write"), t: smallTable, header: fc.constant(true) }), fc.constantFrom({ e: "parse" }, { e: "more" }), fc.constant({ e: "tab", t: "Run" })) },
  { weight: 2, arbitrary: fc.tuple(settle(fc.integer({ min: 1, max: 6 }))) },
  { weight: 1, arbitrary: fc.tuple(act) },
);
const roundArb = fc.tuple(
  fc.array(fc.oneof(fc.record({ e: fc.constant("write"), t: smallTable, header: fc.constant(true) }), fc.constant({ e: "parse" }), fc.record({ e: fc.constantFrom("y", "x", "w"), i: fc.nat(3) })), { maxLength: 5 }),
  initArb, settle(fc.constantFrom(0, 0, 0, 1)), fc.constant({ e: "start" }), settle(fc.integer({ min: 1, max: 5 })), fc.array(during, { minLength: 1, maxLength: 6 }),
).map((r) => r.flat(3));
const free = fc.array(act, { minLength: 1, maxLength: 70, size: "max" });
const pageArb = fc.record({ stepMs: fc.constantFrom(1, 12, 30), events: free });
const roundsArb = fc.record({ stepMs: fc.constantFrom(12, 30), events: fc.array(roundArb, { minLength: 1, maxLength: 3 }).map((r) => r.flat()) });
async function pageCase(c, info) {
  const { w, page, s, store } = await open(c);
  info.text = c.events.map((e) => e.e + (e.t?.cols ? ` ${e.t.rows}x${e.t.cols}` : e.t ? ` ${e.t}` : "") + (e.i != null ? ` ${e.i}` : "") + (e.iters != null ? ` ${e.iters} cycles` : "")).join(", ");
  const count = (k) => { info.classes[k] = (info.classes[k] ?? 0) + 1; };
  const st = { text: s().csvText, draft: null, d: null, files: [] };
  const user = dataUser(page, s, st, count);
  const rates = [];
  let lastSnap = null, at = "Data", want = "idle", copied = null, of = null;
  w.copy = (t) => { copied = t; };
  const go = (t) => { if (at !== t) { tab(page, t); at = t; } };
  const rt = () => s().runtime;
  const resetting = () => w.toWorker.some((m) => m.type === "reset") || w.toClient.some((m) => m.type === "reset_done");
  const chip = () => page.text(page.all((x) => x.props["data-testid"] === "search-status")[0]).trim();
  const table = () => page.all((x) => x.type === "table" && x.props["data-testid"] === "solutions-table")[0];
  const bodyRows = () => page.all((x) => x.type === "tr" && x.up.some((u) => u.type === "tbody"), table());
  const plots = () => ({ pareto: page.all((x) => x.type === "plot" && same(axes(x)[0], "complexity"))[0], fit: page.all((x) => x.type === "plot" && axes(x)[0] !== "complexity")[0] });
  const axes = (p) => [p.props.layout?.xaxis?.title, p.props.layout?.yaxis?.title].map((t) => (typeof t === "string" ? t : t?.text));
  const look = () => {
    if (at === "Data") return checkData(page, s, st.d, st.text);
    if (at !== "Run") return;
    const r = rt(), eng = w.engine, all = page.text(page.root);
    if (chip() !== r.status) fail(`the status shown is ${chip()}, it is ${r.status}`);
    const on = (t) => page.enabled(page.button(t) ?? fail(`no button ${t}`));
    if (on("Start / Resume") !== (r.status === "ready" || r.status === "paused")) fail(`Start is ${on("Start / Resume") ? "" : "not "}offered when ${r.status}`);
    if (on("Pause") !== (r.status === "running")) fail(`Pause is ${on("Pause") ? "" : "not "}offered when ${r.status}`);
    if (on("Initialize") !== (r.status !== "initializing")) fail(`Initialize is ${on("Initialize") ? "" : "not "}offered when ${r.status}`);
    if (!on("Reset")) fail("Reset is not offered");
    if (r.status === "error" && !all.includes(r.error)) fail("the error is not shown");
    const clean = !["initializing", "error"].includes(r.status);
    if (r.snapshot) {
      const q = r.snapshot;
      if (!all.includes(`cycles ${q.cycles_completed}/${q.total_cycles}`) || !all.includes(`evals=${q.total_evals}`)) fail("the progress line is not that of the snapshot");
      const pct = /\(([\d.]+)%\)/.exec(all)?.[1];
      if (q.total_cycles > 0 && Math.abs(Number(pct) - (100 * q.cycles_completed) / q.total_cycles) > 0.051) fail(`${q.cycles_completed} of ${q.total_cycles} cycles are shown as ${pct} %`);
      if (clean && !q.best.equation.startsWith(`s${eng.session}e`)) fail("the snapshot shown is that of an earlier search");
      const rate = /, ([\d.e+-]+) eval\/s/.exec(all)?.[1];
      if (rate !== undefined && clean) {
        // an average of the rates between the snapshots shown
        if (!rates.length) fail("a rate is shown before two snapshots");
        if (!(Number(rate) >= Math.min(...rates) * 0.999 && Number(rate) <= Math.max(...rates) * 1.001)) fail(`the rate shown is ${rate}, the rates between snapshots were ${rates}`);
        count("rates");
      }
    } else if (/cycles \d/.test(all)) fail("progress is shown without a search");
    const rows = bodyRows().map((x) => page.all("td", x).map((k) => page.text(k)));
    if (!same(rows, r.front.map((m) => [sci(m.loss), m.equation]).reverse())) fail(`the table lists ${JSON.stringify(rows)}, the front is ${JSON.stringify(r.front)}`);
    if (clean) for (const m of r.front) if (!m.equation.startsWith(`s${eng.session}e`)) fail("the table lists an equation of an earlier search");
    // the selected equation
    const best = r.snapshot?.best ?? null, sel = r.selectedId == null ? best : r.front.find((m) => m.id === r.selectedId) ?? (best?.id === r.selectedId ? best : null);
    const eq = page.all((x) => x.props["data-testid"] === "selected-equation")[0];
    if (Boolean(eq) !== Boolean(sel)) fail(sel ? "the selected equation is not shown" : "an equation is shown as selected without one");
    const { fit, pareto } = plots();
    if (sel) {
      if (page.text(eq) !== sel.equation) fail(`the selected equation is ${sel.equation}, ${page.text(eq)} is shown`);
      if (!all.includes(`complexity ${sel.complexity} • loss ${sci(sel.loss)}`)) fail("complexity and loss shown are not those of the selected equation");
    }
    const metrics = page.all((x) => x.type === "table" && x !== table()).map((t) => Object.fromEntries(page.rows(t))).filter((t) => "rmse" in t);
    const names = { n: "n", rmse: "rmse", mae: "mae", "r²": "r2", "max |err|": "max_abs_err", mse: "mse", corr: "corr", "min |err|": "min_abs_err" };
    if (sel && r.selectedId != null && clean) {
      const due = ["train", "val"].filter((k) => r.evalByKey[`${r.selectedId}:${k}`] && (k === "train" || r.split?.val.length));
      if (metrics.length !== due.length) fail(`${metrics.length} tables of metrics are shown, evaluated are ${due}`);
      due.forEach((k, i) => {
        const m = eng.metrics(r.selectedId, k);
        for (const [l, v] of Object.entries(metrics[i])) {
          if (!(l in names)) continue;
          const q = m[names[l]];
          if (v !== (l === "n" ? String(q) : sci(q))) fail(`${l} on the ${k} rows is shown as ${v}, it is ${q}`);
        }
        for (const l of ["n", "rmse", "mae", "r²", "max |err|"]) if (!(l in metrics[i])) fail(`${l} is not shown`);
        count("metrics shown");
      });
      if (due.includes("train") && !fit) fail("the fit of the selected equation is not drawn");
    } else if (metrics.length && clean) fail("metrics are shown without a selected equation");
    // the drawn fit
    if (fit && clean && eng && r.selectedId != null) {
      const g = of.options, t = of.rows, y = t.map((q) => q[g.y_column]), kinds = ["train", "val"].filter((k) => r.evalByKey[`${r.selectedId}:${k}`] && (k === "train" || eng.split.val.length));
      const key = (xs, ys) => xs.map((v, i) => [v, ys[i]]).filter((q) => q.every(Number.isFinite)).map((q) => q.join(":")).sort().join(" ");
      const traces = Object.fromEntries(fit.props.data.map((q) => [q.name, q]));
      for (const k of kinds) {
        const idx = eng.split[k], yh = eng.yhat(r.selectedId, k), yy = idx.map((i) => y[i]);
        if (g.x_columns.length === 1) {
          const x = idx.map((i) => t[i][g.x_columns[0]]), data = traces[`${k} data`], model = traces[`${k} model`];
          if (!data || !model) fail(`the ${k} curve is not drawn`);
          if (key(data.x, data.y) !== key(x, yy)) fail(`the ${k} points drawn are not the data's`);
          if (key(model.x, model.y) !== key(x, yh)) fail(`the ${k} curve drawn is not the equation's`);
          if (model.x.some((v, i) => i > 0 && model.x[i - 1] > v)) fail("the curve is drawn out of order");
          count("curves drawn");
        } else {
          const q = traces[k];
          if (!q || key(q.x, q.y) !== key(yy, yh)) fail(`the ${k} points drawn do not pair targets with predictions`);
          count("fits drawn");
        }
      }
    }
    const pts = r.snapshot?.pareto_points ?? [];
    if (Boolean(pareto) !== pts.length > 0) fail("the front is drawn without points, or not drawn");
    if (pareto) {
      const d = pareto.props.data;
      if (d.length !== 1 || !same(d[0].x, pts.map((p) => p.complexity)) || !same(d[0].y, pts.map((p) => p.loss))) fail("the front drawn is not that of the snapshot");
      const marked = d[0].marker?.size;
      if (Array.isArray(marked) && r.selectedId != null) {
        const hi = Math.max(...marked), lo = Math.min(...marked), k = pts.findIndex((p) => p.id === r.selectedId);
        if (k >= 0 && hi > lo && marked.some((v, i) => (v === hi) !== (i === k))) fail("another point than the selected one is marked");
        if (k >= 0 && marked.length > 1 && hi === lo) fail("the selected point is not marked");
      }
    }
    // the iterations field
    const it = labelled(page.fields(), "iterations");
    if (Number(it.props.value) !== s().options.niterations) fail("the iterations shown are not the option");
  };
  const chosen = (id, complexity) => {
    const r = rt();
    if (r.selectedId !== id || r.selectedComplexity !== complexity) {
      // the front may already hold another equation of that complexity
      const f = r.front, due = f.filter((m) => m.complexity === complexity).at(-1) ?? f.filter((m) => m.complexity < complexity).at(-1) ?? f[0];
      if (r.selectedComplexity !== complexity || (due && r.selectedId !== due.id)) fail(`equation ${id} was clicked, ${r.selectedId} is selected`);
    }
    const asked = w.toWorker.filter((m) => m.type === "evaluate").map((m) => `${m.memberId}/${m.which}`);
    for (const k of r.split?.val.length ? ["train", "val"] : ["train"]) if (!asked.includes(`${id}/${k}`)) fail(`the clicked equation ${id} is not evaluated on the ${k} rows`);
    count("selections");
  };
  const events = {
    tab: (e) => go(e.t),
    write: (e) => { go("Data"); user.write(e); }, upload: (e) => { go("Data"); user.upload(e); }, arrive: async (e) => { if (st.files.length) { await user.arrive(e); } }, parse: () => { go("Data"); user.parse(); },
    y: (e) => { go("Data"); user.y(e); }, x: (e) => { go("Data"); user.x(e); }, w: (e) => { go("Data"); user.w(e); },
    init: (e) => {
      if (resetting() || st.files.length) return;
      if (!st.draft) { go("Data"); user.write({ t: { cols: 3, rows: 5, cells: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], names: ["a", "b", "c"], alike: 0 }, header: true }); }
      go("Run");
      if (!page.enabled(page.button("Initialize"))) return;
      const it = labelled(page.fields(), "iterations");
      if (page.enabled(it)) page.type(it, e.iters);
      else if (["idle", "error"].includes(rt().status)) fail("the iterations cannot be set before a search");
      const o = s().options, n = st.draft.names.length, x = o.x_columns;
      const bad = x !== null && x.length === 0;
      store.setState({ options: { ...o, validation_fraction: e.frac, rows: st.draft.rows.length, reject: e.reject || bad ? "no" : false, crash: e.crash } });
      page.render();
      page.click(page.button("Initialize"));
      const m = w.toWorker.at(-1);
      if (m?.type !== "init" || m.csvText !== st.text) fail("Initialize does not ask for a search on the text of the data pane");
      st.d = parsedAs(st.draft, true);
      const q = m.options, col = (i) => Number.isInteger(i) && i >= 0 && i < n;
      if (!bad && (!col(q.y_column) || !q.x_columns?.length || !q.x_columns.every((i) => col(i) && i !== q.y_column && i !== q.weights_column))) fail(`a search on ${n} columns is asked for with target ${q.y_column}, weights ${q.weights_column} and inputs ${q.x_columns}`);
      rates.length = 0;
      lastSnap = null;
      of = { options: structuredClone(q), rows: st.draft.rows };
      want = e.reject || bad ? "error" : "ready";
      w.pending = of;
      count("searches");
    },
    start: () => { if (resetting()) return; go("Run"); const b = page.button("Start / Resume"); if (!page.enabled(b)) return; page.click(b); want = "done"; },
    pause: () => { if (resetting() || at !== "Run") return; const b = page.button("Pause"); if (!page.enabled(b)) return; page.click(b); if (want === "done") want = "paused or done"; },
    reset: () => { if (resetting()) return; go("Run"); page.click(page.button("Reset")); want = "idle"; },
    row: (e) => {
      if (resetting() || at !== "Run" || rt().status === "initializing") return;
      const rows = bodyRows();
      if (!rows.length) return;
      const k = e.i % rows.length, m = rt().front.at(-1 - k);
      page.click(page.all("td", rows[k]).at(-1));
      chosen(m.id, m.complexity);
    },
    point: (e) => {
      if (resetting() || at !== "Run" || rt().status === "initializing") return;
      const { pareto } = plots();
      if (!pareto) return;
      const pts = rt().snapshot.pareto_points, k = e.i % pts.length, m = pts[k];
      globalThis.__pkg = w.pkg;
      pareto.props.onClick({ points: [{ pointIndex: k, pointNumber: k, x: m.complexity, y: m.loss, curveNumber: 0 }] });
      page.render();
      chosen(m.id, m.complexity);
    },
    more: () => { if (at !== "Run") return; const b = page.button("More") ?? page.button("Hide"); if (b) { page.click(b); count("more metrics"); } },
    copy: () => {
      if (at !== "Run") return;
      const b = page.button("Copy");
      if (!b) return;
      copied = null;
      page.click(b);
      if (copied !== page.text(page.all((x) => x.props["data-testid"] === "selected-equation")[0])) fail(`Copy copies ${copied}`);
      count("copies");
    },
    deliver: async () => w.toWorker.length && (await w.deliverToWorker(), true),
    answer: async () => {
      if (!w.toClient.length) return;
      const m = w.toClient.shift(), was = rt().snapshot;
      w.uiWorker.onmessage({ data: m });
      await flush();
      page.render();
      const now = rt().snapshot;
      if (now && now !== was) {
        if (lastSnap && w.clock > lastSnap.at) rates.push((1000 * (now.total_evals - lastSnap.evals)) / (w.clock - lastSnap.at));
        lastSnap = { at: w.clock, evals: now.total_evals };
      }
      return true;
    },
    timer: async () => w.timers.length && (await w.fireTimer(), true),
    load: async () => w.loading.length && (await w.finishLoading(), true),
    settle: async (e) => {
      const all = async () => { while ((await events.answer()) || (await events.deliver()) || (await events.load())) look(); };
      await all();
      for (let i = 0; i < e.ticks; i++) { await events.timer(); await all(); }
    },
  };
  for (const e of c.events) {
    await events[e.e](e);
    page.render();
    look();
  }
  for (let i = 0; ; i++) {
    if (i > 3000) fail("the page never comes to rest");
    if (!((await events.answer()) || (await events.deliver()) || (await events.load()) || (await events.timer()))) break;
    look();
  }
  go("Run");
  look();
  const r = rt();
  if (w.engine?.crashed) want = want.replace("done", "error");
  if (!want.split(" or ").includes(r.status)) fail(`the page comes to rest as ${r.status}${r.error ? ` (${r.error})` : ""} where ${want} is due`);
  if (r.status === "done") {
    const e = w.engine, all = page.text(page.root);
    if (!all.includes(`cycles ${e.total}/${e.total}`)) fail("a finished search does not show all its cycles");
    const rows = bodyRows().map((x) => page.text(page.all("td", x).at(-1)));
    if (!same(rows, e.best_equations(10000).map((m) => m.equation).reverse())) fail("a finished page does not list the final equations");
  }
  if (r.status === "idle" && (bodyRows().length || page.all("plot").length)) fail("a reset page still shows results");
  count("ended " + r.status);
  info.nontrivial = w.sessions > 0 && (r.selectedId != null || r.status === "done" || r.status === "paused" || w.sessions > 1);
}

export const U03 = {
  rule: "form: three edits or more; data: a table was parsed and there are three events or more; page: at least one search was built, and there is a second one, a selection, or the history ends paused or done",
  assumptions: ["React is replaced by a small renderer with its rules for state, effects and the reuse of children; plots by a stand-in that keeps the points it is given", "fields are typed into with numbers; the fields of a table are numbers, some of them nan or infinite", "controls are used only when the page enables them, and after Reset none before the page has answered it"],
  subs: [
    { name: "form", quick: 1200, deep: 60, arb: formArb, run: formCase },
    { name: "data", quick: 2500, deep: 60, arb: dataArb, run: dataCase },
    { name: "rounds", quick: 2000, deep: 60, arb: roundsArb, run: pageCase },
    { name: "page", quick: 1200, deep: 60, arb: pageArb, run: pageCase },
  ],
};
