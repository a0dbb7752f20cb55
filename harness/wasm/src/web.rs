//! W01-W04: the web session, compiled natively against stand-ins for the JavaScript values, next to a
//! native search engine given the same data and options.
use crate::ops::{builtin_table, Num};
use crate::reader::{Pt, P};
use crate::tree;
use dynamic_expressions::operator_enum::presets::BuiltinOpsF64 as B64;
use dynamic_expressions::strings::{string_tree, StringTreeOptions};
use dynamic_expressions::{OpId, OperatorSet};
use ndarray::{Array1, Array2};
use serde_wasm_bindgen::{from_value, to_value};
use session::{EquationSummary, SearchSnapshot, WasmEvalResult, WasmSearch, WasmSplitIndices};
use symbolic_regression::{make_loss, Dataset, LossKind, Operators, Options, PopMember, SearchEngine};
use vcommon::{ensure, guarded, Case, PropResult, Property, Source, Sub};
use wasm_bindgen::JsValue;

type Engine = SearchEngine<f64, B64, 3>;
type Member = PopMember<f64, B64, 3>;

// ---------------------------------------------------------------- generators

#[derive(Clone, Debug)]
pub struct Table {
    pub names: Vec<String>,
    /// text of each field, and its value
    pub cells: Vec<Vec<(String, f64)>>,
}
impl Table {
    fn cols(&self) -> usize {
        self.names.len()
    }
    fn rows(&self) -> usize {
        self.cells.len()
    }
}

/// A numeral and its value.
fn numeral(s: &mut Source) -> (String, f64) {
    let v = match s.below(6) {
        0 | 1 => s.int(-9, 9) as f64,
        2 => s.tame(5.0),
        3 => s.uniform(-100.0, 100.0),
        4 => s.int(-999, 999) as f64 / 100.0,
        _ => s.uniform(-1.0, 1.0) * *s.pick(&[1e-9, 1e6, 1e-3, 1e3]),
    };
    let txt = match s.below(6) {
        0 | 1 => format!("{v}"),
        2 => format!("{v:?}"),
        3 => format!("{v:e}"),
        4 => format!("{v:E}"),
        _ if v >= 0.0 => format!("+{v}"),
        _ => format!("{v:.17}"),
    };
    let v = txt.parse::<f64>().expect("a numeral");
    (txt, v)
}

fn gen_table(s: &mut Source, min_cols: usize, plain_names: bool) -> Table {
    let wide = vcommon::large() && s.bool();
    let cols = s.range(min_cols, if wide { 300 } else { 6 });
    let rows = match s.below(4) {
        _ if vcommon::large() && !wide => s.range(40, 6000),
        0 => s.range(1, 4),
        1 | 2 => s.range(2, 12),
        _ => s.range(5, 40),
    };
    let plain = ["a", "b_1", "mass", "t", "θ", "x1", "x0", "Q"];
    let odd = ["a b", "m, kg", "say \"hi\"", "", "1", "x0", "line\nbreak", "π/2", "y", "y", "#id", "# 1", "// t", "'q'", "%", "a;b", "a\\n", "-"];
    let names = (0..cols).map(|i| if plain_names || s.chance(1, 2) { plain.get(i).map_or_else(|| format!("col{i}"), |n| n.to_string()) } else { s.pick(&odd).to_string() }).collect();
    let cells = (0..rows).map(|_| (0..cols).map(|_| numeral(s)).collect()).collect();
    Table { names, cells }
}

/// A way to write a table down.
#[derive(Clone, Debug)]
struct Style {
    quote: u32,
    pad: u32,
    blank: u32,
    eol: &'static str,
    last_eol: bool,
    bom: bool,
}
fn gen_style(s: &mut Source) -> Style {
    Style {
        quote: *s.pick(&[0, 0, 1, 5]),
        pad: *s.pick(&[0, 0, 1, 4]),
        blank: *s.pick(&[0, 0, 1, 2]),
        eol: *s.pick(&["\n", "\n", "\r\n", "\r"]),
        last_eol: !s.chance(1, 3),
        bom: false,
    }
}
const PLAIN: Style = Style { quote: 0, pad: 0, blank: 0, eol: "\n", last_eol: true, bom: false };

fn field(s: &mut Source, txt: &str, st: &Style) -> String {
    let must = txt.contains([',', '"', '\n', '\r']) || (txt.is_empty());
    // padding inside the quotes is trimmed, too; padding outside of quotes is not CSV
    let pad = |s: &mut Source| if st.pad > 0 && s.chance(st.pad, 5) { s.pick(&[" ", "  ", "\t"]).to_string() } else { String::new() };
    let (l, r) = (pad(s), pad(s));
    let body = format!("{l}{txt}{r}");
    if must || (st.quote > 0 && s.chance(st.quote, 5)) {
        format!("\"{}\"", body.replace('"', "\"\""))
    } else {
        body
    }
}

fn write_csv(s: &mut Source, t: &Table, headers: bool, st: &Style) -> String {
    let mut lines: Vec<String> = vec![];
    if headers {
        let mut l = vec![];
        for n in &t.names {
            l.push(field(s, n, st));
        }
        lines.push(l.join(","));
    }
    for row in &t.cells {
        let mut l = vec![];
        for (txt, _) in row {
            l.push(field(s, txt, st));
        }
        lines.push(l.join(","));
    }
    let mut out = String::new();
    let n = lines.len();
    for (i, l) in lines.iter().enumerate() {
        if st.blank > 0 && s.chance(st.blank, 5) {
            out.push_str(st.eol);
        }
        out.push_str(l);
        if i + 1 < n || st.last_eol {
            out.push_str(st.eol);
        }
    }
    if st.blank > 0 && st.last_eol && s.bool() {
        out.push_str(st.eol);
    }
    if st.bom {
        out.insert(0, '\u{feff}');
    }
    out
}

fn obj(fields: Vec<(&str, JsValue)>) -> JsValue {
    JsValue::Object(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn nums(v: impl IntoIterator<Item = usize>) -> JsValue {
    JsValue::Array(v.into_iter().map(|i| JsValue::Number(i as f64)).collect())
}
fn texts(v: &[String]) -> JsValue {
    JsValue::Array(v.iter().map(|t| JsValue::Text(t.clone())).collect())
}

#[derive(Clone, Debug)]
pub struct Sel {
    pub headers: bool,
    pub x: Vec<usize>,
    pub y: usize,
    pub w: Option<usize>,
    /// how it is written: explicit x / y columns
    explicit_x: Option<Vec<usize>>,
    explicit_y: bool,
}

/// A valid column selection.
fn gen_sel(s: &mut Source, cols: usize) -> Sel {
    let y = if s.bool() { cols - 1 } else { s.below(cols) };
    let explicit_y = y != cols - 1 || s.bool();
    let w = if cols > 2 && s.chance(1, 3) {
        let k = s.below(cols - 1);
        Some(if k >= y { k + 1 } else { k })
    } else {
        None
    };
    let free: Vec<usize> = (0..cols).filter(|c| *c != y && Some(*c) != w).collect();
    let (x, explicit_x) = if s.bool() {
        (free, None)
    } else {
        // a selection, in any order, possibly naming a column twice
        let mut pick: Vec<usize> = free.iter().copied().filter(|_| s.bool()).collect();
        if pick.is_empty() {
            pick.push(*s.pick(&free));
        }
        let sorted = pick.clone();
        for i in (1..pick.len()).rev() {
            let j = s.below(i + 1);
            pick.swap(i, j);
        }
        if s.chance(1, 5) {
            let d = *s.pick(&pick);
            pick.push(d);
        }
        (sorted, Some(pick))
    };
    Sel { headers: s.chance(3, 4), x, y, w, explicit_x, explicit_y }
}

pub struct Setup {
    pub fields: Vec<(&'static str, JsValue)>,
    pub tokens: [Vec<String>; 3],
    pub opts: Options<f64, 3>,
    pub txt: String,
}

fn opt_f64(v: f64) -> JsValue {
    JsValue::Number(v)
}

macro_rules! fill {
    ($s:ident, $o:ident, $f:ident; $($name:ident = $gen:expr),* $(,)?) => {$(
        if $s.chance(1, 3) {
            let v = $gen;
            $o.$name = v;
            $f.push((stringify!($name), JsValue::from(js(v))));
        }
    )*};
}
trait Js {
    fn js(self) -> JsValue;
}
impl Js for f64 {
    fn js(self) -> JsValue {
        JsValue::Number(self)
    }
}
impl Js for f32 {
    fn js(self) -> JsValue {
        JsValue::Number(self as f64)
    }
}
impl Js for usize {
    fn js(self) -> JsValue {
        JsValue::Number(self as f64)
    }
}
impl Js for u16 {
    fn js(self) -> JsValue {
        JsValue::Number(self as f64)
    }
}
impl Js for bool {
    fn js(self) -> JsValue {
        JsValue::Bool(self)
    }
}
fn js<T: Js>(v: T) -> JsValue {
    v.js()
}

/// Options of a small valid search, as JSON fields and set natively.
fn gen_setup(s: &mut Source) -> Setup {
    // operators by registry name
    let mut tokens: [Vec<String>; 3] = Default::default();
    let table = builtin_table();
    let per = [22usize, 3, 8];
    for (a, n, _) in &table {
        let i = *a as usize - 1;
        if s.chance(if i == 1 { 2 } else { 1 }, per[i] as u32 + 2) {
            tokens[i].push(n.to_string());
        }
    }
    if tokens.iter().all(|t| t.is_empty()) {
        tokens[1].push("add".into());
        tokens[1].push("mul".into());
    }
    let refs: Vec<Vec<&str>> = tokens.iter().map(|t| t.iter().map(|x| x.as_str()).collect()).collect();
    let operators = Operators::<3>::from_names_by_arity::<B64>(&refs[0], &refs[1], &refs[2]).expect("known operators");
    let mut f: Vec<(&'static str, JsValue)> = vec![];
    let mut o = Options::<f64, 3> { operators, progress: false, ..Default::default() };
    // always small
    o.niterations = s.range(0, 3);
    o.populations = s.range(1, 3);
    o.population_size = s.range(2, 8);
    o.ncycles_per_iteration = s.range(1, 5);
    f.push(("niterations", js(o.niterations)));
    f.push(("populations", js(o.populations)));
    f.push(("population_size", js(o.population_size)));
    f.push(("ncycles_per_iteration", js(o.ncycles_per_iteration)));
    let seed = if s.bool() { s.below(1000) as u64 } else { s.u64() >> 11 };
    o.seed = seed;
    if seed != 0 || s.bool() {
        f.push(("seed", JsValue::Number(seed as f64)));
    }
    fill!(s, o, f;
        batch_size = s.range(1, 30),
        complexity_of_constants = s.range(1, 3) as u16,
        complexity_of_variables = s.range(1, 3) as u16,
        maxsize = s.range(5, 25),
        maxdepth = s.range(3, 10),
        warmup_maxsize_by = *s.pick(&[0.0f32, 0.25, 0.5, 1.0]),
        parsimony = *s.pick(&[0.0, 0.01, 0.5]),
        adaptive_parsimony_scaling = *s.pick(&[20.0, 0.0, 100.0]),
        crossover_probability = *s.pick(&[0.0, 0.3, 1.0]),
        perturbation_factor = *s.pick(&[0.0, 0.5]),
        probability_negate_constant = *s.pick(&[0.0, 0.5, 1.0]),
        tournament_selection_n = s.range(1, 10),
        tournament_selection_p = *s.pick(&[1.0f32, 0.5, 0.75]),
        alpha = *s.pick(&[0.1, 1.0]),
        optimizer_nrestarts = s.range(0, 2),
        optimizer_probability = *s.pick(&[0.0, 1.0]),
        optimizer_iterations = s.range(1, 5),
        optimizer_f_calls_limit = *s.pick(&[10usize, 1000]),
        fraction_replaced = *s.pick(&[0.0, 0.3]),
        fraction_replaced_hof = *s.pick(&[0.0, 0.3]),
        fraction_replaced_guesses = *s.pick(&[0.0, 0.3]),
        topn = s.range(0, 5),
        use_frequency = s.bool(),
        use_frequency_in_tournament = s.bool(),
        skip_mutation_failures = s.bool(),
        annealing = s.bool(),
        should_optimize_constants = s.bool(),
        migration = s.bool(),
        hof_migration = s.bool(),
        use_baseline = s.bool(),
        should_simplify = s.bool(),
        batching = s.bool(),
    );
    if s.chance(1, 4) {
        // display is never used in the browser
        f.push(("progress", JsValue::Bool(s.bool())));
    }
    if s.chance(1, 3) {
        let mut w = vec![];
        macro_rules! weights { ($($n:ident),*) => {$( if s.bool() { let v = s.uniform(0.0, 2.0); o.mutation_weights.$n = v; w.push((stringify!($n), js(v))); } )*} }
        weights!(mutate_constant, mutate_operator, mutate_feature, swap_operands, rotate_tree, add_node, insert_node, delete_node, simplify, randomize, do_nothing, optimize);
        f.push(("mutation_weights", obj(w)));
    }
    // loss
    let kind = match s.below(9) {
        0 => None,
        1 => Some((LossKind::Mse, "mse")),
        2 => Some((LossKind::Mae, "mae")),
        3 => Some((LossKind::Rmse, "rmse")),
        4 => {
            let d = if s.bool() { *s.pick(&[1e-6, 0.01, 0.1, 3.0, 50.0, 1e6]) } else { s.uniform(0.1, 3.0) };
            if s.bool() {
                f.push(("huber_delta", opt_f64(d)));
                Some((LossKind::Huber { delta: d }, "huber"))
            } else {
                Some((LossKind::Huber { delta: 1.0 }, "huber"))
            }
        }
        5 => Some((LossKind::LogCosh, "logcosh")),
        6 => {
            if s.bool() {
                let p = if s.bool() { *s.pick(&[1.0, 0.5, 1.5, 3.0, 8.0]) } else { s.uniform(0.3, 5.0) };
                f.push(("lp_p", opt_f64(p)));
                Some((LossKind::Lp { p }, "lp"))
            } else {
                Some((LossKind::Lp { p: 2.0 }, "lp"))
            }
        }
        7 => {
            if s.bool() {
                let tau = if s.bool() { *s.pick(&[0.001, 0.01, 0.03, 0.97, 0.99, 0.999]) } else { s.uniform(0.0, 1.0) };
                f.push(("quantile_tau", opt_f64(tau)));
                Some((LossKind::Quantile { tau }, "quantile"))
            } else {
                Some((LossKind::Quantile { tau: 0.5 }, "quantile"))
            }
        }
        _ => {
            let name = *s.pick(&["epsilon-insensitive", "epsilon_insensitive", "eps-insensitive", "eps_insensitive"]);
            if s.bool() {
                let eps = if s.bool() { *s.pick(&[0.0, 1e-9, 1e-3, 2.0, 100.0]) } else { s.uniform(0.0, 1.0) };
                f.push(("epsilon_insensitive_eps", opt_f64(eps)));
                Some((LossKind::EpsilonInsensitive { eps }, name))
            } else {
                Some((LossKind::EpsilonInsensitive { eps: 0.1 }, name))
            }
        }
    };
    // parameters of other losses are ignored
    if s.chance(1, 6) && !f.iter().any(|x| x.0 == "lp_p") && !matches!(kind, Some((LossKind::Lp { .. }, _))) {
        f.push(("lp_p", opt_f64(3.0)));
    }
    let kind = match kind {
        None => LossKind::Mse,
        Some((k, n)) => {
            let n = match s.below(4) {
                0 => n.to_ascii_uppercase(),
                1 => format!(" {n} "),
                _ => n.to_string(),
            };
            f.push(("loss_kind", JsValue::Text(n)));
            k
        }
    };
    o.loss = make_loss::<f64>(kind.clone());
    let txt = format!("{tokens:?} {kind:?} {f:?}");
    Setup { fields: f, tokens, opts: o, txt }
}

fn sel_fields(sel: &Sel, f: &mut Vec<(&'static str, JsValue)>, s: &mut Source) {
    if !sel.headers || s.bool() {
        f.push(("has_headers", JsValue::Bool(sel.headers)));
    }
    match &sel.explicit_x {
        Some(x) => f.push(("x_columns", nums(x.iter().copied()))),
        None => match s.below(4) {
            0 => f.push(("x_columns", JsValue::Null)),
            1 => f.push(("x_columns", JsValue::Undefined)),
            _ => {}
        },
    }
    if sel.explicit_y {
        f.push(("y_column", js(sel.y)));
    } else if s.chance(1, 4) {
        f.push(("y_column", JsValue::Null));
    }
    match sel.w {
        Some(w) => f.push(("weights_column", js(w))),
        None if s.chance(1, 4) => f.push(("weights_column", JsValue::Undefined)),
        None => {}
    }
}

fn new_session(csv: &str, fields: &[(&'static str, JsValue)], tokens: &[Vec<String>; 3]) -> Result<WasmSearch, String> {
    let r = guarded(|| WasmSearch::new(csv.to_string(), obj(fields.to_vec()), texts(&tokens[0]), texts(&tokens[1]), texts(&tokens[2])));
    match r {
        Err(p) => Err(format!("PANIC {p}")),
        Ok(Err(e)) => Err(e.as_string().unwrap_or_else(|| format!("{e:?}"))),
        Ok(Ok(w)) => Ok(w),
    }
}

/// The rows of a table as the dataset it should become.
fn dataset(t: &Table, sel: &Sel, rows: &[usize]) -> Dataset<f64> {
    let v = |i: usize, c: usize| t.cells[i][c].1;
    let x = Array2::from_shape_fn((sel.x.len(), rows.len()), |(j, i)| v(rows[i], sel.x[j]));
    let y = Array1::from_shape_fn(rows.len(), |i| v(rows[i], sel.y));
    let w = sel.w.map(|c| Array1::from_shape_fn(rows.len(), |i| v(rows[i], c)));
    let names = sel.x.iter().enumerate().map(|(k, &c)| if sel.headers { t.names[c].trim().to_string() } else { format!("x{k}") }).collect();
    Dataset::with_weights_and_names(x, y, w, names)
}

// ---------------------------------------------------------------- comparison

fn text_of(m: &Member, names: &[String]) -> String {
    string_tree::<f64, B64, 3>(&m.expr, StringTreeOptions { variable_names: Some(names), pretty: false })
}

fn js_err<T>(what: &str, r: Result<T, JsValue>) -> Result<T, String> {
    r.map_err(|e| format!("{what}: {e:?}"))
}

/// Everything a session reports, against the native engine at the same point.
fn compare(w: &WasmSearch, snap: Option<SearchSnapshot>, e: &Engine, pareto_k: usize, names: &[String]) -> PropResult {
    let same = |what: &str, id: &str, cx: usize, loss: f64, cost: f64, m: &Member| -> PropResult {
        ensure!(
            id == m.id.0.to_string() && cx == m.complexity && loss.same(m.loss) && cost.same(m.cost),
            "{what}: id {id} complexity {cx} loss {loss} cost {cost}; the engine has id {:?} complexity {} loss {} cost {} ({})",
            m.id,
            m.complexity,
            m.loss,
            m.cost,
            text_of(m, names)
        );
        Ok(())
    };
    let mut front = e.hall_of_fame().pareto_front();
    front.sort_by_key(|m| m.complexity);
    if let Some(sn) = snap {
        ensure!(sn.total_cycles == e.total_cycles() && sn.cycles_completed == e.cycles_completed() && sn.total_evals == e.total_evals(), "counters {}/{} evals {}; the engine has {}/{} evals {}", sn.cycles_completed, sn.total_cycles, sn.total_evals, e.cycles_completed(), e.total_cycles(), e.total_evals());
        same("best", &sn.best.id, sn.best.complexity, sn.best.loss, sn.best.cost, e.best())?;
        ensure!(sn.best.equation == text_of(e.best(), names), "best equation {:?}, the engine's is {:?}", sn.best.equation, text_of(e.best(), names));
        let want = &front[front.len().saturating_sub(pareto_k)..];
        ensure!(sn.pareto_points.len() == want.len(), "{} Pareto points, expected {}", sn.pareto_points.len(), want.len());
        for (p, m) in sn.pareto_points.iter().zip(want) {
            same("Pareto point", &p.id, p.complexity, p.loss, p.cost, m)?;
        }
    }
    ensure!(w.is_finished() == e.is_finished(), "finished: {} / {}", w.is_finished(), e.is_finished());
    for k in [0, 1, 2, front.len(), front.len() + 1, 1000] {
        let got: Vec<EquationSummary> = from_value(js_err("best_equations", w.best_equations(k))?).map_err(|e| e.to_string())?;
        let want = &front[front.len().saturating_sub(k)..];
        ensure!(got.len() == want.len(), "best_equations({k}) has {} entries, expected {}", got.len(), want.len());
        for (g, m) in got.iter().zip(want) {
            same("best_equations", &g.id, g.complexity, g.loss, g.cost, m)?;
            ensure!(g.equation == text_of(m, names), "equation {:?}, the engine's is {:?}", g.equation, text_of(m, names));
        }
    }
    Ok(())
}

/// Reads a printed equation and evaluates it on rows of a dataset.
struct Eq {
    tree: tree::Tree,
    consts: Vec<f64>,
}
fn read_equation(text: &str, names: &[String]) -> Result<Eq, String> {
    let mut infix = vec![];
    let mut funcs = vec![];
    for (a, _, id) in builtin_table() {
        let op = OpId { arity: a, id };
        match <B64 as OperatorSet>::infix(op) {
            Some(t) if a > 1 => infix.push(t.to_string()),
            Some(t) => funcs.push(t.to_string()),
            None => funcs.push(<B64 as OperatorSet>::name(op).to_string()),
        }
    }
    let mut p = P::new(text, infix, funcs);
    let got = p.bare().map_err(|m| format!("{text:?} does not parse: {m}"))?;
    ensure!(p.pos == text.len(), "{text:?} has trailing text {:?}", p.rest());
    let mut consts = vec![];
    let tree = build(&got, names, &mut consts).map_err(|m| format!("{text:?}: {m}"))?;
    Ok(Eq { tree, consts })
}
fn build(p: &Pt, names: &[String], consts: &mut Vec<f64>) -> Result<tree::Tree, String> {
    match p {
        Pt::Leaf(l) => {
            if let Some(f) = names.iter().position(|n| n == l) {
                return Ok(tree::Tree::Var(f as u16));
            }
            let v: f64 = l.parse().map_err(|_| format!("{l:?} is neither a variable nor a number"))?;
            consts.push(v);
            Ok(tree::Tree::Const(consts.len() as u16 - 1))
        }
        Pt::Op(t, ch) => {
            let id = builtin_table()
                .into_iter()
                .find(|(a, _, id)| {
                    let op = OpId { arity: *a, id: *id };
                    *a as usize == ch.len() && <B64 as OperatorSet>::infix(op).unwrap_or(<B64 as OperatorSet>::name(op)) == t
                })
                .ok_or_else(|| format!("no operator {t:?} of {} arguments", ch.len()))?;
            let mut out = vec![];
            for c in ch {
                out.push(build(c, names, consts)?);
            }
            Ok(tree::Tree::Op(id.0, id.2, out))
        }
    }
}

fn predictions(eq: &Eq, d: &Dataset<f64>) -> (Vec<f64>, bool) {
    tree::reval_all::<B64>(&eq.tree, &d.x, &eq.consts)
}

/// Compensated-free but wide: sums in pairs, relative error about n eps.
fn near(a: f64, b: f64, scale: f64) -> bool {
    a.same(b) || (a - b).abs() <= scale || (!a.is_finite() && !b.is_finite())
}

/// The reported statistics against their definitions.
fn check_metrics(r: &WasmEvalResult, d: &Dataset<f64>) -> PropResult {
    let y: Vec<f64> = d.y.iter().copied().collect();
    let n = y.len();
    let m = &r.metrics;
    ensure!(r.yhat.len() == n && m.n == n, "{} predictions, n = {}, for {n} rows", r.yhat.len(), m.n);
    let w: Vec<f64> = match &d.weights {
        Some(w) => w.iter().copied().collect(),
        None => vec![1.0; n],
    };
    let sw: f64 = w.iter().sum();
    if w.iter().any(|v| !(*v >= 0.0)) || n == 0 {
        return Ok(());
    }
    let e = 1e-12 * (1.0 + n as f64 / 100.0);
    let ab: Vec<f64> = r.yhat.iter().zip(&y).map(|(a, b)| (a - b).abs()).collect();
    let big = ab.iter().copied().fold(0.0, f64::max).max(r.yhat.iter().map(|v| v.abs()).fold(0.0, f64::max)).max(y.iter().map(|v| v.abs()).fold(0.0, f64::max));
    if big > 1e140 {
        return Ok(()); // squares overflow
    }
    let (lo, hi) = (ab.iter().copied().fold(f64::INFINITY, f64::min), ab.iter().copied().fold(0.0, f64::max));
    ensure!(m.min_abs_err == lo && m.max_abs_err == hi, "absolute errors {}..{} should be {lo}..{hi}", m.min_abs_err, m.max_abs_err);
    if sw == 0.0 {
        return Ok(()); // no row weighs anything: the means are anyone's guess
    }
    let mse = ab.iter().zip(&w).map(|(a, w)| w * a * a).sum::<f64>() / sw;
    let mae = ab.iter().zip(&w).map(|(a, w)| w * a).sum::<f64>() / sw;
    ensure!(near(m.mse, mse, e * mse + 1e-300), "mse {} should be {mse}", m.mse);
    ensure!(near(m.mae, mae, e * mae + 1e-300), "mae {} should be {mae}", m.mae);
    ensure!(near(m.rmse, mse.sqrt(), e * mse.sqrt() + 1e-150), "rmse {} should be {}", m.rmse, mse.sqrt());
    // coefficient of determination: error of the mean enters sst quadratically
    let my = y.iter().zip(&w).map(|(y, w)| y * w).sum::<f64>() / sw;
    let sst = y.iter().zip(&w).map(|(y, w)| w * (y - my) * (y - my)).sum::<f64>();
    let amax = y.iter().map(|v| v.abs()).fold(0.0, f64::max);
    let ad = e * amax;
    let sst_err = e * sst + 2.0 * ad * y.iter().zip(&w).map(|(y, w)| w * (y - my).abs()).sum::<f64>() + sw * ad * ad;
    let constant = |v: &[f64]| v.iter().all(|a| *a == v[0]);
    let sse = mse * sw;
    if constant(&y) {
        // the mean of equal values may round: either no variance, or a rounding residue of it
        ensure!(m.r2 == 0.0 || sst > 0.0 || n > 1, "r2 of a constant target is {}", m.r2);
    } else if sst > 1e3 * sst_err {
        let r2 = 1.0 - sse / sst;
        let tol = (sse / sst) * (2.0 * e + 2.0 * sst_err / sst) + 1e-14;
        ensure!(m.r2 == r2 || !tol.is_finite() || (m.r2 - r2).abs() <= tol, "r2 {} should be {r2} (tolerance {tol})", m.r2);
    }
    // Pearson correlation of predictions and targets, without weights
    let mean = |v: &[f64]| v.iter().sum::<f64>() / n as f64;
    let (a, b) = (mean(&r.yhat), mean(&y));
    let (mut cov, mut va, mut vb) = (0.0, 0.0, 0.0);
    for (p, t) in r.yhat.iter().zip(&y) {
        cov += (p - a) * (t - b);
        va += (p - a) * (p - a);
        vb += (t - b) * (t - b);
    }
    let pmax = r.yhat.iter().map(|v| v.abs()).fold(0.0, f64::max);
    let (ra, rb) = (va.sqrt(), vb.sqrt());
    let nn = n as f64;
    let rel = e * nn.sqrt() * (pmax / ra + amax / rb);
    if constant(&r.yhat) || constant(&y) {
        ensure!(m.corr.is_finite() && m.corr.abs() <= 1.0 + 1e-6, "correlation with a constant is {}", m.corr);
        if n == 1 {
            ensure!(m.corr == 0.0, "correlation of one row is {}", m.corr);
        }
    } else if rel < 1e-3 && ra > 1e-140 && rb > 1e-140 {
        let corr = cov / (ra * rb);
        ensure!((m.corr - corr).abs() <= 4.0 * rel + 1e-12, "correlation {} should be {corr}", m.corr);
    }
    Ok(())
}

fn eval(w: &WasmSearch, id: &str, which: &str) -> Result<Result<WasmEvalResult, String>, String> {
    match guarded(|| w.evaluate_member(id.to_string(), which.to_string())) {
        Err(p) => Err(format!("evaluate_member({id:?}, {which:?}) panicked: {p}")),
        Ok(Err(e)) => Ok(Err(format!("{e:?}"))),
        Ok(Ok(v)) => Ok(Ok(from_value(v).map_err(|e| format!("evaluation result: {e}"))?)),
    }
}

/// All members a session names can be evaluated, to the predictions of their printed equation.
fn check_members(w: &WasmSearch, snap: &SearchSnapshot, train: &Dataset<f64>, val: Option<&Dataset<f64>>, names: &[String], c: &mut Case) -> PropResult {
    let all: Vec<EquationSummary> = from_value(js_err("best_equations", w.best_equations(1000))?).map_err(|e| e.to_string())?;
    let eq_of = |id: &str| all.iter().find(|q| q.id == id).map(|q| q.equation.clone()).unwrap_or_else(|| snap.best.equation.clone());
    let mut ids: Vec<String> = snap.pareto_points.iter().map(|p| p.id.clone()).chain(all.iter().map(|q| q.id.clone())).chain([snap.best.id.clone()]).collect();
    ids.sort();
    ids.dedup();
    for id in &ids {
        let txt = eq_of(id);
        let eq = read_equation(&txt, names)?;
        for (which, d) in [("train", Some(train)), ("val", val)] {
            let got = eval(w, id, which)?;
            let Some(d) = d else {
                ensure!(got.is_err(), "there is no validation set, but evaluating on it gave a result");
                continue;
            };
            let (want, fin) = predictions(&eq, d);
            match got {
                Ok(r) => {
                    ensure!(fin, "{txt} has no finite value on some row, but was evaluated");
                    for (i, (a, b)) in r.yhat.iter().zip(&want).enumerate() {
                        ensure!(a.same(*b), "{which} row {i}: predicted {a}, but {txt} is {b} there");
                    }
                    check_metrics(&r, d).map_err(|m| format!("{which} metrics of {txt}: {m}"))?;
                    c.class_if(which == "val", "validation metrics");
                    c.class_if(d.weights.is_some(), "weighted metrics");
                }
                Err(e) => ensure!(!fin, "evaluating {txt} on {which} failed ({e}) though every value is finite"),
            }
        }
    }
    Ok(())
}

fn split_of(w: &WasmSearch) -> Result<WasmSplitIndices, String> {
    from_value(js_err("get_split_indices", w.get_split_indices())?).map_err(|e| e.to_string())
}

/// The rows a session says it uses exist (whether they are the right ones is W02's question).
fn in_range(sp: &WasmSplitIndices, n: usize) -> PropResult {
    ensure!(sp.train.iter().chain(&sp.val).all(|i| *i < n), "rows out of range: {sp:?} of {n}");
    Ok(())
}

/// Disjoint, covering, right sizes.
fn check_split(sp: &WasmSplitIndices, n: usize, vf: f64) -> PropResult {
    let mut seen = vec![false; n];
    for &i in sp.train.iter().chain(&sp.val) {
        ensure!(i < n && !seen[i], "row {i} of {n} appears twice or does not exist: {sp:?}");
        seen[i] = true;
    }
    ensure!(seen.iter().all(|b| *b), "rows missing from the split {sp:?} of {n}");
    ensure!(!sp.train.is_empty(), "no training rows: {sp:?}");
    let f = if vf.is_nan() { 0.0 } else { vf.clamp(0.0, 0.9) };
    let exact = f * n as f64;
    let k = sp.val.len();
    let ok = (k as f64 - exact).abs() <= 0.5 + 1e-9 || (k == n - 1 && exact > k as f64);
    ensure!(ok, "{k} of {n} rows held out for the fraction {vf}");
    Ok(())
}

fn gen_vf(s: &mut Source) -> f64 {
    match s.below(6) {
        0 | 1 => 0.0,
        2 | 3 => s.uniform(0.0, 0.9),
        4 => *s.pick(&[0.1, 0.25, 0.5, 0.9, 0.2]),
        _ => *s.pick(&[1.0, -0.5, 5.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
    }
}

// ---------------------------------------------------------------- W01

fn run_pair(w: &mut WasmSearch, t: &Table, sel: &Sel, opts: &Options<f64, 3>, steps: usize) -> PropResult {
    let sp = split_of(w)?;
    in_range(&sp, t.rows())?;
    ensure!(sp.train.len() + sp.val.len() == t.rows(), "{} rows in the session, {} in the table", sp.train.len() + sp.val.len(), t.rows());
    let train = dataset(t, sel, &sp.train);
    let names = train.variable_names.clone();
    let mut e = Engine::new(train, opts.clone());
    compare(w, None, &e, 250, &names)?;
    for _ in 0..steps {
        let snap: SearchSnapshot = from_value(js_err("step", w.step(1))?).map_err(|e| e.to_string())?;
        e.step(1);
        compare(w, Some(snap), &e, 250, &names)?;
    }
    Ok(())
}

fn w01_tables(s: &mut Source, c: &mut Case) -> PropResult {
    let t = gen_table(s, 2, false);
    let mut sel = gen_sel(s, t.cols());
    let st = gen_style(s);
    // names cannot be written down plainly when the line end is a lone CR: keep the quoted ones
    let su = gen_setup(s);
    let mut f = su.fields.clone();
    sel_fields(&sel, &mut f, s);
    let vf = if s.chance(1, 4) { s.uniform(0.0, 0.8) } else { 0.0 };
    f.push(("validation_fraction", JsValue::Number(vf)));
    let mut t = t;
    if sel.w.is_some() {
        // weights are positive
        let wc = sel.w.unwrap();
        for r in &mut t.cells {
            let v = r[wc].1.abs().max(0.01);
            r[wc] = (format!("{v}"), v);
        }
    }
    if t.names.iter().all(|n| n.trim().is_empty()) {
        sel.headers = sel.headers && t.cols() > 1;
    }
    let csv = write_csv(s, &t, sel.headers, &st);
    c.key(&csv);
    c.describe(|| format!("{csv:?} selection {sel:?} validation {vf} {}", su.txt));
    c.nontrivial_if(t.rows() > 1);
    c.class_if(st.quote > 0, "quoted");
    c.class_if(st.pad > 0, "padded");
    c.class_if(st.blank > 0, "blank lines");
    c.class_if(!sel.headers, "no header line");
    c.class_if(sel.w.is_some(), "weights column");
    c.class_if(sel.explicit_x.is_some(), "explicit inputs");
    let mut w = new_session(&csv, &f, &su.tokens).map_err(|e| format!("rejected: {e}"))?;
    run_pair(&mut w, &t, &sel, &su.opts, 2)
}

/// Plain lines: an independent reading decides between a dataset and an error.
fn w01_lines(s: &mut Source, c: &mut Case) -> PropResult {
    let ncol = s.range(1, 4);
    let nline = s.range(0, 6);
    let headers = s.bool();
    let eol = *s.pick(&["\n", "\r\n"]);
    let bad_rate = *s.pick(&[0, 0, 1, 3]);
    let mut csv = String::new();
    let toks = ["abc", "", "1 2", "0x1f", "1e", "--1", "1_000", "NA", ".", "1.2.3", "½", "1f", "e5", "٣", "#1", "# note", "// 1", "'1'", "%1", ";1", "1;2", "\\N"];
    let lenient = ["nan", "NaN", "inf", "-inf", "infinity"];
    for l in 0..nline {
        if s.chance(1, 8) {
            csv.push_str(eol);
        }
        let k = if bad_rate > 0 && s.chance(bad_rate, 12) { s.range(1, ncol + 1) } else { ncol };
        let mut fs = vec![];
        for _ in 0..k {
            let mut x = if bad_rate > 0 && s.chance(bad_rate, 20) { s.pick(&toks).to_string() } else if s.chance(1, 60) { s.pick(&lenient).to_string() } else { numeral(s).0 };
            if s.chance(1, 6) {
                x = format!(" {x}\t");
            }
            fs.push(x);
        }
        csv.push_str(&fs.join(","));
        if l + 1 < nline || s.chance(2, 3) {
            csv.push_str(eol);
        }
    }
    // the reading
    let mut lines: Vec<Vec<String>> = csv.split(eol).filter(|l| !l.is_empty()).map(|l| l.split(',').map(|x| x.trim().to_string()).collect()).collect();
    let head = if headers && !lines.is_empty() { Some(lines.remove(0)) } else { None };
    let nc = head.as_ref().map(|h| h.len()).or(lines.first().map(|l| l.len())).unwrap_or(0);
    let mut why = None;
    let mut cells = vec![];
    for l in &lines {
        if l.len() != nc {
            why = Some("a line of another length");
        }
        let mut row = vec![];
        for x in l {
            match x.parse::<f64>() {
                Ok(v) => row.push((x.clone(), v)),
                Err(_) => why = Some("a field that is not a number"),
            }
        }
        cells.push(row);
    }
    if lines.is_empty() {
        why = Some("no rows");
    }
    if nc < 2 {
        why = Some("fewer than two columns");
    }
    // selection, valid or not
    let hi = nc.max(2) + 1;
    let mut f = vec![];
    let valid = s.chance(2, 3);
    let sel = if valid && nc >= 2 {
        let mut sel = gen_sel(s, nc);
        sel.headers = headers;
        sel_fields(&sel, &mut f, s);
        Some(sel)
    } else {
        f.push(("has_headers", JsValue::Bool(headers)));
        let y = s.bool().then(|| s.below(hi + 1));
        let w = s.bool().then(|| s.below(hi + 1));
        let x: Option<Vec<usize>> = s.bool().then(|| {
            let k = s.range(0, 3);
            (0..k).map(|_| s.below(hi + 1)).collect()
        });
        if let Some(y) = y {
            f.push(("y_column", js(y)));
        }
        if let Some(w) = w {
            f.push(("weights_column", js(w)));
        }
        if let Some(x) = &x {
            f.push(("x_columns", nums(x.iter().copied())));
        }
        let yc = y.unwrap_or(nc.wrapping_sub(1));
        let mut xs = x.clone().unwrap_or_else(|| (0..nc).filter(|i| *i != yc && Some(*i) != w).collect());
        xs.sort();
        xs.dedup();
        if yc >= nc || w.is_some_and(|w| w >= nc || w == yc) || xs.is_empty() || xs.iter().any(|i| *i >= nc || *i == yc || Some(*i) == w) {
            why = why.or(Some("an impossible selection"));
        }
        Some(Sel { headers, x: xs, y: yc, w, explicit_x: x, explicit_y: y.is_some() })
    };
    if !f.iter().any(|x| x.0 == "has_headers") {
        f.push(("has_headers", JsValue::Bool(headers)));
    }
    for (k, v) in [("niterations", 1), ("populations", 1), ("population_size", 4), ("ncycles_per_iteration", 1)] {
        f.push((k, js(v as usize)));
    }
    f.push(("seed", js(3usize)));
    let toks = [vec![], vec!["add".to_string(), "mul".to_string()], vec![]];
    c.key(&(csv.clone(), format!("{f:?}")));
    c.describe(|| format!("{csv:?} {f:?}"));
    c.nontrivial_if(lines.len() > 1);
    let got = new_session(&csv, &f, &toks);
    match (why, got) {
        (_, Err(e)) if e.starts_with("PANIC") => Err(e),
        (Some(w), Ok(_)) => Err(format!("accepted although there is {w}")),
        (None, Err(e)) => Err(format!("rejected: {e}")),
        (Some(_), Err(e)) => {
            c.class("error");
            ensure!(!e.is_empty(), "an empty error message");
            Ok(())
        }
        (None, Ok(mut w)) => {
            c.class("accepted");
            let t = Table { names: head.unwrap_or_else(|| vec![String::new(); nc]), cells };
            let operators = Operators::<3>::from_names_by_arity::<B64>(&[], &["add", "mul"], &[]).unwrap();
            let o = Options::<f64, 3> { operators, progress: false, niterations: 1, populations: 1, population_size: 4, ncycles_per_iteration: 1, seed: 3, ..Default::default() };
            match guarded(|| run_pair(&mut w, &t, &sel.unwrap(), &o, 1)) {
                Ok(r) => r,
                Err(p) => Err(format!("PANIC {p}")),
            }
        }
    }
}

/// Arbitrary text never brings the session down.
fn w01_garbage(s: &mut Source, c: &mut Case) -> PropResult {
    let n = s.range(0, 60);
    let al = ["1", "2", ",", ",", "\n", "\n", "\"", "\"\"", " ", "\r", "-", ".", "e", "x", "\t", "é", "\u{feff}", "\0", "3,4\n", "1,2\n", "nan", ";", "1e400", "-0", "inf"];
    let csv: String = (0..n).map(|_| *s.pick(&al)).collect();
    let mut f = vec![("has_headers", JsValue::Bool(s.bool())), ("niterations", js(1usize)), ("populations", js(1usize)), ("population_size", js(3usize)), ("ncycles_per_iteration", js(1usize))];
    f.push(("validation_fraction", js(*s.pick(&[0.0, 0.5, 0.9]))));
    if s.bool() {
        f.push(("weights_column", js(s.below(3))));
    }
    c.key(&csv);
    c.describe(|| format!("{csv:?}"));
    c.nontrivial_if(csv.matches('\n').count() > 1);
    let toks = [vec![], vec!["add".to_string(), "div".to_string()], vec![]];
    match new_session(&csv, &f, &toks) {
        Err(e) => {
            ensure!(!e.starts_with("PANIC"), "{e}");
        }
        Ok(mut w) => {
            c.class("accepted");
            guarded(|| w.step(1)).map_err(|p| format!("step panicked: {p}"))?.map_err(|e| format!("{e:?}"))?;
        }
    }
    Ok(())
}

fn w01_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, w01_tables)
}

pub fn w01() -> Property {
    Property {
        id: "W01",
        rule: "a table of at least two rows (lines: two data lines; garbage: three lines)",
        assumptions: &[
            "JavaScript values are represented by native stand-ins with serde-wasm-bindgen's conversions",
            "numerals are those Rust's f64 parser accepts (including nan and inf)",
            "that the right numbers were used is decided by running the session next to a native engine on the expected dataset: reports agree bit for bit",
        ],
        subs: vec![
            Sub { name: "tables", quick: 60_000, thorough: 1_200_000, tape: 900, shards: 0, f: w01_tables }, Sub { name: "large", quick: 1500, thorough: 30000, tape: 60, shards: 0, f: w01_large },
            Sub { name: "lines", quick: 200_000, thorough: 4_000_000, tape: 250, shards: 0, f: w01_lines },
            Sub { name: "garbage", quick: 200_000, thorough: 4_000_000, tape: 80, shards: 0, f: w01_garbage },
        ],
    }
}

// ---------------------------------------------------------------- W02

fn tiny() -> Vec<(&'static str, JsValue)> {
    vec![("niterations", js(1usize)), ("populations", js(1usize)), ("population_size", js(3usize)), ("ncycles_per_iteration", js(1usize)), ("has_headers", JsValue::Bool(false))]
}

fn w02_split(s: &mut Source, c: &mut Case) -> PropResult {
    let n = if s.bool() { s.range(1, 12) } else { s.range(1, vcommon::up(120, 20_000)) };
    let vf = gen_vf(s);
    let seed = s.u64() >> 11;
    let weights = s.bool();
    // every row carries its own number in every column
    let csv: String = (0..n).map(|i| if weights { format!("{},{},{}\n", 7 * i + 1, 1000 + i, 2 * i + 1) } else { format!("{},{}\n", 7 * i + 1, 1000 + i) }).collect();
    let mut f = tiny();
    f.push(("validation_fraction", js(vf)));
    f.push(("seed", js(seed as f64)));
    f.push(("y_column", js(1usize)));
    if weights {
        f.push(("weights_column", js(2usize)));
    }
    c.key(&(n, vf.to_bits(), seed));
    c.describe(|| format!("{n} rows, fraction {vf}, seed {seed}"));
    c.nontrivial_if(n > 1 && vf > 0.0);
    let toks = [vec![], vec!["add".to_string()], vec![]];
    let mut w = new_session(&csv, &f, &toks)?;
    let sp = split_of(&w)?;
    check_split(&sp, n, vf)?;
    c.class_if(!sp.val.is_empty(), "rows held out");
    // again, with the fields in another order and other search settings
    f.reverse();
    f.push(("maxsize", js(7usize)));
    f.push(("population_size", js(4usize)));
    let f2: Vec<_> = f.iter().filter(|x| !(x.0 == "population_size" && x.1 == js(3usize))).cloned().collect();
    let w2 = new_session(&csv, &f2, &[vec!["sin".to_string()], vec!["mul".to_string()], vec![]])?;
    let sp2 = split_of(&w2)?;
    ensure!(sp.train == sp2.train && sp.val == sp2.val, "the same seed gave {sp:?} and {sp2:?}");
    // the session holds exactly those rows
    let t = Table {
        names: vec!["a".into(); if weights { 3 } else { 2 }],
        cells: (0..n).map(|i| [7 * i + 1, 1000 + i, 2 * i + 1].iter().take(if weights { 3 } else { 2 }).map(|v| (v.to_string(), *v as f64)).collect()).collect(),
    };
    let sel = Sel { headers: false, x: vec![0], y: 1, w: weights.then_some(2), explicit_x: None, explicit_y: true };
    let (train, val) = (dataset(&t, &sel, &sp.train), dataset(&t, &sel, &sp.val));
    let snap: SearchSnapshot = from_value(js_err("step", w.step(1))?).map_err(|e| e.to_string())?;
    let names = vec!["x0".to_string()];
    let operators = Operators::<3>::from_names_by_arity::<B64>(&[], &["add"], &[]).unwrap();
    let o = Options::<f64, 3> { operators, progress: false, niterations: 1, populations: 1, population_size: 3, ncycles_per_iteration: 1, seed, ..Default::default() };
    let mut e = Engine::new(train.clone(), o);
    e.step(1);
    compare(&w, Some(snap), &e, 250, &names)?;
    check_yhat(&w, &e, &train, (!sp.val.is_empty()).then_some(&val), c)
}

/// The predictions on both parts are those of the engine's members on the rows of that part.
fn check_yhat(w: &WasmSearch, e: &Engine, train: &Dataset<f64>, val: Option<&Dataset<f64>>, c: &mut Case) -> PropResult {
    for m in e.hall_of_fame().members().chain([e.best()]) {
        let tr = tree::parse(&m.expr.nodes).ok_or("ill-formed member")?;
        for (which, d) in [("train", Some(train)), ("val", val)] {
            let got = eval(w, &m.id.0.to_string(), which)?;
            let Some(d) = d else {
                ensure!(got.is_err(), "no rows are held out, but evaluating on them gave a result");
                continue;
            };
            let (want, fin) = tree::reval_all::<B64>(&tr, &d.x, &m.expr.consts);
            match got {
                Ok(r) => ensure!(fin && r.metrics.n == want.len() && r.yhat.len() == want.len() && r.yhat.iter().zip(&want).all(|(a, b)| a.same(*b)), "predictions on {which} {:?}, on the rows of the split they are {want:?}", r.yhat),
                Err(er) => ensure!(!fin, "evaluating on {which} failed: {er}"),
            }
            c.class_if(which == "val", "validation rows evaluated");
        }
    }
    Ok(())
}

/// Over seeds, each row is held out equally often.
fn w02_fair(s: &mut Source, c: &mut Case) -> PropResult {
    let n = s.range(2, 12);
    let vf = s.uniform(0.15, 0.85);
    let k = (vf * n as f64).round().min(n as f64 - 1.0) as usize;
    let csv: String = (0..n).map(|i| format!("{i},{i}\n")).collect();
    let first = s.u64() >> 12;
    let reps = 400u64;
    let mut count = vec![0u64; n];
    let toks = [vec![], vec!["add".to_string()], vec![]];
    for r in 0..reps {
        let mut f = tiny();
        f.push(("validation_fraction", js(vf)));
        f.push(("seed", js((first + r) as f64)));
        let w = new_session(&csv, &f, &toks)?;
        for i in split_of(&w)?.val {
            count[i] += 1;
        }
    }
    c.key(&(n, k, first));
    c.nontrivial_if(k > 0);
    c.describe(|| format!("{n} rows, {k} held out, seeds from {first}"));
    let p = k as f64 / n as f64;
    // Bernstein: well below 1e-12 per row
    let dev = (2.0 * reps as f64 * p * (1.0 - p) * 32.0).sqrt() + 32.0;
    for (i, &m) in count.iter().enumerate() {
        ensure!((m as f64 - reps as f64 * p).abs() <= dev, "row {i} of {n} was held out {m} times in {reps} seeds, expected {:.0}: {count:?}", reps as f64 * p);
    }
    Ok(())
}

fn w02_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, w02_split)
}

pub fn w02() -> Property {
    Property {
        id: "W02",
        rule: "at least two rows and a positive fraction",
        assumptions: &["a fraction outside 0..0.9 counts as the nearest of these, one that is not a number as 0", "fairness of the split is a statistical test with false-alarm probability below 1e-9"],
        subs: vec![
            Sub { name: "split", quick: 120_000, thorough: 2_400_000, tape: 24, shards: 0, f: w02_split }, Sub { name: "large", quick: 2500, thorough: 50000, tape: 60, shards: 0, f: w02_large },
            Sub { name: "fair", quick: 1_500, thorough: 30_000, tape: 8, shards: 0, f: w02_fair },
        ],
    }
}

// ---------------------------------------------------------------- W03

fn w03_case(s: &mut Source, c: &mut Case) -> PropResult {
    let mut t = gen_table(s, 2, true);
    let mut sel = gen_sel(s, t.cols());
    sel.headers = true;
    if let Some(wc) = sel.w {
        // rows may weigh nothing
        let zeros = s.chance(1, 4);
        for r in &mut t.cells {
            let v = if zeros && s.chance(1, 3) {
                0.0
            } else if s.bool() {
                s.uniform(0.01, 5.0)
            } else {
                r[wc].1.abs().max(0.01)
            };
            r[wc] = (format!("{v}"), v);
        }
    }
    if s.chance(1, 8) {
        // very large or very small quantities, everywhere but in the weights
        let k = *s.pick(&[90, -90, 60, -70, 100, 30]);
        for r in &mut t.cells {
            for (j, cell) in r.iter_mut().enumerate() {
                if Some(j) != sel.w {
                    let v = cell.1 * 10f64.powi(k);
                    *cell = (format!("{v:e}"), v);
                }
            }
        }
        c.class("very large or small quantities");
    }
    if s.chance(1, 10) {
        // a constant target
        let v = t.cells[0][sel.y].clone();
        for r in &mut t.cells {
            r[sel.y] = v.clone();
        }
    }
    let su = gen_setup(s);
    let mut f = su.fields.clone();
    sel_fields(&sel, &mut f, s);
    let vf = gen_vf(s);
    f.push(("validation_fraction", js(vf)));
    let csv = write_csv(s, &t, true, &PLAIN);
    c.key(&(csv.clone(), su.txt.clone()));
    c.describe(|| format!("{csv:?} selection {sel:?} validation {vf} {}", su.txt));
    c.nontrivial_if(t.rows() > 2);
    let mut w = new_session(&csv, &f, &su.tokens).map_err(|e| format!("rejected: {e}"))?;
    let sp = split_of(&w)?;
    in_range(&sp, t.rows())?;
    let (train, val) = (dataset(&t, &sel, &sp.train), dataset(&t, &sel, &sp.val));
    let names = train.variable_names.clone();
    let steps = s.range(0, 3);
    for _ in 0..=steps {
        let k = s.range(0, 2);
        let snap: SearchSnapshot = from_value(js_err("step", w.step(k))?).map_err(|e| e.to_string())?;
        check_members(&w, &snap, &train, (!sp.val.is_empty()).then_some(&val), &names, c)?;
    }
    Ok(())
}

fn w03_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, w03_case)
}

pub fn w03() -> Property {
    Property {
        id: "W03",
        rule: "a table of at least three rows",
        assumptions: &["weights are not negative, and the means are not compared where all of them are zero", "statistics are compared within a rounding bound; r2 and correlation only where the bound is small (not for nearly constant data)", "correlation ignores weights, the other statistics use them"],
        subs: vec![Sub { name: "members", quick: 120_000, thorough: 2_400_000, tape: 900, shards: 0, f: w03_case }, Sub { name: "large", quick: 600, thorough: 12000, tape: 60, shards: 0, f: w03_large }],
    }
}

// ---------------------------------------------------------------- W04

fn w04_session(s: &mut Source, c: &mut Case) -> PropResult {
    let mut t = gen_table(s, 2, true);
    let mut sel = gen_sel(s, t.cols());
    sel.headers = true;
    if let Some(wc) = sel.w {
        for r in &mut t.cells {
            let v = r[wc].1.abs().max(0.01);
            r[wc] = (format!("{v}"), v);
        }
    }
    let su = gen_setup(s);
    let mut f = su.fields.clone();
    sel_fields(&sel, &mut f, s);
    let vf = gen_vf(s);
    f.push(("validation_fraction", js(vf)));
    // field order must not matter
    for i in (1..f.len()).rev() {
        let j = s.below(i + 1);
        f.swap(i, j);
    }
    let csv = write_csv(s, &t, true, &PLAIN);
    let mut w = new_session(&csv, &f, &su.tokens).map_err(|e| format!("rejected: {e}"))?;
    let sp = split_of(&w)?;
    in_range(&sp, t.rows())?;
    let train = dataset(&t, &sel, &sp.train);
    let val = dataset(&t, &sel, &sp.val);
    let names = train.variable_names.clone();
    let mut e = Engine::new(train.clone(), su.opts.clone());
    let mut pk = 250;
    compare(&w, None, &e, pk, &names)?;
    let nops = s.range(1, vcommon::up(10, 40));
    let mut log = vec![];
    let mut did = 0;
    for _ in 0..nops {
        match s.below(6) {
            0 | 1 | 2 => {
                let k = match s.below(4) {
                    0 => 0,
                    1 | 2 => 1,
                    _ => s.range(2, 12),
                };
                log.push(format!("step({k})"));
                let snap: SearchSnapshot = from_value(js_err("step", w.step(k))?).map_err(|e| e.to_string())?;
                did += e.step(k);
                compare(&w, Some(snap), &e, pk, &names).map_err(|m| format!("after {log:?}: {m}"))?;
            }
            3 => {
                pk = *s.pick(&[0, 1, 2, 3, 250]);
                log.push(format!("set_pareto_k({pk})"));
                w.set_pareto_k(pk);
            }
            4 => {
                // evaluate what the engine holds
                let ms: Vec<Member> = e.hall_of_fame().members().cloned().chain([e.best().clone()]).collect();
                let m = s.pick(&ms).clone();
                log.push(format!("evaluate {}", m.id.0));
                for (which, d) in [("train", &train), ("val", &val)] {
                    let got = eval(&w, &m.id.0.to_string(), which)?;
                    if which == "val" && sp.val.is_empty() {
                        ensure!(got.is_err(), "evaluated on a validation set that does not exist");
                        continue;
                    }
                    let tr = tree::parse(&m.expr.nodes).ok_or("ill-formed member")?;
                    let (want, fin) = tree::reval_all::<B64>(&tr, &d.x, &m.expr.consts);
                    match got {
                        Ok(r) => {
                            ensure!(fin && r.yhat.len() == want.len() && r.yhat.iter().zip(&want).all(|(a, b)| a.same(*b)), "evaluating {} by its identifier on {which} gave {:?}, it predicts {want:?}", text_of(&m, &names), r.yhat);
                        }
                        Err(er) => ensure!(!fin, "evaluating {} failed: {er}", text_of(&m, &names)),
                    }
                }
            }
            _ => {
                // malformed requests are answered with an error and change nothing
                let known: Vec<u64> = e.hall_of_fame().members().map(|m| m.id.0).chain([e.best().id.0]).collect();
                let unknown = (0..).map(|i| 1u64 << 50 | i).find(|i| !known.contains(i)).unwrap();
                let (id, which) = match s.below(4) {
                    0 => (s.pick(&["", "x", "-1", "1.5", "99999999999999999999", "0x1", " "]).to_string(), "train"),
                    1 => (unknown.to_string(), *s.pick(&["train", "val"])),
                    2 => (known[0].to_string(), *s.pick(&["", "Train", "test", "both"])),
                    _ => (s.u64().to_string() + "q", "val"),
                };
                log.push(format!("evaluate({id:?}, {which:?})"));
                let got = eval(&w, &id, which)?;
                ensure!(got.is_err(), "after {log:?}: a malformed request was answered with a result");
                c.class("malformed request");
            }
        }
    }
    compare(&w, None, &e, pk, &names).map_err(|m| format!("after {log:?}: {m}"))?;
    c.key(&(csv.clone(), su.txt.clone(), log.join(" ")));
    c.describe(|| format!("{log:?} on {csv:?} selection {sel:?} validation {vf} {}", su.txt));
    c.nontrivial_if(did > 0);
    c.class_if(e.is_finished(), "finished");
    Ok(())
}

/// Sessions that cannot be set up.
fn w04_reject(s: &mut Source, c: &mut Case) -> PropResult {
    let su = gen_setup(s);
    let mut f = su.fields.clone();
    let mut toks = su.tokens.clone();
    let csv = "a,b\n1,2\n2,3\n3,5\n";
    let what = match s.below(4) {
        3 => {
            toks = Default::default();
            "no operators".to_string()
        }
        0 => {
            // an operator that does not exist, or has another arity
            let a = s.below(3);
            let table = builtin_table();
            let t = match s.below(3) {
                0 => s.pick(&["", "foo", "sinn", "add ing", "?", "constant"]).to_string(),
                _ => {
                    let others: Vec<&str> = table.iter().filter(|(x, n, _)| *x as usize != a + 1 && !table.iter().any(|(y, m, _)| *y as usize == a + 1 && m == n)).map(|x| x.1).collect();
                    s.pick(&others).to_string()
                }
            };
            let at = s.below(toks[a].len() + 1);
            toks[a].insert(at, t.clone());
            format!("operator {t:?} of arity {}", a + 1)
        }
        1 => {
            let k = s.pick(&["", "mse2", "l2", "cauchy", "huber loss", "epsilon insensitive"]).to_string();
            f.retain(|x| x.0 != "loss_kind");
            f.push(("loss_kind", JsValue::Text(k.clone())));
            format!("loss {k:?}")
        }
        _ => {
            let k = s.pick(&["y_column", "weights_column"]);
            f.push((k, js(s.range(2, 9))));
            format!("{k} out of range")
        }
    };
    c.key(&(what.clone(), su.txt.clone()));
    c.describe(|| format!("{what}: {f:?} {toks:?}"));
    c.nontrivial();
    match new_session(csv, &f, &toks) {
        Ok(_) => Err(format!("{what} was accepted")),
        Err(e) => {
            ensure!(!e.starts_with("PANIC"), "{what}: {e}");
            ensure!(!e.is_empty(), "{what}: an empty error message");
            Ok(())
        }
    }
}

/// The registry and the default options offered to the page.
fn w04_catalogue(s: &mut Source, c: &mut Case) -> PropResult {
    let reg: Vec<session::WasmOpInfo> = from_value(js_err("registry", session::builtin_operator_registry())?).map_err(|e| e.to_string())?;
    let table = builtin_table();
    ensure!(reg.len() == table.len(), "{} operators offered, {} exist", reg.len(), table.len());
    for (a, n, id) in &table {
        let op = OpId { arity: *a, id: *id };
        let Some(r) = reg.iter().find(|r| r.arity == *a && r.name == *n) else { return Err(format!("operator {n} of arity {a} is not offered")) };
        ensure!(
            r.display == <B64 as OperatorSet>::display(op) && r.infix.as_deref() == <B64 as OperatorSet>::infix(op) && r.commutative == <B64 as OperatorSet>::commutative(op) && r.associative == <B64 as OperatorSet>::associative(op) && r.complexity == <B64 as OperatorSet>::complexity(op),
            "operator {n} is described as {r:?}"
        );
    }
    // defaults fed back are the same as nothing
    let csv = "a,b\n1,2\n2,3\n3,5\n4,4\n";
    let core = s.bool();
    let d = js_err("defaults", if core { session::default_core_options() } else { session::default_search_options() })?;
    let small = [("niterations", js(s.range(1, 2))), ("populations", js(s.range(1, 2))), ("population_size", js(s.range(2, 6))), ("ncycles_per_iteration", js(s.range(1, 4))), ("seed", js(s.below(1000)))];
    let JsValue::Object(mut fs) = d else { return Err("defaults are not an object".into()) };
    for (k, v) in &small {
        match fs.iter_mut().find(|x| x.0 == *k) {
            Some(x) => x.1 = v.clone(),
            None => return Err(format!("{k} is missing from the defaults")),
        }
    }
    let full = JsValue::Object(fs.clone());
    // any subset of the defaults may be left out
    let part = JsValue::Object(fs.into_iter().filter(|x| small.iter().any(|y| y.0 == x.0) || s.bool()).collect());
    let few = obj(small.to_vec());
    let toks = [vec!["sin".to_string()], vec!["add".to_string(), "*".to_string()], vec![]];
    let go = |o: JsValue| -> Result<JsValue, String> {
        let mut w = WasmSearch::new(csv.into(), o, texts(&toks[0]), texts(&toks[1]), texts(&toks[2])).map_err(|e| format!("{e:?}"))?;
        w.step(3).map_err(|e| format!("{e:?}"))
    };
    let (a, b, p) = (go(full.clone())?, go(few)?, go(part)?);
    c.key(&format!("{small:?} {core}"));
    c.describe(|| format!("{small:?} {core}"));
    c.nontrivial();
    ensure!(a == b, "the default options written out give {a:?}, left out {b:?}");
    ensure!(a == p, "with some defaults left out: {p:?} instead of {a:?}");
    let _ = to_value(&1u8);
    Ok(())
}

fn w04_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, w04_session)
}

pub fn w04() -> Property {
    Property {
        id: "W04",
        rule: "a session in which at least one cycle ran (rejections and catalogue: every case)",
        assumptions: &["the native engine, given the same rows and natively set options, is the reference for every report", "options that cannot be read at all count as the defaults; nothing is claimed about them"],
        subs: vec![
            Sub { name: "session", quick: 60_000, thorough: 1_200_000, tape: 1000, shards: 0, f: w04_session }, Sub { name: "large", quick: 400, thorough: 8000, tape: 60, shards: 0, f: w04_large },
            Sub { name: "reject", quick: 100_000, thorough: 2_000_000, tape: 200, shards: 0, f: w04_reject },
            Sub { name: "catalogue", quick: 5_000, thorough: 100_000, tape: 120, shards: 0, f: w04_catalogue },
        ],
    }
}
