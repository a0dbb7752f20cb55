//! E01 value, E02 completeness, E03 reuse.
use crate::ops::*;
use crate::tree::*;
use dynamic_expressions::num_traits::{Float, One, Zero};
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::*;
use ndarray::Array2;
use vcommon::{ensure, Case, PropResult, Property, Source, Sub};

pub const OFF: EvalOptions = EvalOptions { check_finite: false, early_exit: false };
pub fn opts(i: usize) -> EvalOptions {
    EvalOptions { check_finite: i & 1 == 1, early_exit: i & 2 == 2 }
}

// ---------------------------------------------------------------- E01 single operators
/// The mathematical value of a built-in operator (f64), with the relative and absolute tolerance that
/// a faithful implementation in precision eps needs; None = outside the domain of the comparison.
fn truth(name: &str, a: &[f64], eps: f64) -> Option<(f64, f64, f64)> {
    let x = a[0];
    let (y, z) = (a.get(1).copied().unwrap_or(0.0), a.get(2).copied().unwrap_or(0.0));
    let mut abs = 0.0;
    let v = match name {
        "abs" => if x < 0.0 { -x } else { x },
        "abs2" => x * x,
        "acos" => x.acos(),
        "acosh" => {
            if x > 1e15 { return None; }
            abs = 32.0 * eps;
            x.acosh()
        }
        "asin" => x.asin(),
        "asinh" => {
            if x.abs() > 1e15 { return None; }
            x.asinh()
        }
        "atan" => x.atan(),
        "atanh" => {
            if 1.0 - x.abs() < 1e-4 && x.abs() <= 1.0 { return None; }
            abs = 32.0 * eps / (1.0 - x.abs()).abs();
            x.atanh()
        }
        "cbrt" => x.cbrt(),
        "cos" => x.cos(),
        "cosh" => x.cosh(),
        "cot" => 1.0 / x.tan(),
        "csc" => 1.0 / x.sin(),
        "exp" => x.exp(),
        "exp2" => x.exp2(),
        "expm1" => x.exp_m1(),
        "identity" => x,
        "inv" => 1.0 / x,
        "log" => x.ln(),
        "log1p" => x.ln_1p(),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "neg" => 0.0 - x,
        "sec" => 1.0 / x.cos(),
        "sign" => {
            if x == 0.0 { return None; }
            if x > 0.0 { 1.0 } else { -1.0 }
        }
        "sin" => x.sin(),
        "sinh" => x.sinh(),
        "sqrt" => x.sqrt(),
        "tan" => x.tan(),
        "tanh" => x.tanh(),
        "add" => x + y,
        "atan2" => x.atan2(y),
        "div" => x / y,
        "max" => if x > y { x } else { y },
        "min" => if x < y { x } else { y },
        "mul" => x * y,
        "pow" => x.powf(y),
        "sub" => x - y,
        "clamp" => if x < y { y } else if x > z { z } else { x },
        "fma" => {
            abs = 4.0 * eps * ((x * y).abs() + z.abs());
            x.mul_add(y, z)
        }
        _ => panic!("harness: {name}"),
    };
    Some((v, 64.0 * eps, abs))
}

fn max_of(bits: u32) -> f64 {
    if bits == 32 { f32::MAX as f64 } else { f64::MAX }
}
fn tiny_of(bits: u32) -> f64 {
    if bits == 32 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE }
}

fn single<O: TestOps>(s: &mut Source, c: &mut Case, table: Vec<(u8, &'static str, u16)>) -> PropResult {
    let (ar, name, id) = *s.pick(&table);
    let n = ar as usize;
    let ident = table.iter().find(|t| t.1 == "identity").unwrap().2;
    let rows = s.range(1, 5);
    let mode = *s.pick(&[0usize, 1, 4, 2]);
    let x = gen_x::<O::N>(s, n, rows, mode);
    let mut consts: Vec<O::N> = vec![];
    let mut nodes = vec![];
    let mut kinds = String::new();
    for j in 0..n {
        match s.below(3) {
            0 => {
                nodes.push(PNode::Var { feature: j as u16 });
                kinds.push('v');
            }
            1 => {
                consts.push(O::N::of(gen_num(s, mode)));
                nodes.push(PNode::Const { idx: (consts.len() - 1) as u16 });
                kinds.push('c');
            }
            _ => {
                nodes.push(PNode::Var { feature: j as u16 });
                nodes.push(PNode::Op { arity: 1, op: ident });
                kinds.push('s');
            }
        }
    }
    nodes.push(PNode::Op { arity: ar, op: id });
    let e: PostfixExpr<O::N, O, 3> = PostfixExpr::new(nodes, consts.clone(), Metadata::default());
    let (got, ok) = eval_tree_array(&e, x.view(), &OFF);
    c.describe(|| format!("{name} kinds={kinds} x={:?} consts={:?}", x, consts));
    ensure!(ok, "unchecked evaluation reported incomplete");
    ensure!(got.len() == rows, "{} values for {rows} rows", got.len());
    for r in 0..rows {
        let mut k = 0;
        let args: Vec<f64> = kinds.chars().enumerate().map(|(j, ch)| if ch == 'c' { k += 1; consts[k - 1].f() } else { x[(j, r)].f() }).collect();
        let Some((v, rel, abs)) = truth(name, &args, O::N::EPS) else { continue };
        let g = got[r].f();
        let mx = max_of(O::N::BITS);
        let good = if v.is_nan() {
            g.is_nan()
        } else if v.abs() > mx * (1.0 - 1e-5) {
            g.abs() >= mx * (1.0 - 1e-4) && (g > 0.0) == (v > 0.0)
        } else {
            (g - v).abs() <= rel * v.abs() + abs + 4.0 * tiny_of(O::N::BITS)
        };
        ensure!(good, "{name}{args:?} evaluated to {g:e}, its mathematical value is {v:e} ({} bit)", O::N::BITS);
        if v.is_finite() {
            c.nontrivial();
        }
    }
    c.key(&(name, kinds, format!("{x:?}{consts:?}")));
    c.class(name);
    Ok(())
}
fn single64(s: &mut Source, c: &mut Case) -> PropResult {
    single::<BuiltinOpsF64>(s, c, builtin_table())
}
fn single32(s: &mut Source, c: &mut Case) -> PropResult {
    single::<BuiltinOpsF32>(s, c, builtin_table32())
}

// ---------------------------------------------------------------- E01 composition
pub fn some_ids<O: TestOps>(s: &mut Source) -> Vec<(u8, u16)> {
    let all = O::ids();
    if s.bool() {
        return all;
    }
    // a random subset, so that one expression repeats operators
    let k = s.range(1, 5);
    (0..k).map(|_| *s.pick(&all)).collect()
}

pub struct Ex<N> {
    pub t: Tree,
    pub consts: Vec<N>,
    pub x: Array2<N>,
}

pub fn gen_case<O: TestOps>(s: &mut Source, max_ops: usize, max_rows: usize, min_rows: usize, mode: Option<usize>) -> Ex<O::N> {
    let nf = s.range(1, vcommon::up(4, 700));
    let rows = s.range(min_rows, max_rows);
    let mode = mode.unwrap_or_else(|| *s.pick(&[0usize, 1, 2, 4, 3]));
    let ids = some_ids::<O>(s);
    let cm = s.below(2);
    let t = gen_tree(s, &Cfg { n_features: nf, max_ops, const_mode: cm, ids });
    let nc = pool_len(s, &t, cm == 1);
    let consts: Vec<O::N> = (0..nc).map(|_| O::N::of(gen_num(s, mode))).collect();
    let x = gen_x::<O::N>(s, nf, rows, mode);
    Ex { t, consts, x }
}

fn compose<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, max_ops: usize, tail: bool) -> PropResult {
    if tail {
        s.tail();
    }
    compose_rows::<O, D>(s, c, max_ops, 0, if tail { 9 } else { 6 })
}

/// Row counts in the thousands, biased to the neighbourhoods of powers of two.
pub fn many_rows(s: &mut Source) -> usize {
    if s.chance(1, 60) {
        // beyond 16 bits
        return s.range(65_000, 70_000);
    }
    match s.below(3) {
        0 => s.range(1, 200),
        1 => ((1usize << s.range(6, 12)) + s.range(0, 6)).saturating_sub(3),
        _ => s.range(200, 6000),
    }
}
/// Hundreds of features.
fn comp_feat_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(4) {
        0 => compose::<BuiltinOpsF64, 3>(s, c, 24, false),
        1 => compose::<BuiltinOpsF32, 3>(s, c, 24, false),
        2 => compose::<Kit5, 5>(s, c, 24, false),
        _ => compose::<Kit24, 4>(s, c, 24, false),
    }
}
fn comp_feat(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, comp_feat_case)
}
fn comp_rows(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    let rows = many_rows(s);
    c.class_if(rows > 1024, "more than 1024 rows");
    match s.below(5) {
        0 => compose_rows::<BuiltinOpsF64, 3>(s, c, 5, rows, rows),
        1 => compose_rows::<BuiltinOpsF32, 3>(s, c, 5, rows, rows),
        2 => compose_rows::<BuiltinOpsF64, 6>(s, c, 5, rows, rows),
        3 => compose_rows::<Kit5, 5>(s, c, 5, rows, rows),
        _ => compose_rows::<Kit24, 4>(s, c, 5, rows, rows),
    }
}

fn compose_rows<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, max_ops: usize, min_rows: usize, max_rows: usize) -> PropResult {
    let ex = gen_case::<O>(s, max_ops, max_rows, min_rows, None);
    let e: PostfixExpr<O::N, O, D> = expr(&ex.t, ex.consts.clone());
    let (want, fin) = reval_all::<O>(&ex.t, &ex.x, &ex.consts);
    c.describe(|| if ex.x.ncols() < 20 { format!("{} on x={:?}", show_o::<O>(&ex.t, &ex.consts), ex.x) } else { format!("{} on {} rows", show_o::<O>(&ex.t, &ex.consts), ex.x.ncols()) });
    c.key(&(ex.t.shape_key(), ex.x.ncols()));
    c.nontrivial_if(ex.t.ops() >= 1 && ex.x.ncols() > 0);
    c.class_if(ex.t.ops() >= 5, "5+ ops");
    c.class_if(ex.t.ops() >= 40, "40+ ops");
    c.class_if(ex.t.depth() >= 6, "depth 6+");
    c.class_if(fin, "all finite");
    let (got, ok) = eval_tree_array(&e, ex.x.view(), &OFF);
    ensure!(ok, "unchecked evaluation reported incomplete");
    ensure!(got.len() == want.len(), "{} values for {} rows", got.len(), want.len());
    for r in 0..want.len() {
        ensure!(got[r].same(want[r]), "row {r}: evaluated to {:?}, bottom-up application gives {:?}", got[r], want[r]);
    }
    let o = opts(s.below(4));
    let (g2, ok2) = eval_tree_array(&e, ex.x.view(), &o);
    if ok2 {
        for r in 0..want.len() {
            ensure!(g2[r].same(want[r]), "row {r} with {o:?}: evaluated to {:?}, bottom-up application gives {:?}", g2[r], want[r]);
        }
    }
    // rows are independent: any selection of rows gives the selection of the values
    let rows = ex.x.ncols();
    if rows > 0 {
        let k = s.range(1, rows + 2);
        let sel: Vec<usize> = (0..k).map(|_| s.below(rows)).collect();
        let mut xs = Array2::<O::N>::zeros((ex.x.nrows(), k));
        for (i, &r) in sel.iter().enumerate() {
            for f in 0..ex.x.nrows() {
                xs[(f, i)] = ex.x[(f, r)];
            }
        }
        let (g3, _) = eval_tree_array(&e, xs.view(), &OFF);
        for (i, &r) in sel.iter().enumerate() {
            ensure!(g3[i].same(got[r]), "row {r} evaluates to {:?} alone but {:?} among other rows", g3[i], got[r]);
        }
    }
    Ok(())
}
fn comp_b64(s: &mut Source, c: &mut Case) -> PropResult {
    compose::<BuiltinOpsF64, 3>(s, c, 24, false)
}
fn comp_b32(s: &mut Source, c: &mut Case) -> PropResult {
    compose::<BuiltinOpsF32, 3>(s, c, 24, false)
}
fn comp_wide_d(s: &mut Source, c: &mut Case) -> PropResult {
    compose::<BuiltinOpsF64, 6>(s, c, 16, false)
}
fn comp_k5(s: &mut Source, c: &mut Case) -> PropResult {
    compose::<Kit5, 5>(s, c, 24, false)
}
fn comp_k24(s: &mut Source, c: &mut Case) -> PropResult {
    compose::<Kit24, 4>(s, c, 24, false)
}
fn comp_deep(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(3) {
        0 => compose::<BuiltinOpsF64, 3>(s, c, 900, true),
        1 => compose::<Kit5, 5>(s, c, 900, true),
        _ => compose::<Kit24, 4>(s, c, 900, true),
    }
}

/// Many features, many constants, many rows: index arithmetic beyond 8 bits.
fn comp_large(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    let nf = s.range(1, 600);
    let rows = s.range(1, 700);
    let ids = vec![(2u8, 0u16), (2, 6), (2, 7), (1, 17)];
    let ids: Vec<(u8, u16)> = ids.into_iter().filter(|i| <BuiltinOpsF64 as TestOps>::ids().contains(i)).collect();
    let t = gen_tree(s, &Cfg { n_features: nf, max_ops: 700, const_mode: 1, ids });
    let nc = pool_len(s, &t, true);
    let consts: Vec<f64> = (0..nc).map(|_| s.uniform(-3.0, 3.0)).collect();
    let x = gen_x::<f64>(s, nf, rows, 1);
    let e: PostfixExpr<f64, BuiltinOpsF64, 3> = expr(&t, consts.clone());
    let (want, _) = reval_all::<BuiltinOpsF64>(&t, &x, &consts);
    let (got, _) = eval_tree_array(&e, x.view(), &OFF);
    c.describe(|| format!("{} nodes, {nf} features, {nc} constants, {rows} rows", t.size()));
    c.nontrivial_if(t.ops() > 0);
    for r in 0..rows {
        ensure!(got[r].same(want[r]), "row {r}: {:?} vs {:?} ({} nodes, {nf} features, {nc} constants)", got[r], want[r], t.size());
    }
    Ok(())
}

pub fn e01() -> Property {
    Property {
        id: "E01",
        rule: "non-trivial = the expression has at least one operator and at least one row (single-operator cases: a finite mathematical value was compared); distinct = different tree shape/operators, row count or operand kinds",
        assumptions: &["the platform's f64 elementary functions are accurate to a few ulp", "single operators are compared with an independent table within 64 ulp; composition is compared bit for bit"],
        subs: vec![
            Sub { name: "operator-f64", quick: 960_000, thorough: 48_000_000, tape: 60, shards: 0, f: single64 },
            Sub { name: "operator-f32", quick: 960_000, thorough: 48_000_000, tape: 60, shards: 0, f: single32 },
            Sub { name: "compose-builtin-f64", quick: 480_000, thorough: 24_000_000, tape: 160, shards: 0, f: comp_b64 },
            Sub { name: "compose-builtin-f32", quick: 320_000, thorough: 12_800_000, tape: 160, shards: 0, f: comp_b32 },
            Sub { name: "compose-max-arity-6", quick: 128_000, thorough: 4_800_000, tape: 120, shards: 0, f: comp_wide_d },
            Sub { name: "compose-custom-1to5", quick: 320_000, thorough: 12_800_000, tape: 160, shards: 0, f: comp_k5 },
            Sub { name: "compose-custom-2-4-f32", quick: 240_000, thorough: 9_600_000, tape: 160, shards: 0, f: comp_k24 },
            Sub { name: "deep", quick: 32_000, thorough: 960_000, tape: 40, shards: 0, f: comp_deep },
            Sub { name: "large", quick: 4_000, thorough: 96_000, tape: 20, shards: 0, f: comp_large },
            Sub { name: "rows", quick: 30_000, thorough: 900_000, tape: 20, shards: 0, f: comp_rows },
            Sub { name: "features", quick: 160_000, thorough: 6_400_000, tape: 30, shards: 0, f: comp_feat },
            Sub { name: "deep-chains", quick: 3_000, thorough: 120_000, tape: 60, shards: 0, f: crate::deep::eval_deep },
        ],
    }
}

// ---------------------------------------------------------------- E02
/// Tree-level derivative with naive arithmetic, only to know whether any partial or derivative on the
/// way was non-finite.
fn der_nonfinite<O: TestOps>(t: &Tree, x: &Array2<O::N>, row: usize, consts: &[O::N], dir: usize) -> (O::N, O::N, bool) {
    match t {
        Tree::Var(f) => (x[(*f as usize, row)], if *f as usize == dir { O::N::one() } else { O::N::zero() }, false),
        Tree::Const(i) => (consts[*i as usize], O::N::zero(), false),
        Tree::Op(a, o, ch) => {
            let sub: Vec<_> = ch.iter().map(|c| der_nonfinite::<O>(c, x, row, consts, dir)).collect();
            let args: Vec<O::N> = sub.iter().map(|s| s.0).collect();
            let op = OpId { arity: *a, id: *o };
            let v = O::rf(op, &args);
            let mut bad = sub.iter().any(|s| s.2);
            let mut d = O::N::zero();
            for (j, sj) in sub.iter().enumerate() {
                let p = O::rp(op, &args, j);
                bad |= !p.is_finite();
                let term = p * sj.1;
                bad |= !term.is_finite();
                d = d + term;
                bad |= !d.is_finite();
            }
            (v, d, bad)
        }
    }
}

fn complete<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult {
    let mode = *s.pick(&[4usize, 2, 1, 3, 0]);
    let ex = gen_case::<O>(s, 12, 7, 1, Some(mode));
    complete_on::<O, D>(s, c, ex)
}
/// Thousands of rows of benign values, one of which (any position) may be responsible.
fn e02_rows(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    let rows = many_rows(s);
    c.class_if(rows > 1024, "more than 1024 rows");
    fn one<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, rows: usize) -> PropResult {
        let mut ex = gen_case::<O>(s, 5, rows, rows, Some(4));
        if s.chance(1, 5) {
            // every value near the top of the range
            let v = O::N::of(if O::N::BITS == 32 { 2e38 } else { 1.5e308 });
            let f = s.below(ex.x.nrows());
            ex.x.row_mut(f).fill(if s.bool() { v } else { -v });
        } else if s.bool() {
            // near the end (or the start) more often than not
            let r = match s.below(3) {
                0 => rows - 1 - s.below(rows.min(8)),
                1 => s.below(rows.min(8)),
                _ => s.below(rows),
            };
            let f = s.below(ex.x.nrows());
            ex.x[(f, r)] = O::N::of(*s.pick(&[f64::NAN, f64::INFINITY, -1.0, 0.0, 1e300]));
        }
        complete_on::<O, D>(s, c, ex)
    }
    match s.below(4) {
        0 => one::<BuiltinOpsF64, 3>(s, c, rows),
        1 => one::<BuiltinOpsF32, 3>(s, c, rows),
        2 => one::<Kit5, 5>(s, c, rows),
        _ => one::<Kit24, 4>(s, c, rows),
    }
}
fn complete_on<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, mut ex: Ex<O::N>) -> PropResult {
    // sometimes only one row (any position) or one constant is responsible
    if s.chance(1, 3) {
        let (f, r) = (s.below(ex.x.nrows()), s.below(ex.x.ncols()));
        ex.x[(f, r)] = O::N::of(*s.pick(&[0.0, -1.0, 1e30, 1e300, f64::INFINITY, f64::NAN, -0.0]));
    }
    if s.chance(1, 6) && !ex.consts.is_empty() {
        let i = s.below(ex.consts.len());
        ex.consts[i] = O::N::of(*s.pick(&[f64::INFINITY, f64::NAN, 1e300, 0.0]));
    }
    let (want, fin) = reval_all::<O>(&ex.t, &ex.x, &ex.consts);
    let e: PostfixExpr<O::N, O, D> = expr(&ex.t, ex.consts.clone());
    let rows = ex.x.ncols();
    c.describe(|| if rows < 20 { format!("{} on x={:?} finite={fin}", show_o::<O>(&ex.t, &ex.consts), ex.x) } else { format!("{} on {rows} rows finite={fin}", show_o::<O>(&ex.t, &ex.consts)) });
    c.key(&(ex.t.shape_key(), rows, fin));
    c.nontrivial_if(ex.t.ops() >= 1);
    c.class(if fin { "finite" } else { "non-finite" });
    let hidden = !fin && want.iter().all(|v| v.is_finite());
    c.class_if(hidden, "non-finite only inside");
    for i in 0..4 {
        let o = opts(i);
        let expect = !o.check_finite || fin;
        let (v, ok) = eval_tree_array(&e, ex.x.view(), &o);
        ensure!(ok == expect, "plain evaluation with {o:?}: complete={ok}, but all operator values finite={fin}");
        ensure!(v.len() == rows, "length");
        let mut out = vec![O::N::zero(); rows];
        let plan = compile_plan::<D>(&e.nodes, ex.x.nrows(), e.consts.len());
        let mut sc = Array2::zeros((0, 0));
        let ok2 = eval_plan_array_into(&mut out, &plan, &e, ex.x.view(), &mut sc, &o);
        ensure!(ok2 == expect, "plan evaluation with {o:?}: complete={ok2}, but all operator values finite={fin}");
        if expect {
            for r in 0..rows {
                ensure!(v[r].same(want[r]) && out[r].same(want[r]), "complete with {o:?} but row {r} is {:?}/{:?} instead of {:?}", v[r], out[r], want[r]);
            }
        }
        for variable in [true, false] {
            let mut g = GradContext::new(rows);
            let (gv, gm, gok) = eval_grad_tree_array(&e, ex.x.view(), variable, &mut g, &o);
            ensure!(gok == expect, "gradient (variable={variable}) with {o:?}: complete={gok}, but all operator values finite={fin}");
            let nd = if variable { ex.x.nrows() } else { e.consts.len() };
            ensure!(gm.n_dir == nd && gm.n_rows == rows && gm.data.len() == nd * rows && gv.len() == rows, "gradient shape");
            if expect {
                for r in 0..rows {
                    ensure!(gv[r].same(want[r]), "gradient values with {o:?}: row {r} is {:?} instead of {:?}", gv[r], want[r]);
                }
            }
        }
        let dir = s.below(ex.x.nrows());
        let mut dc = DiffContext::new(rows);
        let (dv, dd, dok) = eval_diff_tree_array(&e, ex.x.view(), dir, &mut dc, &o);
        ensure!(dv.len() == rows && dd.len() == rows, "derivative shape");
        if !o.check_finite {
            ensure!(dok, "unchecked derivative reported incomplete");
        } else {
            ensure!(!dok || fin, "derivative with {o:?} reported complete although an operator value was not finite");
            if !dok && fin {
                let bad = (0..rows).any(|r| der_nonfinite::<O>(&ex.t, &ex.x, r, &ex.consts, dir).2);
                ensure!(bad, "derivative with {o:?} reported incomplete although every value and derivative is finite");
                c.class("derivative itself not finite");
            }
        }
        if dok {
            for r in 0..rows {
                ensure!(dv[r].same(want[r]), "derivative values with {o:?}: row {r} is {:?} instead of {:?}", dv[r], want[r]);
            }
        }
        // the derivative itself must not depend on the options while complete
        if dok {
            let mut d0 = DiffContext::new(rows);
            let (_, dd0, _) = eval_diff_tree_array(&e, ex.x.view(), dir, &mut d0, &OFF);
            for r in 0..rows {
                ensure!(dd[r].same(dd0[r]), "derivative differs with {o:?}: {:?} vs unchecked {:?}", dd[r], dd0[r]);
            }
        }
    }
    Ok(())
}
fn e02_b64(s: &mut Source, c: &mut Case) -> PropResult {
    complete::<BuiltinOpsF64, 3>(s, c)
}
fn e02_b32(s: &mut Source, c: &mut Case) -> PropResult {
    complete::<BuiltinOpsF32, 3>(s, c)
}
fn e02_k5(s: &mut Source, c: &mut Case) -> PropResult {
    complete::<Kit5, 5>(s, c)
}

/// 0-ops roots and constant-only expressions are rare above; concentrate on them here.
fn e02_const(s: &mut Source, c: &mut Case) -> PropResult {
    let nf = s.range(1, 2);
    let rows = s.range(1, 4);
    let consts: Vec<f64> = (0..3).map(|_| gen_num(s, 3)).collect();
    let t = match s.below(3) {
        0 => Tree::Const(s.below(3) as u16),
        1 => Tree::Var(s.below(nf) as u16),
        _ => {
            let mut t = gen_tree(s, &Cfg { n_features: 0, max_ops: 5, const_mode: 0, ids: BuiltinOpsF64::ids() });
            t.map_consts(&mut |i| *i %= 3);
            t
        }
    };
    let x = gen_x::<f64>(s, nf, rows, 3);
    let (want, fin) = reval_all::<BuiltinOpsF64>(&t, &x, &consts);
    let e: PostfixExpr<f64, BuiltinOpsF64, 3> = expr(&t, consts.clone());
    c.describe(|| format!("{} consts={consts:?} x={x:?}", show_o::<BuiltinOpsF64>(&t, &consts)));
    c.nontrivial();
    c.key(&(t.shape_key(), rows, fin));
    for i in 0..4 {
        let o = opts(i);
        let expect = !o.check_finite || fin;
        let (v, ok) = eval_tree_array(&e, x.view(), &o);
        let (dv, _, dok) = eval_diff_tree_array(&e, x.view(), 0, &mut DiffContext::new(rows), &o);
        let (gv, _, gok) = eval_grad_tree_array(&e, x.view(), s.bool(), &mut GradContext::new(rows), &o);
        ensure!(ok == expect && gok == expect, "root {:?} with {o:?}: complete plain={ok} gradient={gok}, finite={fin}", t);
        ensure!(!dok || expect, "derivative complete={dok} finite={fin}");
        if expect {
            for r in 0..rows {
                ensure!(v[r].same(want[r]) && gv[r].same(want[r]) && (!dok || dv[r].same(want[r])), "value at row {r}");
            }
        }
    }
    Ok(())
}

/// Hundreds of features.
fn e02_wide_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(4) {
        0 => complete::<BuiltinOpsF64, 3>(s, c),
        1 => complete::<BuiltinOpsF32, 3>(s, c),
        2 => complete::<Kit5, 5>(s, c),
        _ => complete::<Kit24, 4>(s, c),
    }
}
fn e02_wide(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, e02_wide_case)
}

pub fn e02() -> Property {
    Property {
        id: "E02",
        rule: "non-trivial = at least one operator (constant-root cases: any); distinct = different tree, row count or verdict",
        assumptions: &["the reference verdict is computed with the declared operator functions, in the same precision"],
        subs: vec![
            Sub { name: "builtin-f64", quick: 625_000, thorough: 37_500_000, tape: 140, shards: 0, f: e02_b64 },
            Sub { name: "builtin-f32", quick: 300_000, thorough: 15_000_000, tape: 140, shards: 0, f: e02_b32 },
            Sub { name: "custom-1to5", quick: 300_000, thorough: 15_000_000, tape: 140, shards: 0, f: e02_k5 },
            Sub { name: "constant-roots", quick: 250_000, thorough: 7_500_000, tape: 40, shards: 0, f: e02_const },
            Sub { name: "rows", quick: 10_000, thorough: 300_000, tape: 20, shards: 0, f: e02_rows },
            Sub { name: "features", quick: 60_000, thorough: 2_400_000, tape: 30, shards: 0, f: e02_wide },
        ],
    }
}

// ---------------------------------------------------------------- E03
fn reuse<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult {
    reuse_rows::<O, D>(s, c, &|s| s.range(1, 5))
}
/// The same contexts between a handful of rows and thousands.
fn e03_rows(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    let mixed = |s: &mut Source| if s.bool() { many_rows(s) } else { s.range(1, 5) };
    match s.below(3) {
        0 => reuse_rows::<BuiltinOpsF64, 3>(s, c, &mixed),
        1 => reuse_rows::<Kit5, 5>(s, c, &mixed),
        _ => reuse_rows::<Kit24, 4>(s, c, &mixed),
    }
}
fn reuse_rows<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, pick_rows: &dyn Fn(&mut Source) -> usize) -> PropResult {
    let n_steps = s.range(2, 9);
    // a pool of related expressions: unrelated, same shape with other constants, same length with other ops
    let nf0 = s.range(1, vcommon::up(3, 500));
    let mode = *s.pick(&[1usize, 2, 4, 0]);
    let ids = some_ids::<O>(s);
    let mut pool: Vec<(Tree, Vec<O::N>)> = vec![];
    let np = s.range(1, 4);
    for k in 0..np {
        let rel = if k == 0 { 0 } else { s.below(5) };
        if rel <= 1 {
            let t = gen_tree(s, &Cfg { n_features: nf0, max_ops: 8, const_mode: 1, ids: ids.clone() });
            let nc = pool_len(s, &t, true);
            let cs = (0..nc).map(|_| O::N::of(gen_num(s, mode))).collect();
            pool.push((t, cs));
        } else {
            let (t0, c0) = pool[s.below(pool.len())].clone();
            let mut t = t0;
            let mut cs = c0;
            match rel {
                2 => {
                    for v in cs.iter_mut() {
                        *v = O::N::of(gen_num(s, mode));
                    }
                }
                3 => retarget(s, &mut t, &O::ids(), nf0),
                _ => cs.push(O::N::of(1.5)),
            }
            pool.push((t, cs));
        }
    }
    let mut rows = pick_rows(s);
    let mut ec = EvalContext::<O::N, D>::new(rows);
    let mut dc = DiffContext::<O::N, D>::new(rows);
    let mut gc = GradContext::<O::N, D>::new(rows);
    let mut scratch = Array2::<O::N>::zeros((0, 0));
    let mut x = Array2::<O::N>::zeros((0, 0));
    let mut trace = vec![];
    let mut seen_incomplete = false;
    for step in 0..n_steps {
        if s.chance(1, 4) {
            rows = pick_rows(s);
            // the owners of these contexts resize them by setting n_rows
            ec.n_rows = rows;
            dc.n_rows = rows;
            gc.n_rows = rows;
        }
        let nf = if s.chance(1, 4) { s.range(nf0, vcommon::up(4, 600)) } else { nf0 };
        let (t, cs) = &pool[s.below(pool.len())];
        let xm = *s.pick(&[mode, 3]);
        // a new matrix, the last one again, or the last one overwritten in place
        let again = if x.nrows() == nf && x.ncols() == rows && s.chance(2, 5) { 1 + s.below(2) } else { 0 };
        match again {
            0 => x = gen_x::<O::N>(s, nf, rows, xm),
            1 => {}
            _ => {
                for _ in 0..s.range(1, 3) {
                    if nf * rows > 0 {
                        let at = (s.below(nf), s.below(rows));
                        x[at] = O::N::of(gen_num(s, xm));
                    }
                }
            }
        }
        let o = opts(3 - s.below(4));
        let e: PostfixExpr<O::N, O, D> = expr(t, cs.clone());
        let kind = s.below(5);
        trace.push(format!("{}:{} rows={rows} nf={nf}{} {:?}", ["eval", "plan", "diff", "gradx", "gradc"][kind], show_o::<O>(t, cs), ["", " same matrix", " matrix overwritten in place"][again], (o.check_finite, o.early_exit)));
        let ctx = |m: &str| format!("step {step} ({}): {m} after history {trace:?}", trace.last().unwrap());
        match kind {
            0 | 1 => {
                let mut fresh = vec![O::N::zero(); rows];
                let okf = eval_tree_array_into(&mut fresh, &e, x.view(), &mut EvalContext::<O::N, D>::new(rows), &o);
                let mut out = vec![O::N::of(7.0); rows];
                let ok = if kind == 0 {
                    eval_tree_array_into(&mut out, &e, x.view(), &mut ec, &o)
                } else {
                    let plan = compile_plan::<D>(&e.nodes, nf, cs.len());
                    eval_plan_array_into(&mut out, &plan, &e, x.view(), &mut scratch, &o)
                };
                ensure!(ok == okf, "{}", ctx(&format!("complete={ok}, fresh call says {okf}")));
                seen_incomplete |= !ok;
                if ok || !o.early_exit {
                    for r in 0..rows {
                        ensure!(out[r].same(fresh[r]), "{}", ctx(&format!("row {r} = {:?}, fresh call gives {:?}", out[r], fresh[r])));
                    }
                }
            }
            2 => {
                let dir = s.below(nf);
                let a = eval_diff_tree_array(&e, x.view(), dir, &mut dc, &o);
                let b = eval_diff_tree_array(&e, x.view(), dir, &mut DiffContext::new(rows), &o);
                ensure!(a.2 == b.2, "{}", ctx("completeness differs from a fresh call"));
                seen_incomplete |= !a.2;
                for r in 0..rows {
                    ensure!(a.0[r].same(b.0[r]) && a.1[r].same(b.1[r]), "{}", ctx(&format!("row {r}: ({:?},{:?}) vs fresh ({:?},{:?})", a.0[r], a.1[r], b.0[r], b.1[r])));
                }
            }
            _ => {
                let variable = kind == 3;
                let a = eval_grad_tree_array(&e, x.view(), variable, &mut gc, &o);
                let b = eval_grad_tree_array(&e, x.view(), variable, &mut GradContext::new(rows), &o);
                ensure!(a.2 == b.2 && a.1.n_dir == b.1.n_dir && a.1.n_rows == b.1.n_rows && a.1.data.len() == b.1.data.len(), "{}", ctx("shape or completeness differs from a fresh call"));
                seen_incomplete |= !a.2;
                for r in 0..rows {
                    ensure!(a.0[r].same(b.0[r]), "{}", ctx(&format!("row {r}: {:?} vs fresh {:?}", a.0[r], b.0[r])));
                }
                for i in 0..a.1.data.len() {
                    ensure!(a.1.data[i].same(b.1.data[i]), "{}", ctx(&format!("gradient entry {i}: {:?} vs fresh {:?}", a.1.data[i], b.1.data[i])));
                }
            }
        }
    }
    c.describe(|| trace.join(" ; "));
    c.key(&trace);
    c.nontrivial_if(pool.len() >= 2 && n_steps >= 3);
    c.class_if(seen_incomplete, "history with an incomplete evaluation");
    Ok(())
}

/// Long expressions that differ in one place only, over operators that keep values finite.
fn reuse_large(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    type O = BuiltinOpsF64;
    let nf = s.range(1, 3);
    let ids: Vec<(u8, u16)> = O::ids().into_iter().filter(|i| ["add", "sub", "neg", "atan", "sin", "max"].contains(&O::name(OpId { arity: i.0, id: i.1 }))).collect();
    let t0 = gen_tree(s, &Cfg { n_features: nf, max_ops: 300, const_mode: 1, ids: ids.clone() });
    let nc = pool_len(s, &t0, true);
    let consts: Vec<f64> = (0..nc).map(|_| s.uniform(-3.0, 3.0)).collect();
    let base = t0.postfix();
    let rows = s.range(1, 6);
    let mut ec = EvalContext::<f64, 3>::new(rows);
    let mut dc = DiffContext::<f64, 3>::new(rows);
    let mut gc = GradContext::<f64, 3>::new(rows);
    let mut scratch = Array2::<f64>::zeros((0, 0));
    let x = gen_x::<f64>(s, nf, rows, 1);
    let n_steps = s.range(2, 7);
    let mut nodes = base.clone();
    let mut log = vec![];
    for step in 0..n_steps {
        if s.chance(1, 3) {
            nodes = base.clone();
        }
        if step > 0 {
            let k = s.below(nodes.len());
            nodes[k] = match nodes[k] {
                PNode::Op { arity, .. } => {
                    let same: Vec<u16> = ids.iter().filter(|i| i.0 == arity).map(|i| i.1).collect();
                    PNode::Op { arity, op: *s.pick(&same) }
                }
                _ if nc > 0 && s.bool() => PNode::Const { idx: s.below(nc) as u16 },
                _ => PNode::Var { feature: s.below(nf) as u16 },
            };
            log.push(k);
        }
        let e: PostfixExpr<f64, O, 3> = PostfixExpr::new(nodes.clone(), consts.clone(), Metadata::default());
        let o = EvalOptions { check_finite: true, early_exit: s.bool() };
        match s.below(4) {
            0 => {
                let mut out = vec![0.0; rows];
                let ok = eval_tree_array_into(&mut out, &e, x.view(), &mut ec, &o);
                let (want, okf) = eval_tree_array(&e, x.view(), &o);
                ensure!(ok == okf && (0..rows).all(|r| out[r].same(want[r])), "step {step} of one-node edits at {log:?} of {} nodes: {out:?}, fresh call gives {want:?}", nodes.len());
            }
            1 => {
                let plan = compile_plan::<3>(&e.nodes, nf, nc);
                let mut out = vec![0.0; rows];
                let ok = eval_plan_array_into(&mut out, &plan, &e, x.view(), &mut scratch, &o);
                let (want, okf) = eval_tree_array(&e, x.view(), &o);
                ensure!(ok == okf && (0..rows).all(|r| out[r].same(want[r])), "step {step} of one-node edits at {log:?} of {} nodes (plan): {out:?}, fresh call gives {want:?}", nodes.len());
            }
            2 => {
                let dir = s.below(nf);
                let a = eval_diff_tree_array(&e, x.view(), dir, &mut dc, &o);
                let b = eval_diff_tree_array(&e, x.view(), dir, &mut DiffContext::new(rows), &o);
                ensure!(a.2 == b.2 && (0..rows).all(|r| a.0[r].same(b.0[r]) && a.1[r].same(b.1[r])), "step {step} of one-node edits at {log:?} of {} nodes: derivative {:?}, fresh call gives {:?}", nodes.len(), a.1, b.1);
            }
            _ => {
                let variable = s.bool();
                let a = eval_grad_tree_array(&e, x.view(), variable, &mut gc, &o);
                let b = eval_grad_tree_array(&e, x.view(), variable, &mut GradContext::new(rows), &o);
                ensure!(a.2 == b.2 && a.1.n_dir == b.1.n_dir && a.1.data.len() == b.1.data.len() && (0..rows).all(|r| a.0[r].same(b.0[r])) && (0..a.1.data.len()).all(|i| a.1.data[i].same(b.1.data[i])), "step {step} of one-node edits at {log:?} of {} nodes: the gradient differs from a fresh call's", nodes.len());
            }
        }
    }
    c.describe(|| format!("{} nodes, {nc} constants, one-node edits at {log:?}", base.len()));
    c.key(&(base.len(), log.clone(), t0.shape_key()));
    c.nontrivial_if(base.len() >= 5 && n_steps >= 3);
    c.class_if(base.len() > 64, "more than 64 nodes");
    Ok(())
}

/// Same shape, other operators of the same arity / other features.
fn retarget(s: &mut Source, t: &mut Tree, ids: &[(u8, u16)], nf: usize) {
    match t {
        Tree::Var(f) => {
            if s.bool() {
                *f = s.below(nf) as u16;
            }
        }
        Tree::Const(_) => {}
        Tree::Op(a, o, ch) => {
            if s.bool() {
                let same: Vec<u16> = ids.iter().filter(|i| i.0 == *a).map(|i| i.1).collect();
                *o = *s.pick(&same);
            }
            for c in ch {
                retarget(s, c, ids, nf);
            }
        }
    }
}
fn e03_b64(s: &mut Source, c: &mut Case) -> PropResult {
    reuse::<BuiltinOpsF64, 3>(s, c)
}
fn e03_k5(s: &mut Source, c: &mut Case) -> PropResult {
    reuse::<Kit5, 5>(s, c)
}
fn e03_k24(s: &mut Source, c: &mut Case) -> PropResult {
    reuse::<Kit24, 4>(s, c)
}

fn e03_feat_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(3) {
        0 => reuse::<BuiltinOpsF64, 3>(s, c),
        1 => reuse::<Kit5, 5>(s, c),
        _ => reuse::<Kit24, 4>(s, c),
    }
}
/// Hundreds of features.
fn e03_feat(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, e03_feat_case)
}

pub fn e03() -> Property {
    Property {
        id: "E03",
        rule: "non-trivial = a history of at least 3 calls over at least 2 different expressions on the same contexts; distinct = different call history",
        assumptions: &["after an early stop the caller's output buffer is unspecified (its completeness verdict is compared, its contents are not)", "contexts are resized by setting their n_rows, as the engine does"],
        subs: vec![
            Sub { name: "builtin-f64", quick: 750_000, thorough: 45_000_000, tape: 220, shards: 0, f: e03_b64 },
            Sub { name: "custom-1to5", quick: 360_000, thorough: 18_000_000, tape: 220, shards: 0, f: e03_k5 },
            Sub { name: "custom-2-4-f32", quick: 240_000, thorough: 12_000_000, tape: 220, shards: 0, f: e03_k24 },
            Sub { name: "long-near-identical", quick: 40_000, thorough: 1_500_000, tape: 60, shards: 0, f: reuse_large },
            Sub { name: "hash-twins", quick: 30_000, thorough: 1_000_000, tape: 60, shards: 0, f: crate::deep::twins },
            Sub { name: "rows", quick: 20_000, thorough: 600_000, tape: 30, shards: 0, f: e03_rows },
            Sub { name: "features", quick: 100_000, thorough: 4_000_000, tape: 40, shards: 0, f: e03_feat },
        ],
    }
}
