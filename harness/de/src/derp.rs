//! E04 derivatives, E05 custom operator sets.
use crate::evalp::{gen_case, many_rows, opts, Ex, OFF};
use crate::ops::*;
use crate::tree::*;
use dynamic_expressions::num_traits::{Float, One, Zero};
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::*;
use ndarray::Array2;
use vcommon::{ensure, Case, PropResult, Property, Source, Sub};

enum Truth {
    Val(f64),
    /// a subgradient in [lo, hi] at a kink
    In(f64, f64),
    Skip,
}
use Truth::*;

fn partial_truth(name: &str, a: &[f64], j: usize) -> Truth {
    let x = a[0];
    let (y, z) = (a.get(1).copied().unwrap_or(0.0), a.get(2).copied().unwrap_or(0.0));
    let v = match name {
        "abs" => if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { return In(-1.0, 1.0) },
        "abs2" => x + x,
        "acos" => -1.0 / ((1.0 - x) * (1.0 + x)).sqrt(),
        "acosh" => if x <= 1.0 { return Skip } else { 1.0 / ((x - 1.0) * (x + 1.0)).sqrt() },
        "asin" => 1.0 / ((1.0 - x) * (1.0 + x)).sqrt(),
        "asinh" => 1.0 / (1.0 + x * x).sqrt(),
        "atan" => 1.0 / (1.0 + x * x),
        "atanh" => if x.abs() >= 1.0 { return Skip } else { 1.0 / ((1.0 - x) * (1.0 + x)) },
        "cbrt" => if x == 0.0 { return Skip } else { x.cbrt() / (3.0 * x) },
        "cos" => -x.sin(),
        "cosh" => x.sinh(),
        "cot" => -1.0 / x.sin().powi(2),
        "csc" => -x.cos() / x.sin().powi(2),
        "exp" | "expm1" => x.exp(),
        "exp2" => std::f64::consts::LN_2 * x.exp2(),
        "identity" => 1.0,
        "inv" => -1.0 / (x * x),
        "log" => if x <= 0.0 { return Skip } else { 1.0 / x },
        "log1p" => if x <= -1.0 { return Skip } else { 1.0 / (1.0 + x) },
        "log2" => if x <= 0.0 { return Skip } else { std::f64::consts::LOG2_E / x },
        "log10" => if x <= 0.0 { return Skip } else { std::f64::consts::LOG10_E / x },
        "neg" => -1.0,
        "sec" => x.sin() / x.cos().powi(2),
        "sign" => if x == 0.0 { return Skip } else { 0.0 },
        "sin" => x.cos(),
        "sinh" => x.cosh(),
        "sqrt" => if x <= 0.0 { return Skip } else { 0.5 / x.sqrt() },
        "tan" => 1.0 + x.tan().powi(2),
        "tanh" => 1.0 / x.cosh().powi(2),
        "add" => 1.0,
        "sub" => [1.0, -1.0][j],
        "mul" => [y, x][j],
        "div" => if j == 0 { 1.0 / y } else { -(x / y) / y },
        "atan2" => if x == 0.0 && y == 0.0 { return Skip } else if j == 0 { y / (x * x + y * y) } else { -x / (x * x + y * y) },
        "max" => if x == y { return In(0.0, 1.0) } else if (x > y) == (j == 0) { 1.0 } else { 0.0 },
        "min" => if x == y { return In(0.0, 1.0) } else if (x < y) == (j == 0) { 1.0 } else { 0.0 },
        "pow" => {
            let int = y == y.trunc();
            if j == 0 {
                if x > 0.0 || (x < 0.0 && int) {
                    if y == 0.0 { 0.0 } else { y * x.powf(y - 1.0) }
                } else if x == 0.0 && (y > 1.0 || y == 0.0) {
                    0.0
                } else if x == 0.0 && y == 1.0 {
                    1.0
                } else {
                    return Skip;
                }
            } else if x > 0.0 {
                x.powf(y) * x.ln()
            } else if x == 0.0 && y > 0.0 {
                0.0
            } else {
                return Skip;
            }
        }
        "clamp" => {
            if x == y || x == z || y == z { return In(0.0, 1.0); }
            let which = if x < y { 1 } else if x > z { 2 } else { 0 };
            if which == j { 1.0 } else { 0.0 }
        }
        "fma" => [y, x, 1.0][j],
        _ => panic!("harness: {name}"),
    };
    if v.is_nan() { Skip } else { Val(v) }
}

fn single<O: TestOps>(s: &mut Source, c: &mut Case, table: Vec<(u8, &'static str, u16)>) -> PropResult {
    let (ar, name, id) = *s.pick(&table);
    let n = ar as usize;
    let ident = table.iter().find(|t| t.1 == "identity").unwrap().2;
    let rows = s.range(1, 4);
    let mode = *s.pick(&[0usize, 0, 1, 4]);
    let scale = (s.int(-6, 6) as f64).exp2();
    let scale = if s.chance(1, 3) { scale } else { 1.0 };
    let mut x = Array2::<O::N>::zeros((n, rows));
    for v in x.iter_mut() {
        *v = O::N::of(gen_num(s, mode) * scale);
    }
    let mut consts: Vec<O::N> = vec![];
    let mut nodes = vec![];
    let mut kinds: Vec<char> = vec![];
    for j in 0..n {
        match s.below(3) {
            0 => {
                nodes.push(PNode::Var { feature: j as u16 });
                kinds.push('v');
            }
            1 => {
                consts.push(O::N::of(gen_num(s, mode)));
                nodes.push(PNode::Const { idx: (consts.len() - 1) as u16 });
                kinds.push('c');
            }
            _ => {
                nodes.push(PNode::Var { feature: j as u16 });
                nodes.push(PNode::Op { arity: 1, op: ident });
                kinds.push('s');
            }
        }
    }
    nodes.push(PNode::Op { arity: ar, op: id });
    let e: PostfixExpr<O::N, O, 3> = PostfixExpr::new(nodes, consts.clone(), Metadata::default());
    c.describe(|| format!("d {name} kinds={kinds:?} x={x:?} consts={consts:?}"));
    c.key(&(name, &kinds, format!("{x:?}{consts:?}")));
    c.class(name);
    let (_, gx, _) = eval_grad_tree_array(&e, x.view(), true, &mut GradContext::new(rows), &OFF);
    let (_, gc, _) = eval_grad_tree_array(&e, x.view(), false, &mut GradContext::new(rows), &OFF);
    let mut fwd: Vec<Vec<O::N>> = vec![];
    for d in 0..n {
        fwd.push(eval_diff_tree_array(&e, x.view(), d, &mut DiffContext::new(rows), &OFF).1);
    }
    let eps = O::N::EPS;
    for r in 0..rows {
        let mut k = 0;
        let args: Vec<f64> = kinds
            .iter()
            .enumerate()
            .map(|(j, ch)| {
                if *ch == 'c' {
                    k += 1;
                    consts[k - 1].f()
                } else {
                    x[(j, r)].f()
                }
            })
            .collect();
        let mut k = 0;
        for j in 0..n {
            let mut got: Vec<(&str, f64)> = vec![];
            if kinds[j] == 'c' {
                got.push(("constant gradient", gc.data[k * rows + r].f()));
                k += 1;
            } else {
                got.push(("variable gradient", gx.data[j * rows + r].f()));
                got.push(("forward derivative", fwd[j][r].f()));
            }
            let (lo, hi, tol, show) = match partial_truth(name, &args, j) {
                Skip => continue,
                In(lo, hi) => (lo, hi, 1e-9, format!("a subgradient in [{lo},{hi}]")),
                Val(v) => {
                    if v.abs() > 1e25 || (v != 0.0 && v.abs() < 1e-25) {
                        continue;
                    }
                    // backward-stable tolerance: as if every argument were off by a few eps
                    let mut tol = 64.0 * eps * v.abs() + 1e-36;
                    for m in 0..n {
                        let h = args[m].abs().max(1e-3) * 1e-5;
                        for sg in [-1.0, 1.0] {
                            let mut b = args.clone();
                            b[m] += sg * h;
                            if let Val(w) = partial_truth(name, &b, j) {
                                tol += 64.0 * eps * ((w - v) / h).abs() * args[m].abs().max(1e-3);
                            }
                        }
                    }
                    if !(tol < 1e-2 * v.abs().max(1e-3)) {
                        continue;
                    }
                    (v, v, tol, format!("{v:e}"))
                }
            };
            for (what, g) in got {
                ensure!(g >= lo - tol && g <= hi + tol, "{what} of {name}{args:?} w.r.t. argument {j} is {g:e}, true partial is {show} ({} bit)", O::N::BITS);
            }
            c.nontrivial();
        }
        // variables that are not in the expression
        for j in 0..n {
            if kinds[j] == 'c' {
                ensure!(gx.data[j * rows + r].f() == 0.0 && fwd[j][r].f() == 0.0, "derivative of {name}{args:?} w.r.t. an absent variable is {:?}/{:?}", gx.data[j * rows + r], fwd[j][r]);
            }
        }
    }
    Ok(())
}
fn single64(s: &mut Source, c: &mut Case) -> PropResult {
    single::<BuiltinOpsF64>(s, c, builtin_table())
}
fn single32(s: &mut Source, c: &mut Case) -> PropResult {
    single::<BuiltinOpsF32>(s, c, builtin_table32())
}

#[derive(Clone)]
struct Der {
    d: f64,
    err: f64,
    poison: bool,
    dep: bool,
}

/// Chain rule bottom-up for one row over all directions (features or constants), with an error bound.
fn chain<O: TestOps>(t: &Tree, x: &Array2<O::N>, row: usize, consts: &[O::N], variable: bool, nd: usize) -> (O::N, Vec<Der>) {
    let none = Der { d: 0.0, err: 0.0, poison: false, dep: false };
    let one = Der { d: 1.0, err: 0.0, poison: false, dep: true };
    let (eps, tiny) = (O::N::EPS, if O::N::BITS == 32 { 1e-37 } else { 1e-300 });
    let big = if O::N::BITS == 32 { 1e36 } else { 1e300 };
    let mut ds = vec![none.clone(); nd];
    match t {
        Tree::Var(f) => {
            if variable {
                ds[*f as usize] = one;
            }
            (x[(*f as usize, row)], ds)
        }
        Tree::Const(i) => {
            if !variable {
                ds[*i as usize] = one;
            }
            (consts[*i as usize], ds)
        }
        Tree::Op(a, o, ch) => {
            let sub: Vec<_> = ch.iter().map(|c| chain::<O>(c, x, row, consts, variable, nd)).collect();
            let args: Vec<O::N> = sub.iter().map(|s| s.0).collect();
            let op = OpId { arity: *a, id: *o };
            let v = O::rf(op, &args);
            let ps: Vec<f64> = (0..args.len()).map(|j| O::rp(op, &args, j).f()).collect();
            for (k, out) in ds.iter_mut().enumerate() {
                let mut mag = 0.0;
                for (j, s) in sub.iter().enumerate() {
                    let dj = &s.1[k];
                    if !dj.dep {
                        continue;
                    }
                    out.dep = true;
                    out.poison |= dj.poison || !ps[j].is_finite();
                    let term = ps[j] * dj.d;
                    mag += term.abs();
                    out.d += term;
                    out.err += ps[j].abs() * dj.err;
                }
                out.err += 8.0 * eps * mag + if out.dep { tiny } else { 0.0 };
                out.poison |= !(mag < big) || !(out.err < big);
            }
            (v, ds)
        }
    }
}

fn chain_rule<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult {
    let mode = *s.pick(&[1usize, 4, 0, 2]);
    let ex = gen_case::<O>(s, 14, 5, 0, Some(mode));
    chain_on::<O, D>(s, c, ex)
}
fn chain_rows(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    let rows = many_rows(s).min(3000);
    let mode = Some(*s.pick(&[1usize, 4]));
    c.class_if(rows > 1024, "more than 1024 rows");
    match s.below(5) {
        0 => { let ex = gen_case::<BuiltinOpsF64>(s, 4, rows, rows, mode); chain_on::<BuiltinOpsF64, 3>(s, c, ex) }
        1 => { let ex = gen_case::<BuiltinOpsF32>(s, 4, rows, rows, mode); chain_on::<BuiltinOpsF32, 3>(s, c, ex) }
        2 | 3 => { let ex = gen_case::<Kit5>(s, 4, rows, rows, mode); chain_on::<Kit5, 5>(s, c, ex) }
        _ => { let ex = gen_case::<Kit24>(s, 4, rows, rows, mode); chain_on::<Kit24, 4>(s, c, ex) }
    }
}
fn chain_on<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, ex: Ex<O::N>) -> PropResult {
    let e: PostfixExpr<O::N, O, D> = expr(&ex.t, ex.consts.clone());
    let rows = ex.x.ncols();
    let nf = ex.x.nrows();
    c.describe(|| if rows < 20 { format!("{} on x={:?}", show_o::<O>(&ex.t, &ex.consts), ex.x) } else { format!("{} on {rows} rows", show_o::<O>(&ex.t, &ex.consts)) });
    c.key(&(ex.t.shape_key(), rows, nf));
    let o = if s.bool() { OFF } else { opts(s.below(4)) };
    let (want, _) = reval_all::<O>(&ex.t, &ex.x, &ex.consts);
    let mut compared = 0;
    for variable in [true, false] {
        let nd = if variable { nf } else { ex.consts.len() };
        let (gv, g, ok) = eval_grad_tree_array(&e, ex.x.view(), variable, &mut GradContext::new(rows), &o);
        ensure!(g.n_dir == nd && g.n_rows == rows && g.data.len() == nd * rows, "gradient matrix has shape {}x{} ({}), expected {nd}x{rows}", g.n_dir, g.n_rows, g.data.len());
        let mut fwd = vec![];
        if variable {
            for d in 0..nf {
                fwd.push(eval_diff_tree_array(&e, ex.x.view(), d, &mut DiffContext::new(rows), &o));
            }
        }
        for r in 0..rows {
            let (_, ds) = chain::<O>(&ex.t, &ex.x, r, &ex.consts, variable, nd);
            if ok {
                ensure!(gv[r].same(want[r]), "gradient call returns value {:?} at row {r}, plain value is {:?}", gv[r], want[r]);
            }
            for (k, d) in ds.iter().enumerate() {
                if d.poison {
                    continue;
                }
                let mut got = vec![];
                if ok {
                    got.push(("gradient", g.data[k * rows + r].f()));
                }
                if variable && fwd[k].2 {
                    got.push(("forward derivative", fwd[k].1[r].f()));
                    ensure!(fwd[k].0[r].same(want[r]), "forward derivative returns value {:?} at row {r}, plain value is {:?}", fwd[k].0[r], want[r]);
                }
                for (what, v) in got {
                    if !d.dep {
                        ensure!(v == 0.0, "{what} w.r.t. {} {k} at row {r} is {v:e}, but the expression does not depend on it", if variable { "feature" } else { "constant" });
                    } else {
                        ensure!((v - d.d).abs() <= 4.0 * d.err + 1e-290, "{what} w.r.t. {} {k} at row {r} is {v:e}, chain rule gives {:e} (error bound {:e})", if variable { "feature" } else { "constant" }, d.d, d.err);
                        compared += 1;
                    }
                }
            }
        }
    }
    c.nontrivial_if(compared > 0 && ex.t.ops() > 0);
    c.class_if(ex.t.ops() >= 5, "5+ ops");
    Ok(())
}
fn chain_b64(s: &mut Source, c: &mut Case) -> PropResult {
    chain_rule::<BuiltinOpsF64, 3>(s, c)
}
fn chain_b32(s: &mut Source, c: &mut Case) -> PropResult {
    chain_rule::<BuiltinOpsF32, 3>(s, c)
}
fn chain_k5(s: &mut Source, c: &mut Case) -> PropResult {
    chain_rule::<Kit5, 5>(s, c)
}
fn chain_k24(s: &mut Source, c: &mut Case) -> PropResult {
    chain_rule::<Kit24, 4>(s, c)
}

fn chain_feat_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(4) {
        0 => chain_rule::<BuiltinOpsF64, 3>(s, c),
        1 => chain_rule::<BuiltinOpsF32, 3>(s, c),
        2 => chain_rule::<Kit5, 5>(s, c),
        _ => chain_rule::<Kit24, 4>(s, c),
    }
}
/// Hundreds of features.
fn chain_feat(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, chain_feat_case)
}

/// Gradients of larger problems: many features/constants/rows (index arithmetic).
fn chain_large(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    let nf = s.range(1, 40);
    let rows = s.range(1, 300);
    let ids: Vec<(u8, u16)> = Kit5::ids();
    let t = gen_tree(s, &Cfg { n_features: nf, max_ops: 60, const_mode: 1, ids });
    let nc = pool_len(s, &t, true);
    let consts: Vec<f64> = (0..nc).map(|_| s.uniform(0.2, 3.0)).collect();
    let x = gen_x::<f64>(s, nf, rows, 4);
    let e: PostfixExpr<f64, Kit5, 5> = expr(&t, consts.clone());
    c.describe(|| format!("{} nodes, {nf} features, {nc} constants, {rows} rows", t.size()));
    c.nontrivial_if(t.ops() > 0);
    for variable in [true, false] {
        let nd = if variable { nf } else { nc };
        let (_, g, _) = eval_grad_tree_array(&e, x.view(), variable, &mut GradContext::new(rows), &OFF);
        for r in 0..rows {
            let (_, ds) = chain::<Kit5>(&t, &x, r, &consts, variable, nd);
            for (k, d) in ds.iter().enumerate() {
                let v = g.data[k * rows + r];
                ensure!(d.poison || (v - d.d).abs() <= 4.0 * d.err + 1e-290, "direction {k} row {r}: {v:e}, chain rule gives {:e}", d.d);
            }
        }
    }
    Ok(())
}

pub fn e04() -> Property {
    Property {
        id: "E04",
        rule: "non-trivial = at least one dependent derivative was compared at a differentiable point; distinct = different operator/operands/inputs (single) or different tree shape and size (chain rule)",
        assumptions: &["single-operator partials are compared with independent closed forms in f64 under a backward-error tolerance", "the chain rule is compared using the declared local partials with a running error bound; entries where a needed local partial is not finite are not compared"],
        subs: vec![
            Sub { name: "operator-f64", quick: 750_000, thorough: 30_000_000, tape: 60, shards: 0, f: single64 },
            Sub { name: "operator-f32", quick: 750_000, thorough: 30_000_000, tape: 60, shards: 0, f: single32 },
            Sub { name: "chain-builtin-f64", quick: 750_000, thorough: 30_000_000, tape: 160, shards: 0, f: chain_b64 },
            Sub { name: "chain-builtin-f32", quick: 500_000, thorough: 15_000_000, tape: 160, shards: 0, f: chain_b32 },
            Sub { name: "chain-custom-1to5", quick: 500_000, thorough: 15_000_000, tape: 160, shards: 0, f: chain_k5 },
            Sub { name: "chain-custom-2-4-f32", quick: 300_000, thorough: 10_000_000, tape: 160, shards: 0, f: chain_k24 },
            Sub { name: "large", quick: 2_000, thorough: 100_000, tape: 30, shards: 0, f: chain_large },
            Sub { name: "rows", quick: 8_000, thorough: 250_000, tape: 20, shards: 0, f: chain_rows },
            Sub { name: "features", quick: 30_000, thorough: 1_200_000, tape: 30, shards: 0, f: chain_feat },
            Sub { name: "deep-chains", quick: 2_000, thorough: 80_000, tape: 60, shards: 0, f: crate::deep::derive_deep },
        ],
    }
}

// ---------------------------------------------------------------- E05
type Meta = Vec<(u8, u16, &'static str, &'static str, Option<&'static str>, bool, bool, u16)>;

fn declared<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, meta: Meta) -> PropResult {
    let (ar, id, name, disp, infix, com, assoc, cx) = *s.pick(&meta);
    let op = OpId { arity: ar, id };
    let n = ar as usize;
    // metadata
    let m = O::meta(op).ok_or_else(|| format!("no metadata for {name}"))?;
    ensure!(m.arity == ar && m.id == id && m.name == name && m.display == disp && m.infix == infix && m.commutative == com && m.associative == assoc && m.complexity == cx, "{name} declared as display {disp} infix {infix:?} {com} {assoc} {cx}, reported as {m:?}");
    ensure!(O::name(op) == name && O::display(op) == disp && O::infix(op) == infix && O::commutative(op) == com && O::associative(op) == assoc && O::complexity(op) == cx, "accessors for {name} disagree with its declaration");
    // identifiers are one-to-one with the declared operators, per arity
    for a in 0..=8u8 {
        let mut want: Vec<u16> = meta.iter().filter(|m| m.0 == a).map(|m| m.1).collect();
        let mut got = O::ops_with_arity(a).to_vec();
        want.sort();
        got.sort();
        ensure!(want == got, "arity {a}: identifiers {got:?}, declared operators have {want:?}");
        let mut uniq = want.clone();
        uniq.dedup();
        ensure!(uniq.len() == want.len(), "two operators share an identifier at arity {a}: {want:?}");
    }
    ensure!(O::MAX_ARITY == meta.iter().map(|m| m.0).max().unwrap(), "MAX_ARITY {}", O::MAX_ARITY);
    let mut seen = vec![];
    O::for_each_op(|o| seen.push((o.arity, o.id)));
    seen.sort();
    let mut all: Vec<(u8, u16)> = meta.iter().map(|m| (m.0, m.1)).collect();
    all.sort();
    ensure!(seen == all, "enumeration gives {seen:?}, declared {all:?}");
    // lookup of its own tokens
    for tok in [Some(name), Some(disp), infix].into_iter().flatten() {
        ensure!(O::lookup_all(tok).contains(&op), "token {tok:?} of {name} does not look it up");
        let same: Vec<_> = meta.iter().filter(|m| m.0 == ar && (m.2.eq_ignore_ascii_case(tok) || m.3 == tok || m.4 == Some(tok))).collect();
        if same.len() == 1 {
            ensure!(O::lookup_with_arity(tok, ar).ok() == Some(op), "token {tok:?} with arity {ar} does not give {name}");
        }
    }
    // behaviour
    let rows = s.range(1, 4);
    let mode = *s.pick(&[0usize, 1, 4, 2]);
    let nf = n;
    let x = gen_x::<O::N>(s, nf, rows, mode);
    let mut t = vec![];
    let mut consts = vec![];
    for j in 0..n {
        if s.chance(1, 3) {
            consts.push(O::N::of(gen_num(s, mode)));
            t.push(Tree::Const((consts.len() - 1) as u16));
        } else {
            t.push(Tree::Var(j as u16));
        }
    }
    let t = Tree::Op(ar, id, t);
    let e: PostfixExpr<O::N, O, D> = expr(&t, consts.clone());
    c.describe(|| format!("{name} (arity {ar}, id {id}) {} x={x:?}", show_o::<O>(&t, &consts)));
    c.key(&(name, ar, format!("{x:?}{consts:?}")));
    c.nontrivial();
    c.class(name);
    let (got, _) = eval_tree_array(&e, x.view(), &OFF);
    let (_, gx, _) = eval_grad_tree_array(&e, x.view(), true, &mut GradContext::new(rows), &OFF);
    let (_, gc, _) = eval_grad_tree_array(&e, x.view(), false, &mut GradContext::new(rows), &OFF);
    let Tree::Op(_, _, ch) = &t else { unreachable!() };
    for r in 0..rows {
        let args: Vec<O::N> = ch
            .iter()
            .map(|c| match c {
                Tree::Var(f) => x[(*f as usize, r)],
                Tree::Const(i) => consts[*i as usize],
                _ => unreachable!(),
            })
            .collect();
        let v = O::rf(op, &args);
        ensure!(got[r].same(v), "{name}{args:?} evaluates to {:?}, declared function gives {v:?}", got[r]);
        for (j, chj) in ch.iter().enumerate() {
            let p = O::rp(op, &args, j);
            if !p.is_finite() || (0..n).any(|k| !O::rp(op, &args, k).is_finite()) {
                continue;
            }
            let (what, g) = match chj {
                Tree::Var(f) => ("variable", gx.data[*f as usize * rows + r]),
                Tree::Const(i) => ("constant", gc.data[*i as usize * rows + r]),
                _ => unreachable!(),
            };
            ensure!((g.f() - p.f()).abs() <= 1e-30, "{what} gradient of {name}{args:?} w.r.t. argument {j} is {g:?}, declared partial is {p:?}");
            if let Tree::Var(f) = chj {
                let d = eval_diff_tree_array(&e, x.view(), *f as usize, &mut DiffContext::new(rows), &OFF).1[r];
                ensure!((d.f() - p.f()).abs() <= 1e-30, "forward derivative of {name}{args:?} w.r.t. argument {j} is {d:?}, declared partial is {p:?}");
            }
        }
    }
    let _ = (O::N::zero(), O::N::one());
    // printing uses the declared tokens
    for pretty in [false, true] {
        let tok = if pretty { disp } else { infix.unwrap_or(name) };
        let parts: Vec<String> = ch
            .iter()
            .map(|c| match c {
                Tree::Var(f) => format!("x{f}"),
                Tree::Const(i) => format!("{}", consts[*i as usize]),
                _ => unreachable!(),
            })
            .collect();
        let want = if infix.is_some() && ar > 1 { parts.join(&format!(" {tok} ")) } else { format!("{tok}({})", parts.join(", ")) };
        let got = string_tree(&e, StringTreeOptions { variable_names: None, pretty });
        ensure!(got == want, "{name} prints as {got:?}, its declared tokens give {want:?} (pretty={pretty})");
    }
    Ok(())
}
fn decl_k5(s: &mut Source, c: &mut Case) -> PropResult {
    declared::<Kit5, 5>(s, c, kit5_meta())
}
fn decl_k24(s: &mut Source, c: &mut Case) -> PropResult {
    declared::<Kit24, 4>(s, c, kit24_meta())
}
fn decl_ints(s: &mut Source, c: &mut Case) -> PropResult {
    declared::<Ints, 3>(s, c, ints_meta())
}
fn decl_many(s: &mut Source, c: &mut Case) -> PropResult {
    declared::<Many, 2>(s, c, many_meta())
}

pub fn e05() -> Property {
    Property {
        id: "E05",
        rule: "every case is non-trivial: one declared operator is evaluated, differentiated, printed, looked up and described; distinct = different operator or inputs",
        assumptions: &["the operator sets are declared at compile time: arities 1 to 5 out of order, sparse arities 2 and 4 in f32, sets whose ids coincide across arities, and a set of 60 operators"],
        subs: vec![
            Sub { name: "arities-1to5", quick: 900_000, thorough: 30_000_000, tape: 60, shards: 0, f: decl_k5 },
            Sub { name: "sparse-2-4-f32", quick: 600_000, thorough: 15_000_000, tape: 60, shards: 0, f: decl_k24 },
            Sub { name: "shared-ids", quick: 600_000, thorough: 15_000_000, tape: 60, shards: 0, f: decl_ints },
            Sub { name: "sixty-operators", quick: 600_000, thorough: 15_000_000, tape: 60, shards: 0, f: decl_many },
        ],
    }
}
