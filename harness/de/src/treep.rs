//! E06 simplification, E07 constants, E08 measures, E09 printing, E10 algebra.
use crate::reader::{Pt, P};
use crate::evalp::OFF;
use crate::ops::*;
use crate::tree::*;
use dynamic_expressions::operator_enum::builtin;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::*;
use std::collections::HashSet;
use vcommon::{ensure, Case, PropResult, Property, Source, Sub};

// ---------------------------------------------------------------- E06
fn features(t: &Tree, out: &mut HashSet<u16>) {
    match t {
        Tree::Var(f) => {
            out.insert(*f);
        }
        Tree::Op(_, _, ch) => ch.iter().for_each(|c| features(c, out)),
        _ => {}
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Which {
    All,
    Fold,
    Combine,
}

fn apply<O: TestOps, const D: usize>(w: Which, e: &mut PostfixExpr<O::N, O, D>, o: &EvalOptions) -> bool {
    match w {
        Which::All => simplify_in_place(e, o),
        Which::Fold => simplify_tree_in_place(e, o),
        Which::Combine => combine_operators_in_place(e),
    }
}

/// Structural half: returns the trees before and after.
fn structure<O: TestOps, const D: usize>(before: &PostfixExpr<O::N, O, D>, after: &PostfixExpr<O::N, O, D>, changed: bool, what: &str) -> Result<(Tree, Tree), String> {
    let t0 = parse(&before.nodes).expect("harness tree");
    let Some(t1) = parse(&after.nodes) else { return Err(format!("{what} of {} produced an ill-formed sequence {:?}", show_o::<O>(&t0, &before.consts), after.nodes)) };
    let s0 = || show_o::<O>(&t0, &before.consts);
    let mut bad = None;
    let mut tt = t1.clone();
    tt.map_consts(&mut |i| {
        if *i as usize >= after.consts.len() {
            bad = Some(*i);
        }
    });
    ensure!(bad.is_none(), "{what} of {} refers to constant {bad:?} of {}", s0(), after.consts.len());
    ensure!(t1.size() <= t0.size(), "{what} of {} grew it from {} to {} nodes", s0(), t0.size(), t1.size());
    ensure!(t1.depth() <= t0.depth(), "{what} of {} deepened it from {} to {}", s0(), t0.depth(), t1.depth());
    let (mut f0, mut f1) = (HashSet::new(), HashSet::new());
    features(&t0, &mut f0);
    features(&t1, &mut f1);
    ensure!(f1.is_subset(&f0), "{what} of {} introduced variables {f1:?}", s0());
    if !changed {
        let same = before.nodes == after.nodes && before.consts.len() == after.consts.len() && before.consts.iter().zip(&after.consts).all(|(a, b)| a.same(*b));
        ensure!(same, "{what} of {} reported no change but produced {}", s0(), show_o::<O>(&t1, &after.consts));
    }
    ensure!(before.meta.variable_names == after.meta.variable_names, "{what} changed the variable names");
    Ok((t0, t1))
}

fn max_mag(t: &Tree, x: &ndarray::Array2<f64>, row: usize, consts: &[f64], m: &mut f64) -> f64 {
    match t {
        Tree::Op(a, o, ch) => {
            let args: Vec<f64> = ch.iter().map(|c| max_mag(c, x, row, consts, m)).collect();
            let v = Ints::rf(OpId { arity: *a, id: *o }, &args);
            *m = if v.is_finite() { m.max(v.abs()) } else { f64::INFINITY };
            v
        }
        Tree::Var(f) => x[(*f as usize, row)],
        Tree::Const(i) => consts[*i as usize],
    }
}

fn simp_exact(s: &mut Source, c: &mut Case) -> PropResult {
    simp_exact_n(s, c, 14)
}
/// Hundreds of nodes and constants, shared and unused entries.
fn simp_large(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    simp_exact_n(s, c, 400)
}
fn simp_exact_n(s: &mut Source, c: &mut Case, max_ops: usize) -> PropResult {
    let nf = s.range(1, 3);
    let all = Ints::ids();
    // +, -, * with varying density of opaque operators sharing their identifiers
    let arith: Vec<(u8, u16)> = all.iter().copied().filter(|i| i.0 == 2 && ["minus", "times", "plus"].contains(&Ints::name(OpId { arity: i.0, id: i.1 }))).collect();
    let ids: Vec<(u8, u16)> = match s.below(4) {
        0 => arith.clone(),
        1 => {
            let mut v = arith.clone();
            v.push(*s.pick(&all));
            v
        }
        2 => {
            let mut v = vec![*s.pick(&arith)];
            v.extend(all.iter().copied().filter(|i| i.0 != 2));
            v
        }
        _ => all.clone(),
    };
    let t = gen_tree(s, &Cfg { n_features: nf, max_ops, const_mode: 1, ids });
    let nc = pool_len(s, &t, true);
    let consts: Vec<f64> = (0..nc).map(|_| s.int(-7, 7) as f64).collect();
    let rows = 6;
    let x = ndarray::Array2::from_shape_fn((nf, rows), |_| s.int(-9, 9) as f64);
    let mut e: PostfixExpr<f64, Ints, 3> = expr(&t, consts.clone());
    if s.chance(1, 4) {
        e.meta.variable_names = (0..nf).map(|i| format!("v{i}")).collect();
    }
    let w = *s.pick(&[Which::All, Which::Fold, Which::Combine]);
    let o = crate::evalp::opts(3 - s.below(4));
    c.describe(|| format!("{w:?} of {} on {:?}", show_o::<Ints>(&t, &consts), x));
    let before = e.clone();
    let changed = apply(w, &mut e, &o);
    let (t0, t1) = structure(&before, &e, changed, &format!("{w:?}"))?;
    c.key(&(t0.shape_key(), format!("{w:?}")));
    c.nontrivial_if(changed);
    c.class_if(changed, "changed");
    c.class_if(t1.size() < t0.size(), "shrunk");
    let mut usable = 0;
    for r in 0..rows {
        let mut m = 0.0f64;
        let v0 = max_mag(&t0, &x, r, &before.consts, &mut m);
        if m > 1e12 {
            continue;
        }
        usable += 1;
        let mut fin = true;
        let v1 = reval::<Ints>(&t1, &x, r, &e.consts, &mut fin);
        ensure!(v0 == v1, "{w:?} turned {} (value {v0}) into {} (value {v1}) at x={:?}", show_o::<Ints>(&t0, &before.consts), show_o::<Ints>(&t1, &e.consts), x.column(r).to_vec());
    }
    c.class_if(usable == 0, "too large to compare exactly");
    // fixed point
    let mut e2 = before.clone();
    let lim = if t0.size() > 120 { 0 } else { 2 * t0.size() + 6 };
    let mut k = 0;
    while lim > 0 && simplify_in_place(&mut e2, &o) {
        k += 1;
        ensure!(k <= lim, "simplifying {} does not reach a fixed point in {lim} passes; it is now {}", show_o::<Ints>(&t0, &before.consts), show_o::<Ints>(&parse(&e2.nodes).unwrap(), &e2.consts));
    }
    let frozen = e2.clone();
    let again = lim > 0 && simplify_in_place(&mut e2, &o);
    ensure!(!again && frozen.nodes == e2.nodes && frozen.consts == e2.consts, "the fixed point of {} is not stable", show_o::<Ints>(&t0, &before.consts));
    Ok(())
}

/// (value, error bound, magnitude for cancellation); err = inf marks "not comparable".
fn run_err(t: &Tree, x: &ndarray::Array2<f64>, row: usize, consts: &[f64], names: &dyn Fn(OpId) -> &'static str) -> (f64, f64, f64) {
    let eps = f64::EPSILON;
    match t {
        Tree::Var(f) => {
            let v = x[(*f as usize, row)];
            (v, 0.0, v.abs())
        }
        Tree::Const(i) => {
            let v = consts[*i as usize];
            (v, 0.0, v.abs())
        }
        Tree::Op(a, o, ch) => {
            let sub: Vec<(f64, f64, f64)> = ch.iter().map(|c| run_err(c, x, row, consts, names)).collect();
            let op = OpId { arity: *a, id: *o };
            let args: Vec<f64> = sub.iter().map(|s| s.0).collect();
            let v = BuiltinOpsF64::rf(op, &args);
            let name = names(op);
            let mut err;
            let mut mag = v.abs();
            match name {
                "add" | "sub" => {
                    mag = sub[0].2 + sub[1].2;
                    err = sub[0].1 + sub[1].1 + 4.0 * eps * mag;
                }
                "neg" | "identity" | "abs" => {
                    mag = sub[0].2;
                    err = sub[0].1;
                }
                "max" | "min" | "clamp" => {
                    mag = sub.iter().map(|s| s.2).sum();
                    err = sub.iter().map(|s| s.1).fold(0.0, f64::max);
                }
                "mul" => err = sub[0].1 * args[1].abs() + sub[1].1 * args[0].abs() + sub[0].1 * sub[1].1 + 8.0 * eps * v.abs(),
                "sign" => err = if sub[0].1 == 0.0 { 0.0 } else { f64::INFINITY },
                _ => {
                    err = 8.0 * eps * v.abs();
                    for (j, s) in sub.iter().enumerate() {
                        if s.1 == 0.0 {
                            continue;
                        }
                        let p = BuiltinOpsF64::rp(op, &args, j);
                        if !p.is_normal() || s.1 > 1e-6 * s.0.abs() {
                            err = f64::INFINITY;
                        } else {
                            err += 4.0 * p.abs() * s.1;
                        }
                    }
                }
            }
            if !v.is_finite() || !(err < 1e-7 * (1.0 + v.abs())) {
                err = f64::INFINITY;
            }
            (v, err, mag)
        }
    }
}

fn simp_builtin(s: &mut Source, c: &mut Case) -> PropResult {
    let nf = s.range(1, 3);
    let tbl = builtin_table();
    let name_of = move |op: OpId| tbl.iter().find(|t| t.0 == op.arity && t.2 == op.id).unwrap().1;
    let all = BuiltinOpsF64::ids();
    let arith: Vec<(u8, u16)> = all.iter().copied().filter(|i| ["add", "sub", "mul"].contains(&name_of(OpId { arity: i.0, id: i.1 }))).collect();
    let mut ids = arith.clone();
    match s.below(3) {
        0 => {}
        1 => ids.extend((0..3).map(|_| *s.pick(&all)).collect::<Vec<_>>()),
        _ => {
            ids.extend(arith.clone());
            ids.extend(arith.clone());
            ids.extend(all.iter().copied());
        }
    }
    let t = gen_tree(s, &Cfg { n_features: nf, max_ops: 14, const_mode: 1, ids });
    let nc = pool_len(s, &t, true);
    let special = if s.chance(1, 8) { 3 } else { 20 };
    let consts: Vec<f64> = (0..nc).map(|_| if s.chance(1, special) { *s.pick(&[0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e200, -1e-200]) } else { s.tame(4.0) }).collect();
    let rows = 5;
    let x = gen_x::<f64>(s, nf, rows, 0);
    let mut e: PostfixExpr<f64, BuiltinOpsF64, 3> = expr(&t, consts.clone());
    let w = *s.pick(&[Which::All, Which::Fold, Which::Combine]);
    let o = crate::evalp::opts(3 - s.below(4));
    c.describe(|| format!("{w:?} of {} on {:?}", show_o::<BuiltinOpsF64>(&t, &consts), x));
    let before = e.clone();
    let changed = apply(w, &mut e, &o);
    let (t0, t1) = structure(&before, &e, changed, &format!("{w:?}"))?;
    c.key(&(t0.shape_key(), format!("{w:?}{consts:?}")));
    let mut compared = 0;
    let (ev, _) = eval_tree_array(&e, x.view(), &OFF);
    if matches!(w, Which::Fold) {
        // folding alone puts values in place of the subexpressions that have them: nothing moves, on
        // any row, whatever the constants are
        let (b, _) = eval_tree_array(&before, x.view(), &OFF);
        for r in 0..rows {
            ensure!(ev[r].same(b[r]), "folding turned {} (value {:?}) into {} (value {:?}) at x={:?}", show_o::<BuiltinOpsF64>(&t0, &before.consts), b[r], show_o::<BuiltinOpsF64>(&t1, &e.consts), ev[r], x.column(r).to_vec());
        }
    }
    for r in 0..rows {
        let (v0, err, _) = run_err(&t0, &x, r, &before.consts, &name_of);
        let mut fin = true;
        let vv = reval::<BuiltinOpsF64>(&t0, &x, r, &before.consts, &mut fin);
        if !fin || !err.is_finite() || consts.iter().any(|c| !c.is_finite() || (*c != 0.0 && !(1e-100..1e100).contains(&c.abs()))) {
            continue;
        }
        debug_assert!(vv == v0);
        compared += 1;
        let v1 = ev[r];
        ensure!((v1 - v0).abs() <= 8.0 * err + 1e-250, "{w:?} turned {} (value {v0:e}, rounding bound {err:e}) into {} (value {v1:e}) at x={:?}", show_o::<BuiltinOpsF64>(&t0, &before.consts), show_o::<BuiltinOpsF64>(&t1, &e.consts), x.column(r).to_vec());
    }
    c.nontrivial_if(changed && compared > 0);
    c.class_if(changed, "changed");
    c.class_if(t1.size() < t0.size(), "shrunk");
    if all_const_subtrees_finite(&t0, &before.consts) {
        let mut e2 = before.clone();
        let lim = 2 * t0.size() + 6;
        let mut k = 0;
        while simplify_in_place(&mut e2, &o) {
            k += 1;
            ensure!(k <= lim, "simplifying {} does not reach a fixed point in {lim} passes; it is now {}", show_o::<BuiltinOpsF64>(&t0, &before.consts), show_o::<BuiltinOpsF64>(&parse(&e2.nodes).unwrap(), &e2.consts));
        }
    }
    Ok(())
}

/// Every constant is of moderate size and every constant-only subtree has a finite value (also under
/// regrouping): otherwise an unfoldable pair of constants is swapped on every pass.
fn all_const_subtrees_finite(t: &Tree, consts: &[f64]) -> bool {
    fn go(t: &Tree, consts: &[f64]) -> (Option<f64>, bool) {
        match t {
            Tree::Var(_) => (None, true),
            Tree::Const(i) => {
                let v = consts[*i as usize];
                (Some(v), v.is_finite() && v.abs() < 1e20)
            }
            Tree::Op(a, o, ch) => {
                let sub: Vec<_> = ch.iter().map(|c| go(c, consts)).collect();
                let ok = sub.iter().all(|s| s.1);
                if sub.iter().all(|s| s.0.is_some()) {
                    let args: Vec<f64> = sub.iter().map(|s| s.0.unwrap()).collect();
                    let v = BuiltinOpsF64::rf(OpId { arity: *a, id: *o }, &args);
                    (Some(v), ok && v.is_finite() && v.abs() < 1e20)
                } else {
                    (None, ok)
                }
            }
        }
    }
    go(t, consts).1
}

pub fn e06() -> Property {
    Property {
        id: "E06",
        rule: "non-trivial = simplification changed the expression (builtin set: and at least one row was comparable); distinct = different tree shape and entry point (builtin set: and constants)",
        assumptions: &["exact oracle: integer-valued operator set in which every operation is exact, rows whose intermediate values exceed 1e12 are skipped", "floating-point oracle: running error bound over the original tree, ill-conditioned rows are skipped", "the fixed point is required where every constant-only subexpression is finite and below 1e20: the port keeps DynamicExpressions.jl's documented swap of an unfoldable constant pair"],
        subs: vec![
            Sub { name: "exact-integers", quick: 2_250_000, thorough: 108_000_000, tape: 140, shards: 0, f: simp_exact },
            Sub { name: "exact-large", quick: 20_000, thorough: 900_000, tape: 60, shards: 0, f: simp_large },
            Sub { name: "deep-chains", quick: 6_000, thorough: 240_000, tape: 60, shards: 0, f: crate::deep::simplify_deep },
            Sub { name: "builtin-f64", quick: 1_350_000, thorough: 72_000_000, tape: 140, shards: 0, f: simp_builtin },
        ],
    }
}

// ---------------------------------------------------------------- E07
fn constants(s: &mut Source, c: &mut Case) -> PropResult {
    constants_n(s, c, 20)
}
fn constants_large(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    constants_n(s, c, 600)
}
fn constants_n(s: &mut Source, c: &mut Case, max_ops: usize) -> PropResult {
    let nf = s.range(1, 3);
    let t = gen_tree(s, &Cfg { n_features: nf, max_ops, const_mode: 1, ids: Kit5::ids() });
    let nc = pool_len(s, &t, true);
    let consts: Vec<f64> = (0..nc).map(|_| s.wild()).collect();
    let e: PostfixExpr<f64, Kit5, 5> = expr(&t, consts.clone());
    c.describe(|| show_o::<Kit5>(&t, &consts));
    c.key(&(t.shape_key(), e.nodes.iter().filter_map(|n| if let PNode::Const { idx } = n { Some(*idx) } else { None }).collect::<Vec<_>>(), nc));
    c.nontrivial_if(nc >= 2);
    // read / write back
    let (vals, cref) = get_scalar_constants(&e);
    let mut e1 = e.clone();
    set_scalar_constants(&mut e1, &vals, &cref);
    ensure!(e1.nodes == e.nodes && e1.consts.len() == nc && (0..nc).all(|i| e1.consts[i].to_bits() == consts[i].to_bits()), "writing back the constants that were read changed {:?} into {:?}", consts, e1.consts);
    // every constant is readable: the values read are exactly the constants the expression holds
    ensure!(vals.len() == cref.const_indices.len(), "{} values but {} references", vals.len(), cref.const_indices.len());
    for i in (0..nc).take(40) {
        let mut e2 = e.clone();
        let mut v2 = vals.clone();
        if i >= v2.len() {
            return Err(format!("constant {i} is not among the {} values read", v2.len()));
        }
        v2[i] = 1234.5;
        set_scalar_constants(&mut e2, &v2, &cref);
        let diff: Vec<usize> = (0..nc).filter(|&k| e2.consts[k].to_bits() != consts[k].to_bits()).collect();
        let want = if consts[cref.const_indices[i]] == 1234.5 { vec![] } else { vec![cref.const_indices[i]] };
        ensure!(diff == want && e2.nodes == e.nodes, "writing value {i} changed positions {diff:?}");
    }
    if nc > 0 {
        let newv: Vec<f64> = (0..vals.len()).map(|_| s.wild()).collect();
        let mut e3 = e.clone();
        set_scalar_constants(&mut e3, &newv, &cref);
        let (back, _) = get_scalar_constants(&e3);
        ensure!(back.iter().zip(&newv).all(|(a, b)| a.to_bits() == b.to_bits()), "wrote {newv:?}, read {back:?}");
    }
    // a selection of the constants, in any order
    if nc > 0 {
        let mut sel: Vec<usize> = (0..nc).filter(|_| s.bool()).collect();
        for i in (1..sel.len()).rev() {
            let j = s.below(i + 1);
            sel.swap(i, j);
        }
        let newv: Vec<f64> = sel.iter().map(|_| s.wild()).collect();
        let mut want: Vec<u64> = consts.iter().map(|v| v.to_bits()).collect();
        for (k, &i) in sel.iter().enumerate() {
            want[i] = newv[k].to_bits();
        }
        let mut e3 = e.clone();
        set_scalar_constants(&mut e3, &newv, &ConstRef { const_indices: sel.clone() });
        ensure!(e3.nodes == e.nodes && e3.consts.iter().map(|v| v.to_bits()).collect::<Vec<_>>() == want, "wrote {newv:?} at positions {sel:?} of {consts:?}: {:?}", e3.consts);
        c.class_if(!sel.is_empty() && sel.len() < nc, "selection written");
    }
    // compaction
    let mut e4 = e.clone();
    let changed = compress_constants(&mut e4);
    let Some(t4) = parse(&e4.nodes) else { return Err("compaction made the sequence ill-formed".into()) };
    ensure!(t4.shape_key() == t.shape_key(), "compaction changed the tree {} into {}", t.shape_key(), t4.shape_key());
    let leaf = |nodes: &[PNode]| nodes.iter().filter_map(|n| if let PNode::Const { idx } = n { Some(*idx as usize) } else { None }).collect::<Vec<_>>();
    let (l0, l4) = (leaf(&e.nodes), leaf(&e4.nodes));
    for (a, b) in l0.iter().zip(&l4) {
        ensure!(*b < e4.consts.len(), "leaf refers to constant {b} of {}", e4.consts.len());
        ensure!(consts[*a].to_bits() == e4.consts[*b].to_bits(), "a constant leaf had value {:?} and now has {:?}", consts[*a], e4.consts[*b]);
    }
    // order of first use, all used; leaves that shared a constant still share it and no others do
    let mut first = vec![];
    for b in &l4 {
        if !first.contains(b) {
            first.push(*b);
        }
    }
    ensure!(first == (0..e4.consts.len()).collect::<Vec<_>>(), "constants are not exactly the used ones in order of first use: {l4:?} of {}", e4.consts.len());
    for i in 0..l0.len() {
        for j in 0..i {
            ensure!((l0[i] == l0[j]) == (l4[i] == l4[j]), "leaves {j} and {i} shared a constant: {}, now: {}", l0[i] == l0[j], l4[i] == l4[j]);
        }
    }
    let really = e4.nodes != e.nodes || e4.consts.len() != e.consts.len();
    ensure!(changed == really, "compaction reported changed={changed}, actually {really}");
    c.class_if(really, "compacted");
    let mut e5 = e4.clone();
    ensure!(!compress_constants(&mut e5) && e5.nodes == e4.nodes, "compacting twice changes something");
    Ok(())
}

pub fn e07() -> Property {
    Property {
        id: "E07",
        rule: "non-trivial = at least two constants; distinct = different tree shape and constant references",
        assumptions: &["constant indices are within the constant vector (the well-formedness every public constructor keeps)"],
        subs: vec![Sub { name: "constants", quick: 4_000_000, thorough: 100_000_000, tape: 160, shards: 0, f: constants }, Sub { name: "large", quick: 25_000, thorough: 900_000, tape: 60, shards: 0, f: constants_large }, Sub { name: "deep-chains", quick: 3_000, thorough: 120_000, tape: 60, shards: 0, f: crate::deep::constants_deep }],
    }
}

// ---------------------------------------------------------------- E08
fn measures(s: &mut Source, c: &mut Case) -> PropResult {
    measures_n(s, c, 40)
}
fn measures_large(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    measures_n(s, c, 700)
}
fn measures_n(s: &mut Source, c: &mut Case, max_ops: usize) -> PropResult {
    use dynamic_expressions::node_utils::*;
    let nf = s.range(1, 4);
    let t = gen_tree(s, &Cfg { n_features: nf, max_ops, const_mode: 1, ids: Kit5::ids() });
    let nodes = t.postfix();
    c.describe(|| format!("{:?}", nodes));
    c.key(&t.shape_key());
    c.nontrivial_if(t.ops() >= 2);
    ensure!(is_valid_postfix(&nodes), "well-formed {nodes:?} reported ill-formed");
    ensure!(count_nodes(&nodes) == t.size(), "count_nodes {} for {}", count_nodes(&nodes), t.size());
    ensure!(count_depth(&nodes) == t.depth(), "count_depth {} for a tree of depth {}: {}", count_depth(&nodes), t.depth(), t.shape_key());
    ensure!(count_constant_nodes(&nodes) == t.consts(), "count_constant_nodes");
    ensure!(count_variable_nodes(&nodes) == t.vars(), "count_variable_nodes");
    ensure!(count_operator_nodes(&nodes) == t.ops(), "count_operator_nodes");
    ensure!(has_constants(&nodes) == (t.consts() > 0) && has_variables(&nodes) == (t.vars() > 0) && has_operators(&nodes) == (t.ops() > 0), "has_*");
    let mut ma = 0u8;
    t.count(&|x| matches!(x, Tree::Op(..)));
    fn maxa(t: &Tree, m: &mut u8) {
        if let Tree::Op(a, _, ch) = t {
            *m = (*m).max(*a);
            ch.iter().for_each(|c| maxa(c, m));
        }
    }
    maxa(&t, &mut ma);
    ensure!(max_arity(&nodes) == ma, "max_arity {} for {ma}", max_arity(&nodes));
    ensure!(is_leaf(&nodes) == (t.size() == 1), "is_leaf");
    // subtree sizes and ranges
    fn sizes(t: &Tree, out: &mut Vec<usize>) -> usize {
        let mut n = 1;
        if let Tree::Op(_, _, ch) = t {
            for c in ch {
                n += sizes(c, out);
            }
        }
        out.push(n);
        n
    }
    let mut want = vec![];
    sizes(&t, &mut want);
    let got = subtree_sizes(&nodes);
    ensure!(got == want, "subtree sizes {got:?}, tree has {want:?}");
    for i in 0..nodes.len() {
        let (a, b) = subtree_range(&got, i);
        ensure!((a, b) == (i + 1 - want[i], i), "subtree range of node {i} is {a}..={b}");
        ensure!(parse(&nodes[a..=b]).is_some(), "range {a}..={b} of node {i} is not a subtree");
    }
    // the fold rebuilds the tree and visits every node once, in order
    let mut visited = 0usize;
    let visits = std::cell::RefCell::new(vec![]);
    let fold = |stack: Option<&mut Vec<Tree>>| {
        tree_mapreduce_with_stack(
            &nodes,
            |n| {
                visits.borrow_mut().push(*n);
                match *n {
                    PNode::Var { feature } => Tree::Var(feature),
                    PNode::Const { idx } => Tree::Const(idx),
                    _ => panic!("leaf mapper saw an operator"),
                }
            },
            |n| {
                visits.borrow_mut().push(*n);
                match *n {
                    PNode::Op { arity, op } => (arity, op),
                    _ => panic!("branch mapper saw a leaf"),
                }
            },
            |(a, o), ch| Tree::Op(a, o, ch.to_vec()),
            stack,
        )
    };
    let mut dirty = vec![Tree::Var(9); s.below(4)];
    for k in 0..3 {
        let r = if k == 0 { fold(None) } else { fold(Some(&mut dirty)) };
        ensure!(r == t, "the fold rebuilt {} from {}", r.shape_key(), t.shape_key());
        let v = std::mem::take(&mut *visits.borrow_mut());
        ensure!(v == nodes, "the fold visited {} nodes of {}, or out of order", v.len(), nodes.len());
        visited += v.len();
        if k == 1 {
            dirty.push(Tree::Const(3));
        }
    }
    ensure!(visited == 3 * nodes.len(), "visits");
    ensure!(tree_mapreduce(&nodes, |_| 1usize, |_| (), |_, ch| 1 + ch.iter().sum::<usize>()) == t.size(), "tree_mapreduce node count");
    Ok(())
}

/// Arbitrary node sequences: the validity verdict is that of the independent reader.
fn wellformed(s: &mut Source, c: &mut Case) -> PropResult {
    use dynamic_expressions::node_utils::is_valid_postfix;
    let mut nodes: Vec<PNode> = vec![];
    match s.below(3) {
        0 => {
            let n = s.below(9);
            for _ in 0..n {
                nodes.push(match s.below(4) {
                    0 => PNode::Var { feature: s.below(3) as u16 },
                    1 => PNode::Const { idx: s.below(3) as u16 },
                    _ => PNode::Op { arity: s.below(4) as u8, op: s.below(3) as u16 },
                });
            }
        }
        _ => {
            // one edit away from a well-formed sequence
            let t = gen_tree(s, &Cfg { n_features: 2, max_ops: 10, const_mode: 0, ids: Kit5::ids() });
            nodes = t.postfix();
            let k = s.below(nodes.len());
            match s.below(5) {
                0 => {
                    nodes.remove(k);
                }
                1 => nodes.insert(k, PNode::Var { feature: 0 }),
                2 => nodes.insert(k, PNode::Op { arity: s.range(1, 3) as u8, op: 0 }),
                3 => {
                    let j = s.below(nodes.len());
                    nodes.swap(k, j);
                }
                _ => {}
            }
        }
    }
    let want = parse(&nodes).is_some();
    c.describe(|| format!("{nodes:?} well-formed={want}"));
    c.key(&format!("{nodes:?}"));
    c.nontrivial_if(nodes.len() >= 2);
    c.class(if want { "well-formed" } else { "ill-formed" });
    ensure!(is_valid_postfix(&nodes) == want, "{nodes:?}: is_valid_postfix = {}, it does {}form one tree", !want, if want { "" } else { "not " });
    Ok(())
}

pub fn e08() -> Property {
    Property {
        id: "E08",
        rule: "non-trivial = a tree with at least two operators (sequences: at least two nodes); distinct = different tree / sequence",
        assumptions: &["operators have arity at least one"],
        subs: vec![
            Sub { name: "measures", quick: 1_800_000, thorough: 60_000_000, tape: 120, shards: 0, f: measures },
            Sub { name: "measures-large", quick: 12_000, thorough: 300_000, tape: 60, shards: 0, f: measures_large },
            Sub { name: "deep-chains", quick: 5_000, thorough: 200_000, tape: 60, shards: 0, f: crate::deep::measures_deep },
            Sub { name: "well-formedness", quick: 3_000_000, thorough: 96_000_000, tape: 60, shards: 0, f: wellformed },
        ],
    }
}

// ---------------------------------------------------------------- E09
fn printing<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, max_ops: usize) -> PropResult
where
    O::N: std::str::FromStr,
{
    let nf = if max_ops > 100 { s.range(1, 300) } else { s.range(1, 4) };
    let ids = crate::evalp::some_ids::<O>(s);
    let t = gen_tree(s, &Cfg { n_features: nf, max_ops, const_mode: 1, ids });
    let nc = pool_len(s, &t, true);
    let consts: Vec<O::N> = (0..nc)
        .map(|_| {
            let v = O::N::of(s.wild());
            if dynamic_expressions::num_traits::Float::is_finite(v) { v } else { O::N::of(1.0) }
        })
        .collect();
    let mut e: PostfixExpr<O::N, O, D> = expr(&t, consts.clone());
    // names: none / in the metadata / passed explicitly (which wins) / fewer than features
    let pool = ["alpha", "b_1", "x1", "θ", "Mass", "x", "q2", "time"];
    let mut mk = |s: &mut Source| -> Vec<String> {
        let start = s.below(pool.len());
        let k = s.range(1, (nf + 1).min(6));
        (0..k).map(|i| pool[(start + i) % pool.len()].to_string()).collect()
    };
    let meta_names = if s.bool() { mk(s) } else { vec![] };
    let opt_names = if s.chance(1, 3) { Some(mk(s)) } else { None };
    e.meta.variable_names = meta_names.clone();
    let pretty = s.bool();
    let names: &[String] = opt_names.as_deref().unwrap_or(&meta_names);
    let var = |f: u16| names.get(f as usize).cloned().unwrap_or_else(|| format!("x{f}"));
    let tok = |op: OpId| if pretty { O::display(op) } else { O::infix(op).unwrap_or(O::name(op)) };
    let text = string_tree(&e, StringTreeOptions { variable_names: opt_names.as_deref(), pretty });
    c.describe(|| format!("{} prints as {text}", show_o::<O>(&t, &consts)));
    c.key(&(t.shape_key(), pretty, names.to_vec()));
    c.nontrivial_if(t.ops() >= 2);
    c.class(if pretty { "pretty" } else { "plain" });
    let mut infix = vec![];
    let mut funcs = vec![];
    O::for_each_op(|op| {
        if O::infix(op).is_some() && op.arity > 1 {
            infix.push(tok(op).to_string());
        } else {
            funcs.push(tok(op).to_string());
        }
    });
    let mut p = P::new(&text, infix, funcs);
    let got = p.bare().map_err(|m| format!("{text:?} (from {}) does not parse: {m}", show_o::<O>(&t, &consts)))?;
    ensure!(p.pos == text.len(), "{text:?} (from {}) has trailing text {:?}", show_o::<O>(&t, &consts), p.rest());
    fn cmp<O: TestOps>(t: &Tree, p: &Pt, consts: &[O::N], var: &dyn Fn(u16) -> String, tok: &dyn Fn(OpId) -> &'static str) -> Result<(), String>
    where
        O::N: std::str::FromStr,
    {
        match (t, p) {
            (Tree::Var(f), Pt::Leaf(l)) => {
                ensure!(*l == var(*f), "variable {f} printed as {l:?}, its name is {:?}", var(*f));
            }
            (Tree::Const(i), Pt::Leaf(l)) => {
                let v = l.parse::<O::N>().map_err(|_| format!("constant {:?} printed as {l:?}", consts[*i as usize]))?;
                ensure!(v.same(consts[*i as usize]), "constant {:?} printed as {l:?}", consts[*i as usize]);
            }
            (Tree::Op(a, o, ch), Pt::Op(name, pc)) => {
                let want = tok(OpId { arity: *a, id: *o });
                ensure!(name == want, "operator {want:?} printed as {name:?}");
                ensure!(ch.len() == pc.len(), "operator {want:?} of arity {a} printed with {} arguments", pc.len());
                for (x, y) in ch.iter().zip(pc) {
                    cmp::<O>(x, y, consts, var, tok)?;
                }
            }
            _ => return Err(format!("{t:?} printed as {p:?}")),
        }
        Ok(())
    }
    cmp::<O>(&t, &got, &consts, &var, &tok).map_err(|m| format!("{} prints as {text:?}: {m}", show_o::<O>(&t, &consts)))?;
    // entry points agree
    let d = format!("{e}");
    let d2 = string_tree(&e, StringTreeOptions::default());
    ensure!(d == d2, "Display gives {d:?}, string_tree gives {d2:?}");
    if !pretty && opt_names.is_none() {
        ensure!(d == text, "Display gives {d:?}, string_tree with explicit defaults gives {text:?}");
    }
    let d3 = e.to_string();
    ensure!(d == d3, "to_string gives {d3:?}");
    if opt_names.is_none() {
        let d4 = string_tree(&e, StringTreeOptions { variable_names: if meta_names.is_empty() { None } else { Some(&meta_names) }, pretty });
        ensure!(d4 == text, "names passed explicitly give {d4:?}, the same names in the metadata {text:?}");
    }
    Ok(())
}
fn print_b64(s: &mut Source, c: &mut Case) -> PropResult {
    printing::<BuiltinOpsF64, 3>(s, c, 14)
}
fn print_b32(s: &mut Source, c: &mut Case) -> PropResult {
    printing::<BuiltinOpsF32, 3>(s, c, 14)
}
fn print_k5(s: &mut Source, c: &mut Case) -> PropResult {
    printing::<Kit5, 5>(s, c, 14)
}
fn print_ints(s: &mut Source, c: &mut Case) -> PropResult {
    printing::<Ints, 3>(s, c, 14)
}

fn print_large(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    if s.bool() {
        printing::<BuiltinOpsF64, 3>(s, c, 250)
    } else {
        printing::<Kit5, 5>(s, c, 250)
    }
}

pub fn e09() -> Property {
    Property {
        id: "E09",
        rule: "non-trivial = at least two operators; distinct = different tree shape, style or variable names",
        assumptions: &["constants are finite and variable names are single words that are not operator tokens (other names cannot be parsed back by any reader)", "operators with equal tokens and argument count are not distinguished"],
        subs: vec![
            Sub { name: "builtin-f64", quick: 480_000, thorough: 18_000_000, tape: 140, shards: 0, f: print_b64 },
            Sub { name: "builtin-f32", quick: 240_000, thorough: 9_000_000, tape: 140, shards: 0, f: print_b32 },
            Sub { name: "custom-1to5", quick: 360_000, thorough: 15_000_000, tape: 140, shards: 0, f: print_k5 },
            Sub { name: "custom-shared-ids", quick: 240_000, thorough: 9_000_000, tape: 140, shards: 0, f: print_ints },
            Sub { name: "large", quick: 12_000, thorough: 300_000, tape: 60, shards: 0, f: print_large },
            Sub { name: "deep-chains", quick: 3_000, thorough: 120_000, tape: 60, shards: 0, f: crate::deep::print_deep },
        ],
    }
}

// ---------------------------------------------------------------- E10
type X = PostfixExpr<f64, BuiltinOpsF64, 3>;

macro_rules! table1 { ($($f:ident $Op:ident),*) => { fn unary_fns() -> Vec<(&'static str, fn(X) -> X, u16)> { vec![$((stringify!($f), operators::$f as fn(X) -> X, <BuiltinOpsF64 as HasOp<builtin::$Op>>::ID)),*] } } }
macro_rules! table2 { ($($f:ident $Op:ident),*) => { fn binary_fns() -> Vec<(&'static str, fn(X, X) -> X, u16)> { vec![$((stringify!($f), operators::$f as fn(X, X) -> X, <BuiltinOpsF64 as HasOp<builtin::$Op>>::ID)),*] } } }
macro_rules! table3 { ($($f:ident $Op:ident),*) => { fn ternary_fns() -> Vec<(&'static str, fn(X, X, X) -> X, u16)> { vec![$((stringify!($f), operators::$f as fn(X, X, X) -> X, <BuiltinOpsF64 as HasOp<builtin::$Op>>::ID)),*] } } }
table1!(cos Cos, sin Sin, tan Tan, asin Asin, acos Acos, atan Atan, sinh Sinh, cosh Cosh, tanh Tanh, asinh Asinh, acosh Acosh, atanh Atanh, sec Sec, csc Csc, cot Cot, exp Exp, exp2 Exp2, expm1 Expm1, log Log, log2 Log2, log10 Log10, log1p Log1p, sqrt Sqrt, cbrt Cbrt, abs Abs, abs2 Abs2, inv Inv, sign Sign, identity Identity, neg Neg);
table2!(div Div, add Add, sub Sub, mul Mul, pow Pow, atan2 Atan2, min Min, max Max);
table3!(fma Fma, clamp Clamp);

fn gen_operand(s: &mut Source, max_ops: usize) -> (X, Vtree) {
    let t = gen_tree(s, &Cfg { n_features: 3, max_ops, const_mode: 1, ids: BuiltinOpsF64::ids() });
    let nc = pool_len(s, &t, true);
    let consts: Vec<f64> = (0..nc).map(|_| s.wild()).collect();
    let mut e: X = expr(&t, consts.clone());
    if s.bool() {
        let k = s.range(1, 3);
        let w = s.below(5);
        e.meta.variable_names = (0..k).map(|i| format!("n{w}_{i}")).collect();
    }
    let v = vtree(&t, &consts);
    (e, v)
}

/// Tree with constant values instead of indices.
#[derive(Clone, Debug, PartialEq)]
enum Vtree {
    Var(u16),
    Const(u64),
    Op(u8, u16, Vec<Vtree>),
}
fn vtree(t: &Tree, consts: &[f64]) -> Vtree {
    match t {
        Tree::Var(f) => Vtree::Var(*f),
        Tree::Const(i) => Vtree::Const(consts[*i as usize].to_bits()),
        Tree::Op(a, o, ch) => Vtree::Op(*a, *o, ch.iter().map(|c| vtree(c, consts)).collect()),
    }
}
fn vread(e: &X) -> Result<Vtree, String> {
    let t = parse(&e.nodes).ok_or("ill-formed result")?;
    let mut bad = false;
    let mut tt = t.clone();
    tt.map_consts(&mut |i| bad |= *i as usize >= e.consts.len());
    ensure!(!bad, "the result refers to a constant outside its {} constants", e.consts.len());
    Ok(vtree(&t, &e.consts))
}

fn algebra(s: &mut Source, c: &mut Case) -> PropResult {
    algebra_n(s, c, 6)
}
fn algebra_large(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    algebra_n(s, c, 400)
}
fn algebra_n(s: &mut Source, c: &mut Case, max_ops: usize) -> PropResult {
    let n = s.range(1, 3);
    let mut ops: Vec<(X, Vtree)> = (0..n).map(|_| gen_operand(s, max_ops)).collect();
    let names = ops.iter().map(|o| o.0.meta.variable_names.clone()).find(|v| !v.is_empty()).unwrap_or_default();
    let shown = ops.iter().map(|o| format!("{}", o.0)).collect::<Vec<_>>();
    let lit_v = s.wild();
    let id2 = |n: &str| builtin_table().iter().find(|t| t.0 == 2 && t.1 == n).unwrap().2;
    let (res, want, what): (X, Vtree, String) = match n {
        1 => {
            let (e, v) = ops.pop().unwrap();
            let k = s.below(40);
            let un = unary_fns();
            let konst = Vtree::Const(lit_v.to_bits());
            match k {
                0 => (-e, Vtree::Op(1, builtin_table().iter().find(|t| t.1 == "neg").unwrap().2, vec![v]), "unary minus".into()),
                1 => (e + lit_v, Vtree::Op(2, id2("add"), vec![v, konst]), "expr + number".into()),
                2 => (e - lit_v, Vtree::Op(2, id2("sub"), vec![v, konst]), "expr - number".into()),
                3 => (e * lit_v, Vtree::Op(2, id2("mul"), vec![v, konst]), "expr * number".into()),
                4 => (e / lit_v, Vtree::Op(2, id2("div"), vec![v, konst]), "expr / number".into()),
                5 => (lit(lit_v) + e, Vtree::Op(2, id2("add"), vec![konst, v]), "lit + expr".into()),
                6 => (lit(lit_v) - e, Vtree::Op(2, id2("sub"), vec![konst, v]), "lit - expr".into()),
                7 => (lit(lit_v) * e, Vtree::Op(2, id2("mul"), vec![konst, v]), "lit * expr".into()),
                8 => (lit(lit_v) / e, Vtree::Op(2, id2("div"), vec![konst, v]), "lit / expr".into()),
                9 => (X::zero(), Vtree::Const(0f64.to_bits()), "zero".into()),
                k => {
                    let (name, f, id) = un[(k - 10) % un.len()];
                    (f(e), Vtree::Op(1, id, vec![v]), name.into())
                }
            }
        }
        2 => {
            let (b, vb) = ops.pop().unwrap();
            let (a, va) = ops.pop().unwrap();
            let bf = binary_fns();
            match s.below(12) {
                0 => (a + b, Vtree::Op(2, id2("add"), vec![va, vb]), "+".into()),
                1 => (a - b, Vtree::Op(2, id2("sub"), vec![va, vb]), "-".into()),
                2 => (a * b, Vtree::Op(2, id2("mul"), vec![va, vb]), "*".into()),
                3 => (a / b, Vtree::Op(2, id2("div"), vec![va, vb]), "/".into()),
                k => {
                    let (name, f, id) = bf[k - 4];
                    (f(a, b), Vtree::Op(2, id, vec![va, vb]), name.into())
                }
            }
        }
        _ => {
            let (d, vd) = ops.pop().unwrap();
            let (b, vb) = ops.pop().unwrap();
            let (a, va) = ops.pop().unwrap();
            let (name, f, id) = *s.pick(&ternary_fns());
            (f(a, b, d), Vtree::Op(3, id, vec![va, vb, vd]), name.into())
        }
    };
    c.describe(|| format!("{what} of {shown:?} = {res}"));
    c.key(&(what.clone(), shown.clone()));
    c.nontrivial();
    c.class_if(n >= 2, "two or more operands");
    let got = vread(&res).map_err(|m| format!("{what} of {shown:?}: {m}"))?;
    ensure!(got == want, "{what} of {shown:?} built {got:?}, expected {want:?}");
    if what != "zero" {
        ensure!(res.meta.variable_names == names, "{what} of {shown:?}: variable names {:?}, the first operand that has names has {names:?}", res.meta.variable_names);
    }
    // value
    let x = gen_x::<f64>(s, 3, 2, 0);
    let (v, _) = eval_tree_array(&res, x.view(), &OFF);
    for r in 0..2 {
        let w = veval(&want, &x, r);
        ensure!(vcommon::same64(v[r], w), "{what} of {shown:?} evaluates to {:?}, applying it to the operands' values gives {w:?}", v[r]);
    }
    Ok(())
}
fn veval(t: &Vtree, x: &ndarray::Array2<f64>, r: usize) -> f64 {
    match t {
        Vtree::Var(f) => x[(*f as usize, r)],
        Vtree::Const(b) => f64::from_bits(*b),
        Vtree::Op(a, o, ch) => {
            let args: Vec<f64> = ch.iter().map(|c| veval(c, x, r)).collect();
            BuiltinOpsF64::rf(OpId { arity: *a, id: *o }, &args)
        }
    }
}

pub fn e10() -> Property {
    Property {
        id: "E10",
        rule: "every case builds one expression from random operand expressions through one operator, literal form or wrapper; distinct = different construction and operands",
        assumptions: &["operands are well-formed and their constants fit the 16-bit index space"],
        subs: vec![Sub { name: "algebra", quick: 3_000_000, thorough: 96_000_000, tape: 120, shards: 0, f: algebra }, Sub { name: "large", quick: 12_000, thorough: 300_000, tape: 60, shards: 0, f: algebra_large }, Sub { name: "deep-chains", quick: 600, thorough: 24_000, tape: 60, shards: 0, f: crate::deep::algebra_deep }],
    }
}
