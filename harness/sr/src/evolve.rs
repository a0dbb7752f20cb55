//! S02, S06, S07, S08: evaluation, mutations, evolution steps, constant optimisation.
use crate::gen::*;
use crate::ops::{Ints, Kit24, Kit5, Num, TestOps};
use crate::tree::{self, Tree};
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{GradContext, OperatorSet, PNode, PostfixExpr};
use fastrand::Rng;
use ndarray::{Array1, Array2};
use num_traits::Float;
use std::marker::PhantomData;
use symbolic_regression::*;
use vcommon::{ensure, PropResult, Property, Source, Sub};
use vcommon::Case;

// ---------------------------------------------------------------- value trees

/// A tree whose constants are their bit patterns: what an expression *is*, independent of pool layout.
#[derive(Clone, Debug, PartialEq)]
pub enum Vt {
    Var(u16),
    Const(u64),
    Op(u8, u16, Vec<Vt>),
}

impl Vt {
    pub fn of<N: Nf>(t: &Tree, c: &[N]) -> Vt {
        match t {
            Tree::Var(f) => Vt::Var(*f),
            Tree::Const(i) => Vt::Const(Num::f(c[*i as usize]).to_bits()),
            Tree::Op(a, o, ch) => Vt::Op(*a, *o, ch.iter().map(|x| Vt::of(x, c)).collect()),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Vt::Op(_, _, ch) => 1 + ch.iter().map(Vt::size).sum::<usize>(),
            _ => 1,
        }
    }
    fn is_leaf(&self) -> bool {
        !matches!(self, Vt::Op(..))
    }
    /// All trees obtained by rewriting exactly one node through `f`.
    fn rewrites(&self, f: &dyn Fn(&Vt) -> Vec<Vt>) -> Vec<Vt> {
        let mut out = f(self);
        if let Vt::Op(a, o, ch) = self {
            for (j, c) in ch.iter().enumerate() {
                for r in c.rewrites(f) {
                    let mut k = ch.clone();
                    k[j] = r;
                    out.push(Vt::Op(*a, *o, k));
                }
            }
        }
        out
    }
    pub fn show(&self) -> String {
        match self {
            Vt::Var(f) => format!("x{f}"),
            Vt::Const(b) => format!("{:?}", f64::from_bits(*b)),
            Vt::Op(a, o, ch) => format!("op{a}.{o}({})", ch.iter().map(|c| c.show()).collect::<Vec<_>>().join(", ")),
        }
    }
    fn leaves<'a>(&'a self, out: &mut Vec<&'a Vt>) {
        match self {
            Vt::Op(_, _, ch) => ch.iter().for_each(|c| c.leaves(out)),
            l => out.push(l),
        }
    }
    fn same_shape(&self, o: &Vt, consts_too: bool) -> bool {
        match (self, o) {
            (Vt::Var(a), Vt::Var(b)) => a == b,
            (Vt::Const(a), Vt::Const(b)) => !consts_too || a == b,
            (Vt::Op(a, p, x), Vt::Op(b, q, y)) => a == b && p == q && x.iter().zip(y).all(|(m, n)| m.same_shape(n, consts_too)),
            _ => false,
        }
    }
    pub fn nodes(&self, out: &mut Vec<Vt>) {
        if let Vt::Op(_, _, ch) = self {
            for c in ch {
                c.nodes(out);
            }
        }
        out.push(self.clone());
    }
}

/// Reads an expression produced by the code under test: must be well-formed, over the given operators
/// and features, with in-range constants.
pub fn read<O: TestOps, const D: usize>(e: &PostfixExpr<O::N, O, D>, ids: &[(u8, u16)], nf: usize) -> Result<Tree, String> {
    let Some(t) = tree::parse(&e.nodes) else {
        return Err(format!("not a well-formed expression: {:?}", e.nodes));
    };
    for n in &e.nodes {
        match *n {
            PNode::Var { feature } => ensure!((feature as usize) < nf, "uses feature {feature} of {nf}"),
            PNode::Const { idx } => ensure!((idx as usize) < e.consts.len(), "uses constant {idx} of {}", e.consts.len()),
            PNode::Op { arity, op } => ensure!(ids.contains(&(arity, op)), "uses operator {arity}.{op}, configured: {ids:?}"),
        }
    }
    Ok(t)
}
pub fn vt<O: TestOps, const D: usize>(e: &PostfixExpr<O::N, O, D>, ids: &[(u8, u16)], nf: usize) -> Result<Vt, String>
where
    O::N: Nf,
{
    Ok(Vt::of(&read::<O, D>(e, ids, nf)?, &e.consts))
}

fn leaf_ok(l: &Vt) -> bool {
    l.is_leaf()
}
/// `new` is an operator whose arguments are all leaves, in place of the leaf `old`.
fn appended(old: &Vt, new: &Vt) -> bool {
    match new {
        Vt::Op(_, _, ch) => old.is_leaf() && ch.iter().all(leaf_ok),
        _ => false,
    }
}
/// `new` is an operator with `old` as one argument and leaves elsewhere.
fn wrapped(old: &Vt, new: &Vt) -> bool {
    match new {
        Vt::Op(_, _, ch) => (0..ch.len()).any(|j| ch[j] == *old && ch.iter().enumerate().all(|(k, c)| k == j || c.is_leaf())),
        _ => false,
    }
}
/// Is `new` = `old` with exactly one node changed as `at` says?
fn one_site(old: &Vt, new: &Vt, at: &dyn Fn(&Vt, &Vt) -> bool) -> bool {
    if at(old, new) {
        return true;
    }
    match (old, new) {
        (Vt::Op(a, o, x), Vt::Op(b, p, y)) if a == b && o == p => (0..x.len()).any(|j| (0..x.len()).all(|k| k == j || x[k] == y[k]) && one_site(&x[j], &y[j], at)),
        _ => false,
    }
}
fn swaps(t: &Vt) -> Vec<Vt> {
    t.rewrites(&|n| match n {
        Vt::Op(2, o, ch) => vec![Vt::Op(2, *o, vec![ch[1].clone(), ch[0].clone()])],
        _ => vec![],
    })
}
fn deletions(t: &Vt) -> Vec<Vt> {
    t.rewrites(&|n| match n {
        Vt::Op(_, _, ch) => ch.clone(),
        _ => vec![],
    })
}
fn rotations(t: &Vt) -> Vec<Vt> {
    t.rewrites(&|n| {
        let mut out = vec![];
        if let Vt::Op(a, o, ch) = n {
            for (j, pivot) in ch.iter().enumerate() {
                if let Vt::Op(b, p, g) = pivot {
                    for k in 0..g.len() {
                        let mut root = ch.clone();
                        root[j] = g[k].clone();
                        let mut piv = g.clone();
                        piv[k] = Vt::Op(*a, *o, root);
                        out.push(Vt::Op(*b, *p, piv));
                    }
                }
            }
        }
        out
    })
}

/// Number of leaves of `old` whose constant differs from `new`'s, given equal shapes; and the factor.
fn const_change<O: TestOps>(tree: &Tree, oc: &[O::N], new: &Vt, lo: f64, hi: f64) -> Result<(), String>
where
    O::N: Nf,
{
    let old = Vt::of(tree, oc);
    ensure!(old.same_shape(new, false), "a constant change altered more than a constant: {} became {}", old.show(), new.show());
    fn pool_idx(t: &Tree, out: &mut Vec<u16>) {
        match t {
            Tree::Const(i) => out.push(*i),
            Tree::Op(_, _, ch) => ch.iter().for_each(|c| pool_idx(c, out)),
            _ => {}
        }
    }
    let mut idx = vec![];
    pool_idx(tree, &mut idx);
    let (mut a, mut b) = (vec![], vec![]);
    old.leaves(&mut a);
    new.leaves(&mut b);
    let ca: Vec<f64> = a.iter().filter_map(|l| if let Vt::Const(x) = l { Some(f64::from_bits(*x)) } else { None }).collect();
    let cb: Vec<f64> = b.iter().filter_map(|l| if let Vt::Const(x) = l { Some(f64::from_bits(*x)) } else { None }).collect();
    let mut changed: Option<u16> = None;
    for k in 0..ca.len() {
        if ca[k].to_bits() != cb[k].to_bits() {
            ensure!(changed.is_none() || changed == Some(idx[k]), "more than one constant changed: {} became {}", old.show(), new.show());
            changed = Some(idx[k]);
            if ca[k] == 0.0 {
                ensure!(cb[k] == 0.0, "scaling turned 0 into {}", cb[k]);
            } else {
                let f = (cb[k] / ca[k]).abs();
                ensure!(f >= lo * (1.0 - 4.0 * O::N::EPS) && f <= hi * (1.0 + 4.0 * O::N::EPS), "constant {} became {}: factor {f} outside [{lo}, {hi}]", ca[k], cb[k]);
            }
        }
    }
    if let Some(i) = changed {
        // every use of that constant moved together
        for k in 0..ca.len() {
            ensure!(idx[k] != i || ca[k].to_bits() != cb[k].to_bits(), "only some uses of a shared constant changed");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- shared scaffolding

pub struct World<O: TestOps, const D: usize>
where
    O::N: Nf,
{
    pub ids: Vec<(u8, u16)>,
    pub nf: usize,
    pub data: Dataset<O::N>,
    pub opts: Options<O::N, D>,
    pub lim: Limits,
    pub kind: LossKind,
}

fn quiet<N: Nf, const D: usize>(o: &mut Options<N, D>) {
    o.progress = false;
    o.output_style = OutputStyle::Plain;
}

fn int_data(s: &mut Source, nf: usize, rows: usize) -> Dataset<f64> {
    let mut x = Array2::<f64>::zeros((nf, rows));
    for v in x.iter_mut() {
        *v = s.int(-9, 9) as f64;
    }
    let y: Array1<f64> = (0..rows).map(|_| s.int(-20, 20) as f64).collect();
    Dataset::new(x, y)
}

pub fn zero_weights() -> MutationWeights {
    MutationWeights {
        mutate_constant: 0.0,
        mutate_operator: 0.0,
        mutate_feature: 0.0,
        swap_operands: 0.0,
        rotate_tree: 0.0,
        add_node: 0.0,
        insert_node: 0.0,
        delete_node: 0.0,
        simplify: 0.0,
        randomize: 0.0,
        do_nothing: 0.0,
        optimize: 0.0,
        form_connection: 0.0,
        break_connection: 0.0,
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum M {
    Constant,
    Operator,
    Feature,
    Swap,
    Rotate,
    Add,
    Insert,
    Delete,
    Simplify,
    Randomize,
    Nothing,
    Optimize,
}
pub const MS: [M; 12] = [M::Constant, M::Operator, M::Feature, M::Swap, M::Rotate, M::Add, M::Insert, M::Delete, M::Simplify, M::Randomize, M::Nothing, M::Optimize];

pub fn weight_of(w: &mut MutationWeights, m: M) -> &mut f64 {
    match m {
        M::Constant => &mut w.mutate_constant,
        M::Operator => &mut w.mutate_operator,
        M::Feature => &mut w.mutate_feature,
        M::Swap => &mut w.swap_operands,
        M::Rotate => &mut w.rotate_tree,
        M::Add => &mut w.add_node,
        M::Insert => &mut w.insert_node,
        M::Delete => &mut w.delete_node,
        M::Simplify => &mut w.simplify,
        M::Randomize => &mut w.randomize,
        M::Nothing => &mut w.do_nothing,
        M::Optimize => &mut w.optimize,
    }
}

pub struct Step<O: OperatorSet, const D: usize>
where
    O::T: Float + core::ops::AddAssign,
{
    pub child: PopMember<O::T, O, D>,
    pub accepted: bool,
    pub evals: f64,
    pub next_id: u64,
    pub next_birth: u64,
}

#[allow(clippy::too_many_arguments)]
pub fn step<O: TestOps, const D: usize>(
    rng: &mut Rng,
    parent: &PopMember<O::N, O, D>,
    data: &Dataset<O::N>,
    baseline: Option<O::N>,
    temperature: f64,
    curmaxsize: usize,
    stats: &RunningSearchStatistics,
    opts: &Options<O::N, D>,
    ev: &mut Evaluator<O::N, D>,
    id: u64,
    birth: u64,
) -> Step<O, D>
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let (mut next_id, mut next_birth) = (id, birth);
    let (child, accepted, evals) = next_generation(
        parent,
        NextGenerationCtx { rng, dataset: TaggedDataset::new(data, baseline), temperature, curmaxsize, stats, options: opts, evaluator: ev, next_id: &mut next_id, next_birth: &mut next_birth, _ops: PhantomData::<O> },
    );
    Step { child, accepted, evals, next_id, next_birth }
}

/// Same expression, constants and plan bit for bit.
pub fn same_expr<O: TestOps, const D: usize>(a: &PostfixExpr<O::N, O, D>, b: &PostfixExpr<O::N, O, D>) -> bool {
    a.nodes == b.nodes && a.consts.len() == b.consts.len() && a.consts.iter().zip(&b.consts).all(|(x, y)| x.same(*y))
}
pub fn same_scores<O: TestOps, const D: usize>(a: &PopMember<O::N, O, D>, b: &PopMember<O::N, O, D>) -> bool
where
    O: OperatorSet<T = <O as TestOps>::N>,
{
    a.complexity == b.complexity && a.loss.same(b.loss) && a.cost.same(b.cost)
}

/// Loss, cost and complexity recorded by a member against the reference interpreter.
pub fn true_scores<O: TestOps, const D: usize>(m: &PopMember<O::N, O, D>, t: &Tree, data: &Dataset<O::N>, kind: &LossKind, cx: &Cx, opts: &Options<O::N, D>, baseline: Option<f64>) -> Result<bool, String>
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    ensure!(m.complexity == cx.of(t), "recorded complexity {} of {}, which has {}", m.complexity, tree::show_o::<O>(t, &m.expr.consts), cx.of(t));
    let (yhat, fin) = tree::reval_all::<O>(t, &data.x, &m.expr.consts);
    let (l, err) = kind_loss::<O::N>(kind, &yhat, data);
    let max = if O::N::BITS == 32 { f32::MAX as f64 } else { f64::MAX };
    // terms below the normal range lose their relative precision
    let tiny = 64.0 * if O::N::BITS == 32 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    // (for a root, the mean below it does)
    let tiny = if matches!(kind, LossKind::Rmse) { tiny.sqrt().min(tiny / l.max(1e-300)) } else { tiny };
    let (ml, mc) = (Num::f(m.loss), Num::f(m.cost));
    // sums of large terms may overflow before the mean is taken: an undecided band
    let terms: f64 = loss_terms::<O::N>(kind, &yhat, data);
    let must_fail = !fin;
    let must_pass = fin && terms.is_finite() && terms < max / 4.0;
    if must_fail || !ml.is_finite() {
        ensure!(!must_pass, "evaluation failed (loss {ml}) though every value is finite and the loss is {l}");
        ensure!(ml == f64::INFINITY && mc == f64::INFINITY, "failed evaluation must record infinite loss and cost, got {ml}, {mc}");
        return Ok(false);
    }
    ensure!((ml - l).abs() <= err + tiny || (!must_pass), "recorded loss {ml} of {}, whose loss is {l} (tolerance {err})", tree::show_o::<O>(t, &m.expr.consts));
    let d = match baseline {
        Some(b) if opts.use_baseline && b.is_finite() => b.max(0.01),
        _ => 0.01,
    };
    // cost from the recorded loss
    let c = ml / d + opts.parsimony * m.complexity as f64;
    let tol = 8.0 * O::N::EPS * (ml / d + opts.parsimony * m.complexity as f64) + if O::N::BITS == 32 { 1e-44 } else { 1e-322 };
    if c.abs() < max / 4.0 {
        ensure!((mc - c).abs() <= tol, "recorded cost {mc}; loss {ml}, divisor {d}, parsimony {}, complexity {} give {c}", opts.parsimony, m.complexity);
    }
    Ok(true)
}

/// Sum of weighted absolute terms: tells whether a direct evaluation can overflow.
fn loss_terms<N: Nf>(kind: &LossKind, yhat: &[N], d: &Dataset<N>) -> f64 {
    let mut sum = 0.0;
    for i in 0..yhat.len() {
        let w = d.weights.as_ref().map_or(1.0, |w| Num::f(w[i]));
        let r = Num::f(yhat[i]) - Num::f(d.y[i]);
        sum += w.max(1.0) * point(kind, r).max(r.abs());
    }
    sum
}

// ---------------------------------------------------------------- S02

/// Whatever the configured loss says of the predictions, the targets and the weights.
fn direct_scores<O: TestOps, const D: usize>(m: &PopMember<O::N, O, D>, t: &Tree, data: &Dataset<O::N>, cx: &Cx, opts: &Options<O::N, D>, baseline: Option<f64>) -> Result<bool, String>
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    ensure!(m.complexity == cx.of(t), "recorded complexity {}, true {}", m.complexity, cx.of(t));
    let (_, fin) = tree::reval_all::<O>(t, &data.x, &m.expr.consts);
    let (yhat, _) = dynamic_expressions::eval_tree_array(&m.expr, data.x.view(), &Default::default());
    let (y, w) = (data.y.to_vec(), data.weights.as_ref().map(|w| w.to_vec()));
    let l = opts.loss.loss(&yhat, &y, w.as_deref());
    let (ml, mc) = (Num::f(m.loss), Num::f(m.cost));
    if !fin || !Num::f(l).is_finite() {
        ensure!(ml == f64::INFINITY && mc == f64::INFINITY, "recorded loss {ml} and cost {mc} where the predictions or their loss ({l:?}) are not finite");
        return Ok(false);
    }
    let ld = Num::f(l);
    ensure!((ml - ld).abs() <= 64.0 * O::N::EPS * ld.abs(), "recorded loss {ml}, the configured loss of the predictions is {ld}");
    let want = ref_cost(ml, m.complexity, opts.parsimony, opts.use_baseline, baseline);
    if want.abs() < 1e30 {
        ensure!((mc - want).abs() <= 16.0 * O::N::EPS * want.abs() + 1e-37, "recorded cost {mc}, expected {want}");
    }
    Ok(true)
}

fn s02<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let ids = O::ids();
    let nf = s.range(1, vcommon::up(4, 400));
    let nd = s.range(1, 3);
    let kind = gen_loss_kind(s);
    let datas: Vec<Dataset<O::N>> = (0..nd)
        .map(|_| {
            let rows = if s.chance(1, 8) { s.range(1, vcommon::up(200, 5000)) } else { s.range(1, vcommon::up(12, 1500)) };
            let xmode = [1, 1, 4, 0, 2][s.below(vcommon::up(5, 2))];
            let w = s.chance(1, 3);
            let d = gen_dataset::<O::N>(s, nf, rows, xmode, w);
            if w && s.chance(1, 3) {
                // equal weights, none of them counting, or only one
                let v = O::N::of(*s.pick(&[0.0, 0.0, 1.0, 0.5, 7.0]));
                let mut ws = vec![v; rows];
                if s.bool() {
                    ws[s.below(rows)] = O::N::of(2.0);
                }
                c.class("equal or zero weights");
                return Dataset::with_weights_and_names(d.x.clone(), d.y.clone(), Some(ws.into()), vec![]);
            }
            d
        })
        .collect();
    let mut opts = Options::<O::N, D> { operators: pick_ops::<D>(&ids), loss: make_loss(kind.clone()), ..Default::default() };
    quiet(&mut opts);
    opts.use_baseline = s.chance(3, 4);
    opts.parsimony = *s.pick(&[0.0, 0.0, 0.001, 0.5, 3.0]);
    let cx = gen_cx(s, &ids, nf, true);
    Limits { cx: cx.clone(), maxdepth: 30, ..Default::default() }.apply(&mut opts);
    let mut ev = Evaluator::<O::N, D>::new(datas[0].n_rows);
    let n = s.range(1, 6);
    c.nontrivial_if(n > 1);
    let mut pool: Vec<PopMember<O::N, O, D>> = vec![];
    for k in 0..n {
        let di = s.below(nd);
        let data = &datas[di];
        let baseline = match s.below(7) {
            0 => None,
            1 => Some(f64::INFINITY),
            2 => Some(f64::NAN),
            3 => Some(0.0),
            4 => Some(0.005),
            _ => Some(s.uniform(0.01, 50.0)),
        };
        let (t, consts, mut m) = if !pool.is_empty() && s.chance(1, 3) {
            // evaluate a candidate again, possibly with other constants and other data
            let i = s.below(pool.len());
            let mut m = pool.swap_remove(i);
            if s.bool() {
                for v in m.expr.consts.iter_mut() {
                    *v = O::N::of(tree::gen_num(s, 1));
                }
            }
            c.class("re-evaluated");
            (tree::parse(&m.expr.nodes).unwrap(), m.expr.consts.clone(), m)
        } else {
            let cm = [0, 1, 1, 2][s.below(4)];
            let (t, consts, e) = gen_expr::<O, D>(s, &ids, nf, vcommon::up(14, 120), cm);
            let m = member::<O::N, O, D>(k as u64, k as u64, e, nf);
            (t, consts, m)
        };
        c.key(&(t.shape_key(), di, k));
        c.describe_more(|| format!("data{di} ({} rows{}) baseline {baseline:?}: {}", data.n_rows, if data.weights.is_some() { ", weighted" } else { "" }, tree::show_o::<O>(&t, &consts)));
        if s.bool() {
            // stale scores must not survive
            m.loss = O::N::of(s.uniform(0.0, 3.0));
            m.cost = O::N::of(s.uniform(0.0, 3.0));
            m.complexity = s.below(40);
        }
        ev.ensure_n_rows(data.n_rows);
        let before = (m.id, m.parent, m.birth, m.expr.clone());
        let ok = m.evaluate(&TaggedDataset::new(data, baseline.map(O::N::of)), &opts, &mut ev);
        let no_weight = data.weights.as_ref().is_some_and(|w| w.iter().all(|v| Num::f(*v) == 0.0));
        let finite = if no_weight { direct_scores::<O, D>(&m, &t, data, &cx, &opts, baseline)? } else { true_scores::<O, D>(&m, &t, data, &kind, &cx, &opts, baseline)? };
        ensure!(ok == finite, "evaluate returned {ok} with loss {:?}", m.loss);
        c.class(if finite { "finite" } else { "non-finite" });
        c.class_if(data.weights.is_some(), "weighted");
        ensure!(before.0 == m.id && before.1 == m.parent && before.2 == m.birth && same_expr::<O, D>(&before.3, &m.expr), "evaluation changed the candidate itself");
        // exact agreement with a fresh evaluator: nothing leaks between candidates
        let mut fresh = member::<O::N, O, D>(99, 0, m.expr.clone(), nf);
        let mut ev2 = Evaluator::<O::N, D>::new(data.n_rows);
        fresh.evaluate(&TaggedDataset::new(data, baseline.map(O::N::of)), &opts, &mut ev2);
        ensure!(same_scores::<O, D>(&fresh, &m), "reused evaluator gives loss {:?} cost {:?}, a fresh one {:?} {:?}", m.loss, m.cost, fresh.loss, fresh.cost);
        if pool.len() < 4 {
            pool.push(m);
        }
    }
    Ok(())
}

fn s02_large_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(4) {
        0 => s02::<BuiltinOpsF64, 3>(s, c),
        1 => s02::<BuiltinOpsF32, 3>(s, c),
        2 => s02::<Kit5, 5>(s, c),
        _ => s02::<Kit24, 4>(s, c),
    }
}
fn s02_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s02_large_case)
}

pub fn p_s02() -> Property {
    Property {
        id: "S02",
        rule: "a history of at least two evaluations on one evaluator",
        assumptions: &["losses are compared within a running error bound of the textbook evaluation; sums within a factor 4 of overflow are left undecided", "user-defined losses, and data of no weight at all, are compared with a direct call of the configured loss"],
        subs: vec![
            Sub { name: "builtin-f64", quick: 360_000, thorough: 7_200_000, tape: 700, shards: 0, f: s02::<BuiltinOpsF64, 3> },
            Sub { name: "builtin-f32", quick: 360_000, thorough: 7_200_000, tape: 700, shards: 0, f: s02::<BuiltinOpsF32, 3> },
            Sub { name: "kit5", quick: 240_000, thorough: 4_800_000, tape: 700, shards: 0, f: s02::<Kit5, 5> },
            Sub { name: "kit24-f32", quick: 240_000, thorough: 4_800_000, tape: 700, shards: 0, f: s02::<Kit24, 4> },
            Sub { name: "large", quick: 1_600, thorough: 48_000, tape: 40, shards: 0, f: s02_large },
        ],
    }
}

// ---------------------------------------------------------------- S06

#[allow(clippy::too_many_arguments)]
fn check_mutation<O: TestOps, const D: usize>(m: M, tree: &Tree, pc: &[O::N], child: &PostfixExpr<O::N, O, D>, ids: &[(u8, u16)], nf: usize, factor: f64, rand_max: usize, accepted: bool, ints: bool) -> Result<bool, String>
where
    O::N: Nf,
{
    let ct = read::<O, D>(child, ids, nf)?;
    let new = Vt::of(&ct, &child.consts);
    let old = Vt::of(tree, pc);
    let what = || format!("{m:?}: {} became {}", old.show(), new.show());
    let changed = old != new;
    match m {
        M::Constant => const_change::<O>(tree, pc, &new, 1.0 / factor, factor)?,
        M::Optimize => ensure!(old.same_shape(&new, false), "more than constants changed: {}", what()),
        M::Operator => ensure!(
            !changed || one_site(&old, &new, &|a, b| matches!((a, b), (Vt::Op(x, _, p), Vt::Op(y, _, q)) if x == y && p == q)),
            "not one operator of equal arity: {}",
            what()
        ),
        M::Feature => ensure!(!changed || one_site(&old, &new, &|a, b| matches!((a, b), (Vt::Var(_), Vt::Var(_)))), "not one variable: {}", what()),
        M::Swap => ensure!(!changed || swaps(&old).contains(&new), "not one operand swap: {}", what()),
        M::Rotate => ensure!(!changed || rotations(&old).contains(&new), "not one rotation: {}", what()),
        M::Add => ensure!(!changed || one_site(&old, &new, &appended) || wrapped(&old, &new), "not one operator with leaf arguments at a leaf or the root: {}", what()),
        M::Insert => ensure!(!changed || one_site(&old, &new, &wrapped), "not one operator around one subtree: {}", what()),
        M::Delete => ensure!(!changed || deletions(&old).contains(&new), "not one operator removed: {}", what()),
        M::Randomize => ensure!(!accepted || new.size() <= rand_max, "random expression of {} nodes, at most {rand_max} asked: {}", new.size(), what()),
        M::Nothing => ensure!(!changed, "{}", what()),
        M::Simplify => {
            ensure!(new.size() <= old.size(), "grew: {}", what());
            if ints {
                // exact on integers: same values at a few points
                let nr = 6;
                let x = Array2::from_shape_fn((nf, nr), |(f, r)| O::N::of(((f as i64 * 7 + r as i64 * 5 + 3) % 11 - 5) as f64));
                let a = tree::reval_all::<O>(tree, &x, pc).0;
                let b = tree::reval_all::<O>(&ct, &x, &child.consts).0;
                let big = a.iter().chain(&b).any(|v| !(Num::f(*v).abs() < 1e9));
                ensure!(big || a.iter().zip(&b).all(|(p, q)| Num::f(*p) == Num::f(*q)), "value changed: {}", what());
            }
        }
    }
    Ok(changed)
}

/// Does every subtree stay below `m` on every row?
fn subtrees_below<O: TestOps>(t: &Tree, x: &Array2<O::N>, k: &[O::N], m: f64) -> bool {
    (0..x.ncols()).all(|r| Num::f(tree::reval::<O>(t, x, r, k, &mut true)).abs() < m)
        && match t {
            Tree::Op(_, _, ch) => ch.iter().all(|c| subtrees_below::<O>(c, x, k, m)),
            _ => true,
        }
}

fn s06_mutate<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, ints: bool) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let nf = s.range(1, 4);
    s06_mutate_on::<O, D>(s, c, ints, nf)
}
fn s06_mutate_on<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, ints: bool, nf: usize) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let ids = gen_ids::<O>(s);
    let m = *s.pick(&MS);
    let rows = s.range(1, 4);
    let data: Dataset<O::N> = {
        let mut x = Array2::<O::N>::zeros((nf, rows));
        for v in x.iter_mut() {
            *v = O::N::of(if ints { s.int(-9, 9) as f64 } else { s.uniform(0.2, 3.0) });
        }
        let y: Array1<O::N> = (0..rows).map(|_| O::N::of(s.int(-20, 20) as f64)).collect();
        Dataset::new(x, y)
    };
    let mut opts = Options::<O::N, D> { operators: pick_ops::<D>(&ids), ..Default::default() };
    quiet(&mut opts);
    opts.annealing = false;
    opts.use_frequency = false;
    opts.optimizer_probability = 1.0;
    opts.optimizer_iterations = s.range(1, 8);
    opts.optimizer_nrestarts = s.below(2);
    opts.perturbation_factor = *s.pick(&[0.0, 0.129, 1.0, 5.0]);
    opts.probability_negate_constant = *s.pick(&[0.0, 0.5, 1.0]);
    let roomy = vcommon::up(400, 6000);
    opts.maxsize = if s.chance(1, 3) { s.range(1, vcommon::up(30, 600)) } else { roomy };
    opts.maxdepth = roomy;
    opts.mutation_weights = zero_weights();
    *weight_of(&mut opts.mutation_weights, m) = 1.0;
    if m != M::Nothing && s.bool() {
        opts.mutation_weights.do_nothing = 1e-300;
    }
    let max_ops = if vcommon::large() { 250 } else if s.chance(1, 4) { 20 } else { 8 };
    let (tree, consts, e) = {
        let cfg = tree::Cfg { n_features: nf, max_ops, const_mode: s.below(2), ids: ids.clone() };
        let t = tree::gen_tree(s, &cfg);
        let n = tree::pool_len(s, &t, false);
        let cs: Vec<O::N> = (0..n).map(|_| O::N::of(if ints { s.int(-6, 6) as f64 } else { tree::gen_num(s, 0) })).collect();
        let e = tree::expr::<O, D>(&t, cs.clone());
        (t, cs, e)
    };
    let mut ev = Evaluator::<O::N, D>::new(rows);
    let mut parent = member::<O::N, O, D>(7, 3, e.clone(), nf);
    parent.evaluate(&TaggedDataset::new(&data, None), &opts, &mut ev);
    let curmaxsize = if opts.maxsize < roomy { s.range(1, opts.maxsize) } else { roomy };
    let temperature = *s.pick(&[1.0, 0.3, 0.0, 2.0]);
    let stats = RunningSearchStatistics::new(opts.maxsize, 1000);
    let mut r = rng(s);
    let keep = parent.clone();
    c.key(&(m, tree.shape_key(), curmaxsize, nf));
    c.class(match m {
        M::Constant => "mutate_constant",
        M::Operator => "mutate_operator",
        M::Feature => "mutate_feature",
        M::Swap => "swap_operands",
        M::Rotate => "rotate_tree",
        M::Add => "add_node",
        M::Insert => "insert_node",
        M::Delete => "delete_node",
        M::Simplify => "simplify",
        M::Randomize => "randomize",
        M::Nothing => "do_nothing",
        M::Optimize => "optimize",
    });
    c.describe(|| format!("{m:?} on {} (features {nf}, size limit {curmaxsize} of {}, operators {ids:?})", tree::show_o::<O>(&tree, &consts), opts.maxsize));
    let st = step::<O, D>(&mut r, &parent, &data, None, temperature, curmaxsize, &stats, &opts, &mut ev, 50, 60);
    ensure!(same_expr::<O, D>(&parent.expr, &keep.expr) && same_scores::<O, D>(&parent, &keep) && parent.id == keep.id && parent.birth == keep.birth, "the parent was modified");
    let factor = opts.perturbation_factor * temperature.max(0.0) + 1.1;
    let changed = check_mutation::<O, D>(m, &tree, &consts, &st.child.expr, &ids, nf, factor, curmaxsize.min(opts.maxsize), st.accepted, ints)?;
    c.nontrivial_if(changed);
    if !st.accepted {
        ensure!(!changed, "rejected, but the expression changed");
    }
    // where the change is possible and nothing can reject it, it happens
    if ints && opts.maxsize == roomy && parent.loss.is_finite() {
        let can = match m {
            M::Constant => tree.consts() > 0,
            M::Operator | M::Delete => tree.ops() > 0,
            M::Feature => nf > 1 && tree.vars() > 0 && (tree.ops() > 0 || consts.is_empty()),
            M::Swap => tree.count(&|t| matches!(t, Tree::Op(2, ..))) > 0,
            M::Rotate => tree.count(&|t| matches!(t, Tree::Op(_, _, ch) if ch.iter().any(|c| matches!(c, Tree::Op(..))))) > 0,
            M::Randomize if vcommon::large() => false,
            _ => true,
        };
        // a large product may leave the range of its type when one operator changes
        let can = can && (!vcommon::large() || subtrees_below::<O>(&tree, &data.x, &consts, 1e60));
        ensure!(st.accepted || !can, "{m:?} of {} was rejected with acceptance criteria and limits off", tree::show_o::<O>(&tree, &consts));
    }
    if ints && opts.maxsize == roomy && parent.loss.is_finite() && st.accepted {
        let old = Vt::of(&tree, &consts);
        let must = match m {
            M::Feature => nf > 1 && tree.vars() > 0 && (tree.ops() > 0 || consts.is_empty()),
            M::Swap => {
                let w = swaps(&old);
                !w.is_empty() && w.iter().all(|x| *x != old)
            }
            M::Rotate => {
                let w = rotations(&old);
                !w.is_empty() && w.iter().all(|x| *x != old)
            }
            M::Add | M::Insert => true,
            M::Delete => tree.ops() > 0,
            _ => false,
        };
        ensure!(changed || !must, "{m:?} applies to {} but changed nothing", old.show());
    }
    Ok(())
}
/// Hundreds of features.
fn s06_wide(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    let nf = s.range(200, 1500);
    match s.below(3) {
        0 => s06_mutate_on::<Ints, 3>(s, c, true, nf),
        1 => s06_mutate_on::<Kit5, 5>(s, c, false, nf),
        _ => s06_direct_on::<Kit24, 4>(s, c, nf),
    }
}

fn s06_large_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(8) {
        0 | 1 => s06_mutate::<Ints, 3>(s, c, true),
        2 => s06_mutate::<Kit5, 5>(s, c, false),
        3 => s06_mutate::<Kit24, 4>(s, c, false),
        4 => s06_direct::<Ints, 3>(s, c),
        5 => s06_direct::<Kit5, 5>(s, c),
        6 => s06_cross::<Ints, 3>(s, c),
        _ => s06_cross::<Kit5, 5>(s, c),
    }
}
/// Hundreds of nodes.
fn s06_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s06_large_case)
}

/// Every alternative a change has comes up in the long run.
fn s06_reach(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    let ids = Ints::ids();
    let m = *s.pick(&[M::Feature, M::Operator, M::Swap, M::Rotate, M::Delete, M::Constant, M::Insert, M::Add]);
    let wide = matches!(m, M::Feature | M::Insert | M::Add) && s.bool();
    let nf = if wide { s.range(17, 1500) } else { s.range(1, 4) };
    let cfg = tree::Cfg { n_features: nf, max_ops: if wide { 1 } else { 5 }, const_mode: 0, ids: ids.clone() };
    let t = tree::gen_tree(s, &cfg);
    let nc = tree::pool_len(s, &t, false);
    // all constants different
    let consts: Vec<f64> = (0..nc).map(|i| (2 * i + 3) as f64).collect();
    let old = Vt::of(&t, &consts);
    let data = {
        let x = Array2::from_shape_fn((nf, 2), |(f, r)| ((f * 3 + r * 5) % 7) as f64 - 3.0);
        Dataset::new(x, Array1::from_vec(vec![1.0, -2.0]))
    };
    let mut opts = Options::<f64, 3> { operators: pick_ops::<3>(&ids), ..Default::default() };
    quiet(&mut opts);
    (opts.annealing, opts.use_frequency) = (false, false);
    (opts.maxsize, opts.maxdepth) = (400, 400);
    opts.mutation_weights = zero_weights();
    *weight_of(&mut opts.mutation_weights, m) = 1.0;
    let mut ev = Evaluator::<f64, 3>::new(2);
    let mut parent = member::<f64, Ints, 3>(7, 3, mk_expr::<Ints, 3>(&t, &consts), nf);
    parent.evaluate(&TaggedDataset::new(&data, None), &opts, &mut ev);
    let stats = RunningSearchStatistics::new(opts.maxsize, 1000);
    let mut r = rng(s);
    c.key(&(m, t.shape_key(), nf));
    c.describe(|| format!("outcomes of {m:?} on {} with {nf} features", tree::show_o::<Ints>(&t, &consts)));
    let buckets = nf.min(16);
    let n = 2500;
    let mut seen: Vec<Vt> = vec![];
    let mut new_features = vec![0u32; buckets];
    let mut counts = std::collections::HashMap::<String, u32>::new();
    for _ in 0..n {
        let st = step::<Ints, 3>(&mut r, &parent, &data, None, 1.0, 400, &stats, &opts, &mut ev, 50, 60);
        let v = vt::<Ints, 3>(&st.child.expr, &ids, nf)?;
        let (mut a, mut b) = (vec![], vec![]);
        old.leaves(&mut a);
        v.leaves(&mut b);
        for l in b {
            if let Vt::Var(f) = l {
                if !a.contains(&l) {
                    new_features[*f as usize * buckets / nf] += 1;
                }
            }
        }
        if !wide {
            let k = v.show();
            let e = counts.entry(k).or_insert(0);
            if *e == 0 {
                seen.push(v);
            }
            *e += 1;
        }
    }
    if wide {
        // a feature that is not in the expression yet is drawn with probability about 1/nf each; constants take some draws
        let old_leaf = |k: usize| {
            let mut a = vec![];
            old.leaves(&mut a);
            a.iter().filter(|l| matches!(l, Vt::Var(f) if *f as usize * buckets / nf == k)).count()
        };
        let any = if m == M::Feature { t.vars() > 0 && (t.ops() > 0 || nc == 0) } else { true };
        for k in 0..buckets {
            let size = (0..nf).filter(|f| f * buckets / nf == k).count();
            // expected count at least 2500 / 16 / 2 / nodes, about 30; a bucket all of whose features are in use is skipped
            if any && size > old_leaf(k) {
                ensure!(new_features[k] > 0, "{m:?} never introduced a feature of {}..{} of {nf} in {n} tries", k * nf / buckets, (k + 1) * nf / buckets);
            }
        }
        c.nontrivial_if(any);
        return Ok(());
    }
    let want: Vec<Vt> = match m {
        M::Swap => swaps(&old),
        M::Rotate => rotations(&old),
        M::Delete => deletions(&old),
        M::Feature if nc > 0 && t.ops() == 0 => vec![],
        M::Feature => old.rewrites(&|v| match v {
            Vt::Var(f) => (0..nf as u16).filter(|g| g != f).map(Vt::Var).collect(),
            _ => vec![],
        }),
        M::Operator => old.rewrites(&|v| match v {
            Vt::Op(a, o, ch) => ids.iter().filter(|i| i.0 == *a && i.1 != *o).map(|i| Vt::Op(*a, i.1, ch.clone())).collect(),
            _ => vec![],
        }),
        M::Constant => vec![],
        _ => vec![],
    };
    for w in &want {
        ensure!(*w == old || seen.contains(w), "{m:?} of {} never gave {} in {n} tries", old.show(), w.show());
    }
    if m == M::Constant {
        // every constant in use, up and down
        let base: Vec<u64> = { let mut a = vec![]; old.leaves(&mut a); a.iter().filter_map(|l| if let Vt::Const(b) = l { Some(*b) } else { None }).collect() };
        for (i, b) in base.iter().enumerate() {
            let (mut up, mut down) = (false, false);
            for v in &seen {
                let mut l = vec![];
                v.leaves(&mut l);
                let now: Vec<u64> = l.iter().filter_map(|l| if let Vt::Const(b) = l { Some(*b) } else { None }).collect();
                let (x, y) = (f64::from_bits(*b).abs(), f64::from_bits(now[i]).abs());
                up |= y > x;
                down |= y < x;
            }
            ensure!(up && down, "constant {i} of {} was never made {} in {n} tries", old.show(), if up { "smaller" } else { "larger" });
        }
        c.nontrivial_if(!base.is_empty());
    }
    if matches!(m, M::Insert | M::Add) {
        // every operator is used, and (insert) every node wrapped
        for id in &ids {
            let uses = |v: &Vt| { fn k(v: &Vt, id: (u8, u16)) -> usize { match v { Vt::Op(a, o, ch) => ((*a, *o) == id) as usize + ch.iter().map(|c| k(c, id)).sum::<usize>(), _ => 0 } } k(v, *id) };
            let before = uses(&old);
            ensure!(seen.iter().any(|v| uses(v) > before), "{m:?} of {} never used operator {id:?} in {n} tries", old.show());
        }
        c.nontrivial();
    }
    c.nontrivial_if(want.len() > 1);
    Ok(())
}
fn s06_ints(s: &mut Source, c: &mut Case) -> PropResult {
    s06_mutate::<Ints, 3>(s, c, true)
}
fn s06_builtin(s: &mut Source, c: &mut Case) -> PropResult {
    s06_mutate::<BuiltinOpsF64, 3>(s, c, false)
}
fn s06_kit5(s: &mut Source, c: &mut Case) -> PropResult {
    s06_mutate::<Kit5, 5>(s, c, false)
}
fn s06_kit24(s: &mut Source, c: &mut Case) -> PropResult {
    s06_mutate::<Kit24, 4>(s, c, false)
}

fn s06_direct<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let nf = s.range(1, 4);
    s06_direct_on::<O, D>(s, c, nf)
}
fn s06_direct_on<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, nf: usize) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let ids = gen_ids::<O>(s);
    let ops = pick_ops::<D>(&ids);
    let which = s.below(4);
    let min_arity = ids.iter().map(|x| x.0).min().unwrap() as usize;
    match which {
        0 => {
            let size = s.range(1, vcommon::up(60, 3000));
            let mut r = rng(s);
            let e: PostfixExpr<O::N, O, D> = random_expr(&mut r, &ops, nf, size);
            c.class("random_expr");
            c.key(&(0, size, &ids, r.u64(..)));
            c.nontrivial_if(size > min_arity);
            c.describe(|| format!("random_expr of size {size} over {ids:?}"));
            let v = vt::<O, D>(&e, &ids, nf)?;
            ensure!(v.size() <= size && !e.nodes.is_empty(), "random expression of {} nodes for size {size}", v.size());
        }
        1 => {
            let (n, max) = (s.range(0, vcommon::up(12, 400)), if s.bool() { s.range(1, vcommon::up(40, 2000)) } else { s.range(1, 6) });
            let mut r = rng(s);
            let e: PostfixExpr<O::N, O, D> = random_expr_append_ops(&mut r, &ops, nf, n, max);
            c.class("random_expr_append_ops");
            c.key(&(1, n, max, &ids, r.u64(..)));
            c.nontrivial_if(n > 0);
            c.describe(|| format!("random_expr_append_ops {n} rounds, at most {max} nodes, over {ids:?}"));
            let v = vt::<O, D>(&e, &ids, nf)?;
            let t = tree::parse(&e.nodes).unwrap();
            ensure!(v.size() <= max, "{} nodes, at most {max}", v.size());
            ensure!(t.ops() <= n, "{} operators after {n} rounds", t.ops());
            if n > 0 && max > D {
                ensure!(t.ops() > 0, "no operator appended in {n} rounds with room for {max} nodes");
            }
        }
        _ => {
            let (t, consts, mut e) = gen_expr::<O, D>(s, &ids, nf, vcommon::up(12, 250), 0);
            let mut r = rng(s);
            let old = Vt::of(&t, &consts);
            c.key(&(which, t.shape_key(), r.u64(..)));
            if which == 2 {
                c.class("rotate_tree_in_place");
                c.describe(|| format!("rotate {}", tree::show_o::<O>(&t, &consts)));
                let did = rotate_tree_in_place(&mut r, &mut e);
                let new = vt::<O, D>(&e, &ids, nf)?;
                let w = rotations(&old);
                c.nontrivial_if(did);
                ensure!(did == !w.is_empty(), "rotation reported {did}, {} rotations exist", w.len());
                ensure!(if did { w.contains(&new) } else { new == old }, "not one rotation: {} became {}", old.show(), new.show());
            } else {
                c.class("insert_random_op_in_place");
                c.describe(|| format!("insert into {}", tree::show_o::<O>(&t, &consts)));
                let did = insert_random_op_in_place(&mut r, &mut e, &ops, nf);
                let new = vt::<O, D>(&e, &ids, nf)?;
                c.nontrivial_if(did);
                ensure!(did && one_site(&old, &new, &wrapped), "insert reported {did}: {} became {}", old.show(), new.show());
            }
        }
    }
    Ok(())
}

/// Postfix of values, and the subtree ending at each position.
fn vpost(v: &Vt, out: &mut Vec<(u8, u64)>, spans: &mut Vec<(usize, usize)>) {
    let start = out.len();
    match v {
        Vt::Var(f) => out.push((0, *f as u64)),
        Vt::Const(b) => out.push((255, *b)),
        Vt::Op(a, o, ch) => {
            for c in ch {
                vpost(c, out, spans);
            }
            out.push((*a, *o as u64));
        }
    }
    spans.push((start, out.len()));
}

fn exchange_ok(a: &Vt, b: &Vt, ca: &Vt, cb: &Vt) -> bool {
    let p = |v: &Vt| {
        let (mut o, mut sp) = (vec![], vec![]);
        vpost(v, &mut o, &mut sp);
        (o, sp)
    };
    let ((na, sa), (nb, sb), (nca, _), (ncb, _)) = (p(a), p(b), p(ca), p(cb));
    for &(i0, i1) in &sa {
        for &(j0, j1) in &sb {
            if na.len() - (i1 - i0) + (j1 - j0) != nca.len() || nb.len() - (j1 - j0) + (i1 - i0) != ncb.len() {
                continue;
            }
            let x = na[..i0].iter().chain(&nb[j0..j1]).chain(&na[i1..]);
            let y = nb[..j0].iter().chain(&na[i0..i1]).chain(&nb[j1..]);
            if x.eq(nca.iter()) && y.eq(ncb.iter()) {
                return true;
            }
        }
    }
    false
}

fn s06_cross<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let ids = gen_ids::<O>(s);
    let nf = s.range(1, 4);
    let rows = s.range(1, 4);
    let kind = gen_loss_kind(s);
    // wide-ranging inputs: one child, or both, may not be finite
    let xm = *s.pick(&[1, 1, 2]);
    let data = gen_dataset::<O::N>(s, nf, rows, xm, false);
    let mut opts = Options::<O::N, D> { operators: pick_ops::<D>(&ids), loss: make_loss(kind.clone()), ..Default::default() };
    quiet(&mut opts);
    let roomy = vcommon::up(400, 6000);
    let lim = if s.bool() { gen_limits(s, &ids, nf, false) } else { Limits { cx: Cx { consts: 1, vars: 1, ..Default::default() }, maxdepth: roomy, ..Default::default() } };
    lim.apply(&mut opts);
    opts.maxsize = if s.bool() { roomy } else { s.range(1, vcommon::up(25, 600)) };
    let cur = if s.bool() { opts.maxsize } else { s.range(1, opts.maxsize) };
    let (ta, ka, ea) = gen_expr::<O, D>(s, &ids, nf, vcommon::up(10, 120), 0);
    let (tb, kb, eb) = gen_expr::<O, D>(s, &ids, nf, vcommon::up(10, 120), 0);
    let mut ev = Evaluator::<O::N, D>::new(rows);
    let tag = TaggedDataset::new(&data, Some(O::N::of(2.0)));
    let mut a = member::<O::N, O, D>(11, 1, ea, nf);
    let mut b = member::<O::N, O, D>(12, 2, eb, nf);
    a.evaluate(&tag, &opts, &mut ev);
    b.evaluate(&tag, &opts, &mut ev);
    let (a0, b0) = (a.clone(), b.clone());
    let (mut id, mut birth) = (100, 200);
    let mut r = rng(s);
    c.key(&(ta.shape_key(), tb.shape_key(), cur, r.u64(..)));
    c.describe(|| format!("{} x {} (size limit {cur}, {lim:?})", tree::show_o::<O>(&ta, &ka), tree::show_o::<O>(&tb, &kb)));
    let (x, y, acc, evals) = crossover_generation(
        &a,
        &b,
        CrossoverCtx { rng: &mut r, dataset: tag, curmaxsize: cur, options: &opts, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: PhantomData::<O> },
    );
    for (m, m0) in [(&a, &a0), (&b, &b0)] {
        ensure!(same_expr::<O, D>(&m.expr, &m0.expr) && same_scores::<O, D>(m, m0) && m.id == m0.id && m.birth == m0.birth, "a parent was modified");
    }
    c.nontrivial_if(acc);
    c.class(if acc { "accepted" } else { "rejected" });
    let free = lim.maxdepth == roomy && opts.maxsize == roomy && cur == roomy;
    ensure!(acc || !free, "crossover without limits was rejected");
    if !acc {
        ensure!(same_expr::<O, D>(&x.expr, &a.expr) && same_expr::<O, D>(&y.expr, &b.expr) && same_scores::<O, D>(&x, &a) && same_scores::<O, D>(&y, &b), "rejected crossover altered the candidates");
        return Ok(());
    }
    let (tx, ty) = (read::<O, D>(&x.expr, &ids, nf)?, read::<O, D>(&y.expr, &ids, nf)?);
    let (va, vb, vx, vy) = (Vt::of(&ta, &ka), Vt::of(&tb, &kb), Vt::of(&tx, &x.expr.consts), Vt::of(&ty, &y.expr.consts));
    ensure!(exchange_ok(&va, &vb, &vx, &vy), "not one subtree exchanged: {} x {} gave {} and {}", va.show(), vb.show(), vx.show(), vy.show());
    let mut fine = vec![];
    for (m, t) in [(&x, &tx), (&y, &ty)] {
        if let Err(w) = lim.ok(t, cur) {
            return Err(format!("crossover child breaks the {w} limit: {}", tree::show_o::<O>(t, &m.expr.consts)));
        }
        fine.push(true_scores::<O, D>(m, t, &data, &kind, &lim.cx, &opts, Some(2.0))?);
    }
    c.class_if(fine[0] != fine[1], "one child finite, one not");
    ensure!(x.id != y.id && x.id.0 >= 100 && y.id.0 >= 100 && id == 102 && x.id.0 < id && y.id.0 < id, "identifiers {:?} {:?}, next {id}", x.id, y.id);
    ensure!(birth == 202 && x.birth >= 200 && y.birth >= 200 && x.birth != y.birth && x.birth < 202 && y.birth < 202, "births {} {}, next {birth}", x.birth, y.birth);
    ensure!(x.parent == Some(a.id) && y.parent == Some(b.id), "parents {:?} {:?}", x.parent, y.parent);
    Ok(())
}

pub fn p_s06() -> Property {
    Property {
        id: "S06",
        rule: "the mutation changed the expression / the generator had room for an operator / the crossover was accepted",
        assumptions: &["mutations are reached through one evolution step whose only non-zero weight is that mutation (private functions are not called directly)"],
        subs: vec![
            Sub { name: "mutate-ints", quick: 1_500_000, thorough: 30_000_000, tape: 260, shards: 0, f: s06_ints },
            Sub { name: "mutate-builtin", quick: 360_000, thorough: 7_200_000, tape: 260, shards: 0, f: s06_builtin },
            Sub { name: "mutate-kit5", quick: 360_000, thorough: 7_200_000, tape: 260, shards: 0, f: s06_kit5 },
            Sub { name: "mutate-kit24", quick: 240_000, thorough: 4_800_000, tape: 260, shards: 0, f: s06_kit24 },
            Sub { name: "direct-ints", quick: 480_000, thorough: 9_600_000, tape: 200, shards: 0, f: s06_direct::<Ints, 3> },
            Sub { name: "direct-kit5", quick: 480_000, thorough: 9_600_000, tape: 200, shards: 0, f: s06_direct::<Kit5, 5> },
            Sub { name: "direct-kit24", quick: 240_000, thorough: 4_800_000, tape: 200, shards: 0, f: s06_direct::<Kit24, 4> },
            Sub { name: "many-features", quick: 20_000, thorough: 600_000, tape: 20, shards: 0, f: s06_wide },
            Sub { name: "large", quick: 12_000, thorough: 360_000, tape: 40, shards: 0, f: s06_large },
            Sub { name: "reach", quick: 1_200, thorough: 30_000, tape: 20, shards: 0, f: s06_reach },
            Sub { name: "crossover-ints", quick: 360_000, thorough: 7_200_000, tape: 300, shards: 0, f: s06_cross::<Ints, 3> },
            Sub { name: "crossover-kit5", quick: 240_000, thorough: 4_800_000, tape: 300, shards: 0, f: s06_cross::<Kit5, 5> },
            Sub { name: "crossover-f32", quick: 240_000, thorough: 4_800_000, tape: 300, shards: 0, f: s06_cross::<BuiltinOpsF32, 3> },
        ],
    }
}

// ---------------------------------------------------------------- S07

fn s07_step<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case, ints: bool) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let ids = gen_ids::<O>(s);
    let nf = s.range(1, vcommon::up(3, 40));
    let rows = s.range(1, vcommon::up(6, 200));
    let kind = gen_loss_kind(s);
    let weighted = s.chance(1, 4);
    let data = if ints {
        let d = int_data(s, nf, rows);
        let x = d.x.mapv(O::N::of);
        let y = d.y.mapv(O::N::of);
        Dataset::new(x, y)
    } else {
        let xm = *s.pick(&[1, 4, 0]);
        gen_dataset::<O::N>(s, nf, rows, xm, weighted)
    };
    let mut opts = Options::<O::N, D> { operators: pick_ops::<D>(&ids), loss: make_loss(kind.clone()), ..Default::default() };
    quiet(&mut opts);
    let lim = gen_limits(s, &ids, nf, false);
    lim.apply(&mut opts);
    opts.maxsize = s.range(3, vcommon::up(30, 400));
    let cur = if s.bool() { opts.maxsize } else { s.range(3, opts.maxsize) };
    opts.annealing = s.bool();
    opts.use_frequency = s.bool();
    opts.use_baseline = s.bool();
    opts.parsimony = *s.pick(&[0.0, 0.01, 1.0]);
    opts.should_simplify = s.bool();
    opts.should_optimize_constants = s.chance(3, 4);
    opts.optimizer_probability = *s.pick(&[0.0, 0.5]);
    opts.optimizer_iterations = s.range(1, 4);
    opts.optimizer_nrestarts = s.below(2);
    let baseline = if s.chance(3, 4) { Some(s.uniform(0.0, 5.0)) } else { None };
    // mixed weights
    opts.mutation_weights = zero_weights();
    for m in MS {
        if s.bool() {
            *weight_of(&mut opts.mutation_weights, m) = s.uniform(0.01, 2.0);
        }
    }
    if s.bool() {
        opts.mutation_weights.do_nothing += 1e-6;
    }
    // a legal parent
    let cm = if ints { 0 } else { 1 };
    let (mut t, mut consts, mut e) = gen_expr::<O, D>(s, &ids, nf, vcommon::up(8, 150), cm);
    let mut tries = 0;
    while lim.ok(&t, opts.maxsize).is_err() && tries < 6 {
        let r = gen_expr::<O, D>(s, &ids, nf, 3, cm);
        (t, consts, e) = r;
        tries += 1;
    }
    if lim.ok(&t, opts.maxsize).is_err() {
        t = Tree::Var(0);
        consts = vec![];
        e = mk_expr::<O, D>(&t, &consts);
    }
    let mut ev = Evaluator::<O::N, D>::new(rows);
    let mut stats = RunningSearchStatistics::new(opts.maxsize, 100_000);
    for _ in 0..s.below(20) {
        stats.update_frequencies(s.range(1, opts.maxsize));
    }
    stats.normalize();
    let tag_base = baseline.map(O::N::of);
    let mut parent = member::<O::N, O, D>(5, 9, e, nf);
    parent.evaluate(&TaggedDataset::new(&data, tag_base), &opts, &mut ev);
    let temperature = *s.pick(&[1.0, 0.5, 0.01, 0.0]);
    let mut r = rng(s);
    let n = s.range(1, vcommon::up(6, 60));
    c.describe(|| format!("{} ({} steps, annealing {} frequency {} temperature {temperature}, size {cur} of {}, {lim:?})", tree::show_o::<O>(&t, &consts), n, opts.annealing, opts.use_frequency, opts.maxsize));
    let (mut id, mut birth) = (s.u64() >> 8, s.u64() >> 8);
    // `simplified`: scores of this lineage are only exact up to rounding of a simplification
    let mut inexact = false;
    for k in 0..n {
        let keep = parent.clone();
        let st = step::<O, D>(&mut r, &parent, &data, tag_base, temperature, cur, &stats, &opts, &mut ev, id, birth);
        ensure!(same_expr::<O, D>(&parent.expr, &keep.expr) && same_scores::<O, D>(&parent, &keep) && parent.id == keep.id && parent.parent == keep.parent && parent.birth == keep.birth, "the parent was modified");
        ensure!(st.next_id == id + 1 && st.next_birth == birth + 1, "identifier and birth counters moved by {} and {}", st.next_id - id, st.next_birth - birth);
        let ch = &st.child;
        ensure!(ch.id.0 == id && ch.birth == birth && ch.parent == Some(parent.id), "child has id {:?} birth {} parent {:?}; expected {id} {birth} {:?}", ch.id, ch.birth, ch.parent, parent.id);
        ensure!(st.evals >= 0.0, "negative evaluation count");
        let ct = read::<O, D>(&ch.expr, &ids, nf)?;
        c.key(&(ct.shape_key(), st.accepted, k));
        c.class(if st.accepted { "accepted" } else { "rejected" });
        c.nontrivial_if(st.accepted && !same_expr::<O, D>(&ch.expr, &parent.expr));
        if st.accepted {
            if let Err(w) = lim.ok(&ct, cur) {
                return Err(format!("accepted child breaks the {w} limit: {}", tree::show_o::<O>(&ct, &ch.expr.consts)));
            }
            ensure!(ch.complexity == lim.cx.of(&ct), "recorded complexity {}, true {}", ch.complexity, lim.cx.of(&ct));
            // a simplification keeps the parent's loss: equal up to rounding
            let carried = ch.loss.same(parent.loss) && opts.mutation_weights.simplify > 0.0;
            if carried {
                if ints {
                    check_carried::<O, D>(ch, &ct, &data, &kind, &opts, baseline)?;
                }
                if !ch.loss.is_finite() || true_scores::<O, D>(ch, &ct, &data, &kind, &lim.cx, &opts, baseline).is_err() {
                    inexact = true;
                }
            } else {
                let fin = true_scores::<O, D>(ch, &ct, &data, &kind, &lim.cx, &opts, baseline)?;
                ensure!(fin, "accepted a child with infinite loss");
            }
            // the plan matches the expression: evaluating again gives the recorded scores
            if !carried {
                let mut again = ch.clone();
                let mut ev2 = Evaluator::<O::N, D>::new(rows);
                again.evaluate(&TaggedDataset::new(&data, tag_base), &opts, &mut ev2);
                ensure!(same_scores::<O, D>(&again, ch), "re-evaluation gives {:?}/{:?}, recorded {:?}/{:?}", again.loss, again.cost, ch.loss, ch.cost);
            }
        } else {
            ensure!(same_expr::<O, D>(&ch.expr, &parent.expr) && same_scores::<O, D>(ch, &parent), "a rejected step did not return the parent unchanged: {:?}/{:?} vs {:?}/{:?}", ch.loss, ch.cost, parent.loss, parent.cost);
            // and its plan is usable
            let mut again = ch.clone();
            let mut ev2 = Evaluator::<O::N, D>::new(rows);
            again.evaluate(&TaggedDataset::new(&data, tag_base), &opts, &mut ev2);
            let mut pa = parent.clone();
            pa.evaluate(&TaggedDataset::new(&data, tag_base), &opts, &mut ev2);
            ensure!(same_scores::<O, D>(&again, &pa), "the rejected copy evaluates differently from the parent");
        }
        id = st.next_id;
        birth = st.next_birth;
        parent = st.child;
        if inexact {
            break;
        }
    }
    Ok(())
}
/// On exact integer data a simplification's carried loss is the true one.
fn check_carried<O: TestOps, const D: usize>(m: &PopMember<O::N, O, D>, t: &Tree, data: &Dataset<O::N>, kind: &LossKind, opts: &Options<O::N, D>, baseline: Option<f64>) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let (yhat, fin) = tree::reval_all::<O>(t, &data.x, &m.expr.consts);
    let exact = m.expr.consts.iter().all(|v| Num::f(*v).fract() == 0.0 && Num::f(*v).abs() < 1e6) && yhat.iter().all(|v| Num::f(*v).abs() < 1e9);
    if fin && exact && m.loss.is_finite() {
        let (l, err) = kind_loss::<O::N>(kind, &yhat, data);
        ensure!((Num::f(m.loss) - l).abs() <= err + 1e-300, "simplified child records loss {:?}, its expression has {l}", m.loss);
        let c = ref_cost(Num::f(m.loss), m.complexity, opts.parsimony, opts.use_baseline, baseline);
        ensure!((Num::f(m.cost) - c).abs() <= 8.0 * O::N::EPS * c.abs() + 1e-300, "simplified child records cost {:?}, expected {c}", m.cost);
    }
    Ok(())
}

fn s07_ints(s: &mut Source, c: &mut Case) -> PropResult {
    s07_step::<Ints, 3>(s, c, true)
}
fn s07_builtin(s: &mut Source, c: &mut Case) -> PropResult {
    s07_step::<BuiltinOpsF64, 3>(s, c, false)
}
fn s07_f32(s: &mut Source, c: &mut Case) -> PropResult {
    s07_step::<BuiltinOpsF32, 3>(s, c, false)
}
fn s07_kit5(s: &mut Source, c: &mut Case) -> PropResult {
    s07_step::<Kit5, 5>(s, c, false)
}

/// Acceptance: a step with only one possible child, judged over many random streams.
fn s07_accept(s: &mut Source, c: &mut Case) -> PropResult {
    // parent op(x0) with complexity 1 + cost(op); deleting its only operator gives x0
    let ids = Ints::ids();
    let un: Vec<(u8, u16)> = ids.iter().copied().filter(|x| x.0 == 1).collect();
    let op = *s.pick(&un);
    // or: parent x0, whose only mutation is to x1, of any complexity up to the limit
    let flip = s.bool();
    let t = if flip { Tree::Var(0) } else { Tree::Op(1, op.1, vec![Tree::Var(0)]) };
    let opx = s.range(1, 4) as u16;
    let vx = s.range(1, 4) as u16;
    let maxsize = s.range(8, 20);
    let (old_cx, new_cx) = if flip { (s.range(1, maxsize), if s.chance(1, 3) { maxsize } else { s.range(1, maxsize) }) } else { ((vx + opx) as usize, vx as usize) };
    let mut opts = Options::<f64, 3> { operators: pick_ops::<3>(&ids), ..Default::default() };
    quiet(&mut opts);
    opts.maxsize = maxsize;
    opts.mutation_weights = zero_weights();
    if flip {
        Limits { cx: Cx { consts: 1, vars: 1, per_var: Some(vec![old_cx as u16, new_cx as u16]), ..Default::default() }, maxdepth: 30, ..Default::default() }.apply(&mut opts);
        opts.mutation_weights.mutate_feature = 1.0;
        c.class_if(new_cx == maxsize, "new complexity at the limit");
    } else {
        opts.complexity_of_variables = vx;
        opts.operator_complexity_overrides.insert(dynamic_expressions::OpId { arity: 1, id: op.1 }, opx);
        opts.mutation_weights.delete_node = 1.0;
    }
    opts.annealing = s.chance(3, 4);
    opts.use_frequency = s.chance(3, 4);
    opts.alpha = s.uniform(0.1, 5.0);
    opts.parsimony = *s.pick(&[0.0, 0.1]);
    let temperature = if s.chance(1, 8) { 0.0 } else { s.uniform(0.02, 1.0) };
    let nf = 1 + flip as usize;
    let data = int_data(s, nf, 3);
    let mut stats = RunningSearchStatistics::new(opts.maxsize, 100_000);
    for _ in 0..s.below(60) {
        stats.update_frequencies(s.range(1, 8));
    }
    // sizes of interest get extra weight, so that the ratio varies
    let (fo, fnew) = (s.below(40), s.below(40));
    for _ in 0..fo {
        stats.update_frequencies(old_cx);
    }
    for _ in 0..fnew {
        stats.update_frequencies(new_cx);
    }
    stats.normalize();
    let total: f64 = stats.frequencies.iter().sum();
    let (f_old, f_new) = (stats.frequencies[old_cx - 1] / total, stats.frequencies[new_cx - 1] / total);
    let mut ev = Evaluator::<f64, 3>::new(3);
    let tag = TaggedDataset::new(&data, None);
    let mut x0 = member::<f64, Ints, 3>(1, 1, mk_expr::<Ints, 3>(&Tree::Var(flip as u16), &[]), nf);
    x0.evaluate(&tag, &opts, &mut ev);
    let mut parent = member::<f64, Ints, 3>(5, 9, mk_expr::<Ints, 3>(&t, &[]), nf);
    parent.evaluate(&tag, &opts, &mut ev);
    // the parent's recorded cost is free: choose the cost increase
    let delta = match s.below(6) {
        // at temperature 0 the rule is a limit, which does not exist for equal costs
        0 if temperature > 0.0 || !opts.annealing => 0.0,
        1 => -s.uniform(0.0, 3.0),
        2 => f64::NEG_INFINITY,
        _ => -s.uniform(0.02, 0.98).ln() * temperature.max(0.02) * opts.alpha,
    };
    parent.cost = x0.cost - delta;
    let delta = x0.cost - parent.cost;
    let mut p = 1.0;
    if opts.annealing {
        if temperature == 0.0 {
            // limit of the rule
            p = if delta > 0.0 { 0.0 } else if delta < 0.0 { f64::INFINITY } else { 1.0 };
        } else {
            p = (-delta / (temperature * opts.alpha)).exp();
        }
    }
    if opts.use_frequency {
        p *= f_old / f_new;
    }
    let p = p.min(1.0);
    c.key(&(delta.to_bits(), temperature.to_bits(), f_old.to_bits(), f_new.to_bits(), opts.annealing, opts.use_frequency));
    c.nontrivial_if(p > 0.02 && p < 0.98);
    c.class(if p == 1.0 {
        "certain"
    } else if p == 0.0 {
        "impossible"
    } else {
        "random"
    });
    let n = 1500u32;
    c.describe(|| format!("cost increase {delta}, temperature {temperature}, alpha {}, annealing {}, frequency {} ({f_old} -> {f_new}): acceptance {p}, {n} draws", opts.alpha, opts.annealing, opts.use_frequency));
    let mut acc = 0u32;
    let mut r = rng(s);
    for k in 0..n {
        let st = step::<Ints, 3>(&mut r, &parent, &data, None, temperature, opts.maxsize, &stats, &opts, &mut ev, k as u64, k as u64);
        let child = tree::parse(&st.child.expr.nodes);
        ensure!(child == Some(if st.accepted { Tree::Var(flip as u16) } else { t.clone() }), "unexpected child {:?} (accepted {})", st.child.expr.nodes, st.accepted);
        ensure!(st.accepted || st.child.cost.to_bits() == parent.cost.to_bits(), "rejected child lost the parent's cost");
        acc += st.accepted as u32;
    }
    if p == 1.0 {
        ensure!(acc == n, "accepted {acc} of {n}, must always accept");
    } else if p == 0.0 {
        ensure!(acc == 0, "accepted {acc} of {n}, must never accept");
    } else {
        // Bernstein: P(|X - np| > d) <= 2 exp(-d^2 / (2 (np(1-p) + d/3))), solved for 1e-13
        let l = (2.0f64 / 1e-13).ln();
        let v = n as f64 * p * (1.0 - p);
        let d = l / 3.0 + (l * l / 9.0 + 2.0 * l * v).sqrt();
        ensure!((acc as f64 - n as f64 * p).abs() <= d, "accepted {acc} of {n}; expected {:.1} +- {d:.1} (p = {p})", n as f64 * p);
    }
    Ok(())
}

fn s07_large_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(4) {
        0 => s07_ints(s, c),
        1 => s07_builtin(s, c),
        2 => s07_f32(s, c),
        _ => s07_kit5(s, c),
    }
}
fn s07_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s07_large_case)
}

pub fn p_s07() -> Property {
    Property {
        id: "S07",
        rule: "an accepted step that changed the expression; acceptance cases: acceptance probability strictly between 0.02 and 0.98",
        assumptions: &[
            "acceptance frequencies are flagged only beyond a Bernstein bound of probability 1e-13 per case",
            "a child that carries its parent's loss while the simplify mutation is enabled may be a simplification: its loss is then checked exactly only for the integer operator set",
            "complexity frequencies are used only for complexities within 1..=maxsize",
        ],
        subs: vec![
            Sub { name: "step-ints", quick: 720_000, thorough: 14_400_000, tape: 400, shards: 0, f: s07_ints },
            Sub { name: "step-builtin", quick: 480_000, thorough: 9_600_000, tape: 400, shards: 0, f: s07_builtin },
            Sub { name: "step-f32", quick: 360_000, thorough: 7_200_000, tape: 400, shards: 0, f: s07_f32 },
            Sub { name: "step-kit5", quick: 360_000, thorough: 7_200_000, tape: 400, shards: 0, f: s07_kit5 },
            Sub { name: "crossover-builtin", quick: 240_000, thorough: 4_800_000, tape: 300, shards: 0, f: s06_cross::<BuiltinOpsF64, 3> },
            Sub { name: "crossover-kit24", quick: 120_000, thorough: 2_400_000, tape: 300, shards: 0, f: s06_cross::<Kit24, 4> },
            Sub { name: "acceptance", quick: 12_000, thorough: 240_000, tape: 300, shards: 0, f: s07_accept },
            Sub { name: "large", quick: 4_000, thorough: 120_000, tape: 60, shards: 0, f: s07_large },
        ],
    }
}

// ---------------------------------------------------------------- S08

fn s08<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let ids = O::ids();
    let nf = s.range(1, vcommon::up(3, 60));
    let nd = s.range(1, 2);
    let kind = gen_loss_kind(s);
    let datas: Vec<Dataset<O::N>> = (0..nd)
        .map(|_| {
            let rows = s.range(1, vcommon::up(10, 2500));
            let xm = if vcommon::large() { 1 } else { *s.pick(&[1, 4, 4, 0, 2]) };
            let w = s.chance(1, 3);
            gen_dataset::<O::N>(s, nf, rows, xm, w)
        })
        .collect();
    let mut opts = Options::<O::N, D> { operators: pick_ops::<D>(&ids), loss: make_loss(kind.clone()), ..Default::default() };
    quiet(&mut opts);
    opts.should_optimize_constants = s.chance(9, 10);
    opts.optimizer_iterations = s.below(12);
    opts.optimizer_nrestarts = s.below(3);
    opts.optimizer_f_calls_limit = *s.pick(&[10_000, 10_000, 0, 1, 5, 30]);
    opts.use_baseline = s.bool();
    opts.parsimony = *s.pick(&[0.0, 0.3]);
    let cx = gen_cx(s, &ids, nf, true);
    Limits { cx: cx.clone(), maxdepth: 30, ..Default::default() }.apply(&mut opts);
    let mut ev = Evaluator::<O::N, D>::new(datas[0].n_rows);
    let mut gc = GradContext::<O::N, D>::new(datas[0].n_rows);
    let mut r = rng(s);
    for k in 0..s.range(1, 3) {
        let di = s.below(nd);
        let data = &datas[di];
        let baseline = if s.bool() { Some(s.uniform(0.0, 4.0)) } else { None };
        let cm = *s.pick(&[1, 1, 0, 4]);
        let (t, consts, e) = {
            let cfg = tree::Cfg { n_features: nf, max_ops: vcommon::up(8, 80), const_mode: s.below(2), ids: ids.clone() };
            let t = tree::gen_tree(s, &cfg);
            let n = tree::pool_len(s, &t, true);
            let cs: Vec<O::N> = (0..n).map(|_| O::N::of(tree::gen_num(s, cm))).collect();
            let e = tree::expr::<O, D>(&t, cs.clone());
            (t, cs, e)
        };
        let mut m = member::<O::N, O, D>(3, 77, e, nf);
        m.parent = Some(MemberId(1));
        ev.ensure_n_rows(data.n_rows);
        gc.n_rows = data.n_rows;
        let tag = TaggedDataset::new(data, baseline.map(O::N::of));
        // recorded scores may be those of other data (batching), or stale
        let stale = s.chance(1, 3);
        m.evaluate(&tag, &opts, &mut ev);
        let here = m.loss;
        if stale {
            m.loss = O::N::of(s.uniform(0.0, 9.0));
            m.cost = O::N::of(s.uniform(0.0, 9.0));
        }
        let keep = m.clone();
        let mut nb = 500u64;
        c.key(&(t.shape_key(), di, k));
        c.describe_more(|| format!("data{di}: {} ({kind:?}, {} iterations, {} restarts, {} calls{})", tree::show_o::<O>(&t, &consts), opts.optimizer_iterations, opts.optimizer_nrestarts, opts.optimizer_f_calls_limit, if stale { ", other recorded scores" } else { "" }));
        let (improved, evals) = optimize_constants(&mut r, &mut m, OptimizeConstantsCtx { dataset: tag, options: &opts, evaluator: &mut ev, grad_ctx: &mut gc, next_birth: &mut nb });
        ensure!(evals >= 0.0 && evals.is_finite(), "evaluation count {evals}");
        ensure!(m.expr.nodes == keep.expr.nodes && m.expr.consts.len() == keep.expr.consts.len() && m.id == keep.id && m.parent == keep.parent, "optimisation changed more than constants, scores and birth");
        c.class(if improved { "improved" } else { "unchanged" });
        c.nontrivial_if(improved);
        if improved {
            ensure!(opts.should_optimize_constants && !consts.is_empty(), "improved although there is nothing to optimise");
            ensure!(nb == 501 && m.birth == 500, "birth {} (next {nb}); expected 500 (501)", m.birth);
            let fin = true_scores::<O, D>(&m, &t, data, &kind, &cx, &opts, baseline)?;
            ensure!(fin, "improved to an infinite loss");
            ensure!(m.loss < here, "reported improvement but the loss on the data went from {here:?} to {:?}", m.loss);
        } else {
            ensure!(nb == 500, "birth counter advanced without improvement");
            ensure!(same_expr::<O, D>(&m.expr, &keep.expr), "constants changed without improvement: {:?} -> {:?}", keep.expr.consts, m.expr.consts);
            ensure!(m.loss.same(keep.loss) && m.cost.same(keep.cost) && m.birth == keep.birth && m.complexity == keep.complexity, "scores or birth changed without improvement");
        }
        // the plan still matches
        let mut again = m.clone();
        let mut ev2 = Evaluator::<O::N, D>::new(data.n_rows);
        again.evaluate(&tag, &opts, &mut ev2);
        if improved {
            ensure!(same_scores::<O, D>(&again, &m), "re-evaluation differs from the recorded scores");
        }
    }
    Ok(())
}

/// Least squares by Householder QR; None when badly conditioned.
fn lstsq(a: &[Vec<f64>], b: &[f64]) -> Option<(Vec<f64>, f64)> {
    let (m, n) = (a.len(), a[0].len());
    let mut q: Vec<Vec<f64>> = a.to_vec();
    let mut y = b.to_vec();
    let mut diag: Vec<f64> = vec![];
    for k in 0..n {
        let norm = (k..m).map(|i| q[i][k] * q[i][k]).sum::<f64>().sqrt();
        if norm < 1e-9 {
            return None;
        }
        let alpha = if q[k][k] > 0.0 { -norm } else { norm };
        let mut v: Vec<f64> = (k..m).map(|i| q[i][k]).collect();
        v[0] -= alpha;
        let vv: f64 = v.iter().map(|x| x * x).sum();
        for j in k..n {
            let d: f64 = (k..m).map(|i| v[i - k] * q[i][j]).sum::<f64>() * 2.0 / vv;
            for i in k..m {
                q[i][j] -= d * v[i - k];
            }
        }
        let d: f64 = (k..m).map(|i| v[i - k] * y[i]).sum::<f64>() * 2.0 / vv;
        for i in k..m {
            y[i] -= d * v[i - k];
        }
        diag.push(q[k][k].abs());
    }
    let (mx, mn) = (diag.iter().cloned().fold(0.0, f64::max), diag.iter().cloned().fold(f64::MAX, f64::min));
    if mx / mn > 30.0 {
        return None;
    }
    let mut x = vec![0.0; n];
    for k in (0..n).rev() {
        let t: f64 = (k + 1..n).map(|j| q[k][j] * x[j]).sum();
        x[k] = (y[k] - t) / q[k][k];
    }
    let rss: f64 = (n..m).map(|i| y[i] * y[i]).sum();
    Some((x, rss))
}

fn s08_linear(s: &mut Source, c: &mut Case) -> PropResult {
    type O = BuiltinOpsF64;
    let table = crate::ops::builtin_table();
    let id = |n: &str| table.iter().find(|x| x.1 == n).map(|x| (x.0, x.2)).unwrap();
    let op2 = |n: &str, a: Tree, b: Tree| {
        let (ar, o) = id(n);
        Tree::Op(ar, o, vec![a, b])
    };
    let op1 = |n: &str, a: Tree| {
        let (ar, o) = id(n);
        Tree::Op(ar, o, vec![a])
    };
    let nf = vcommon::up(3, 12);
    let k = s.range(1, vcommon::up(4, 10));
    let rows = s.range(k + 1, vcommon::up(24, 2500));
    let mut basis: Vec<Tree> = vec![Tree::Var(0), Tree::Var(1), Tree::Var(2), op1("cos", Tree::Var(0)), op2("mul", Tree::Var(1), Tree::Var(2)), op1("tanh", Tree::Var(1)), op1("abs", Tree::Var(2))];
    basis.extend((3..nf).map(|f| Tree::Var(f as u16)));
    let intercept = s.bool();
    let mut terms: Vec<Option<Tree>> = vec![];
    for i in 0..k {
        if i == 0 && intercept {
            terms.push(None);
        } else {
            let j = s.below(basis.len());
            terms.push(Some(basis.swap_remove(j)));
        }
    }
    let mut t: Option<Tree> = None;
    for (i, b) in terms.iter().enumerate() {
        let term = match b {
            None => Tree::Const(i as u16),
            Some(b) => {
                if s.bool() {
                    op2("mul", Tree::Const(i as u16), b.clone())
                } else {
                    op2("mul", b.clone(), Tree::Const(i as u16))
                }
            }
        };
        t = Some(match t {
            None => term,
            Some(p) => {
                if s.bool() {
                    op2("add", p, term)
                } else {
                    op2("add", term, p)
                }
            }
        });
    }
    let t = t.unwrap();
    let x = tree::gen_x::<f64>(s, nf, rows, 1);
    let y: Array1<f64> = (0..rows).map(|_| s.uniform(-5.0, 5.0)).collect();
    let weighted = s.chance(1, 3);
    let w: Option<Array1<f64>> = weighted.then(|| (0..rows).map(|_| s.uniform(0.3, 2.0)).collect());
    let starts: Vec<f64> = (0..k).map(|_| s.uniform(0.3, 3.0) * if s.bool() { 1.0 } else { -1.0 }).collect();
    // design matrix scaled by sqrt(weight)
    let mut a = vec![];
    let mut b = vec![];
    for r in 0..rows {
        let sw = w.as_ref().map_or(1.0, |w| w[r].sqrt());
        let row: Vec<f64> = terms.iter().map(|q| sw * q.as_ref().map_or(1.0, |q| tree::reval::<O>(q, &x, r, &[], &mut true))).collect();
        a.push(row);
        b.push(sw * y[r]);
    }
    let Some((_sol, rss)) = lstsq(&a, &b) else {
        c.discard();
        return Ok(());
    };
    let sw: f64 = w.as_ref().map_or(rows as f64, |w| w.sum());
    let best = rss / sw;
    let data = Dataset::with_weights_and_names(x, y, w, vec![]);
    let mut opts = Options::<f64, 3> { operators: all_ops::<O, 3>(), loss: mse(), ..Default::default() };
    quiet(&mut opts);
    opts.optimizer_iterations = 400;
    opts.optimizer_f_calls_limit = 100_000;
    opts.optimizer_nrestarts = s.below(3);
    let mut ev = Evaluator::<f64, 3>::new(rows);
    let mut gc = GradContext::<f64, 3>::new(rows);
    let mut m = member::<f64, O, 3>(0, 0, mk_expr::<O, 3>(&t, &starts), nf);
    let tag = TaggedDataset::new(&data, None);
    m.evaluate(&tag, &opts, &mut ev);
    let start_loss = m.loss;
    let mut nb = 1;
    let mut r = rng(s);
    c.key(&(t.shape_key(), rows, starts[0].to_bits()));
    c.nontrivial();
    c.class(["", "one constant", "two constants", "three constants", "four constants", "five or more constants"][k.min(5)]);
    c.describe(|| format!("{} on {rows} rows{}: loss {start_loss}, least squares {best}", tree::show_o::<O>(&t, &starts), if weighted { " (weighted)" } else { "" }));
    optimize_constants(&mut r, &mut m, OptimizeConstantsCtx { dataset: tag, options: &opts, evaluator: &mut ev, grad_ctx: &mut gc, next_birth: &mut nb });
    let slack = 1e-6 * (best + 1e-3 * start_loss.min(1.0)) + 1e-9;
    ensure!(m.loss <= best + slack, "stopped at loss {}, least squares reaches {best} (started at {start_loss})", m.loss);
    ensure!(m.loss >= best * (1.0 - 1e-9) - 1e-12, "loss {} below the least-squares optimum {best}", m.loss);
    Ok(())
}

fn s08_large_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(4) {
        0 => s08::<BuiltinOpsF64, 3>(s, c),
        1 => s08::<BuiltinOpsF32, 3>(s, c),
        2 => s08::<Kit5, 5>(s, c),
        _ => s08_linear(s, c),
    }
}
fn s08_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s08_large_case)
}

pub fn p_s08() -> Property {
    Property {
        id: "S08",
        rule: "an optimisation that reported improvement; linear cases: a well-conditioned least-squares problem",
        assumptions: &["convergence is required for designs whose QR diagonal ratio is at most 30, one to four constants, with 400 iterations", "recorded losses are compared within a rounding bound"],
        subs: vec![
            Sub { name: "builtin-f64", quick: 360_000, thorough: 7_200_000, tape: 500, shards: 0, f: s08::<BuiltinOpsF64, 3> },
            Sub { name: "builtin-f32", quick: 360_000, thorough: 7_200_000, tape: 500, shards: 0, f: s08::<BuiltinOpsF32, 3> },
            Sub { name: "kit5", quick: 240_000, thorough: 4_800_000, tape: 500, shards: 0, f: s08::<Kit5, 5> },
            Sub { name: "least-squares", quick: 120_000, thorough: 2_400_000, tape: 250, shards: 0, f: s08_linear },
            Sub { name: "large", quick: 1_600, thorough: 48_000, tape: 40, shards: 0, f: s08_large },
        ],
    }
}
