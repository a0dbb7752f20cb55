//! Generators and oracles shared by the search-engine checks.
use crate::ops::{Num, TestOps};
use crate::tree::{self, Cfg, Tree};
use dynamic_expressions::{Metadata, OpId, PostfixExpr};
use fastrand::Rng;
use ndarray::{Array1, Array2};
use num_traits::FromPrimitive;
use symbolic_regression::{Dataset, LossKind, MemberId, Operators, Options, PopMember};
use vcommon::Source;

pub trait Nf: Num + FromPrimitive + num_traits::ToPrimitive + Sync {}
impl Nf for f64 {}
impl Nf for f32 {}

pub fn rng(s: &mut Source) -> Rng {
    Rng::with_seed(s.u64())
}

/// All operators of the set as an `Operators` selection.
pub fn all_ops<O: TestOps, const D: usize>() -> Operators<D> {
    pick_ops::<D>(&O::ids())
}
pub fn pick_ops<const D: usize>(ids: &[(u8, u16)]) -> Operators<D> {
    let mut o = Operators::<D>::new();
    for &(a, i) in ids {
        o.push(OpId { arity: a, id: i });
    }
    o
}

/// A random non-empty selection of operators.
pub fn gen_ids<O: TestOps>(s: &mut Source) -> Vec<(u8, u16)> {
    let all = O::ids();
    match s.below(4) {
        0 => all,
        _ => {
            let n = s.range(1, 6.min(all.len()));
            let mut v: Vec<(u8, u16)> = vec![];
            for _ in 0..n {
                let x = if s.bool() { *s.pick(&all) } else { *s.pick(&all.iter().copied().filter(|x| x.0 == 2).collect::<Vec<_>>()) };
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            v
        }
    }
}

/// Configured complexities, as a plain table.
#[derive(Clone, Debug, Default)]
pub struct Cx {
    pub consts: u16,
    pub vars: u16,
    pub per_var: Option<Vec<u16>>,
    pub ops: Vec<((u8, u16), u16)>,
}
impl Cx {
    pub fn is_default(&self) -> bool {
        self.consts == 1 && self.vars == 1 && self.per_var.is_none() && self.ops.is_empty()
    }
    pub fn node(&self, t: &Tree) -> usize {
        (match t {
            Tree::Const(_) => self.consts,
            Tree::Var(f) => match &self.per_var {
                Some(v) => *v.get(*f as usize).unwrap_or(&self.vars),
                None => self.vars,
            },
            Tree::Op(a, o, _) => self.ops.iter().find(|x| x.0 == (*a, *o)).map(|x| x.1).unwrap_or(1),
        }) as usize
    }
    pub fn of(&self, t: &Tree) -> usize {
        self.node(t)
            + match t {
                Tree::Op(_, _, ch) => ch.iter().map(|c| self.of(c)).sum(),
                _ => 0,
            }
    }
}

/// The declared limits, as a plain table.
#[derive(Clone, Debug, Default)]
pub struct Limits {
    pub cx: Cx,
    pub maxdepth: usize,
    pub args: Vec<((u8, u16), usize, u16)>,
    pub nested: Vec<((u8, u16), (u8, u16), u8)>,
}
impl Limits {
    pub fn ok(&self, t: &Tree, maxsize: usize) -> Result<(), &'static str> {
        if self.cx.of(t) > maxsize {
            return Err("size");
        }
        if t.depth() > self.maxdepth {
            return Err("depth");
        }
        self.node_ok(t)
    }
    fn node_ok(&self, t: &Tree) -> Result<(), &'static str> {
        if let Tree::Op(a, o, ch) = t {
            // a later limit for the same argument replaces the earlier one
            for (j, c) in ch.iter().enumerate() {
                if let Some(l) = self.args.iter().rev().find(|l| l.0 == (*a, *o) && l.1 == j) {
                    if self.cx.of(c) > l.2 as usize {
                        return Err("argument");
                    }
                }
            }
            for (root, nested, max) in &self.nested {
                if *root == (*a, *o) && ch.iter().map(|c| chain(c, *nested)).max().unwrap_or(0) > *max as usize {
                    return Err("nesting");
                }
            }
            for c in ch {
                self.node_ok(c)?;
            }
        }
        Ok(())
    }
    pub fn apply<N: Nf, const D: usize>(&self, o: &mut Options<N, D>) {
        o.complexity_of_constants = self.cx.consts;
        o.complexity_of_variables = self.cx.vars;
        o.variable_complexities = self.cx.per_var.clone();
        o.operator_complexity_overrides = self.cx.ops.iter().map(|&((a, i), c)| (OpId { arity: a, id: i }, c)).collect();
        o.maxdepth = self.maxdepth;
        for &((a, i), j, m) in &self.args {
            o.op_constraints.set_op_arg_constraint(OpId { arity: a, id: i }, j, m);
        }
        for &((a, i), (b, k), m) in &self.nested {
            o.nested_constraints.add_nested_constraint(OpId { arity: a, id: i }, OpId { arity: b, id: k }, m);
        }
    }
}
/// Most occurrences of `op` on a path from this node down.
pub fn chain(t: &Tree, op: (u8, u16)) -> usize {
    match t {
        Tree::Op(a, o, ch) => ((*a, *o) == op) as usize + ch.iter().map(|c| chain(c, op)).max().unwrap_or(0),
        _ => 0,
    }
}

pub fn gen_cx(s: &mut Source, ids: &[(u8, u16)], nf: usize, zero_ok: bool) -> Cx {
    let lo = if zero_ok { 0 } else { 1 };
    let mut c = Cx { consts: 1, vars: 1, ..Default::default() };
    if s.bool() {
        return c;
    }
    if s.bool() {
        c.consts = s.range(lo, 5) as u16;
    }
    if s.bool() {
        c.vars = s.range(lo, 5) as u16;
    }
    if s.bool() {
        let n = s.below(nf + 2);
        c.per_var = Some((0..n).map(|_| s.range(lo, 6) as u16).collect());
    }
    if s.bool() && !ids.is_empty() {
        for _ in 0..s.range(1, 4) {
            let id = *s.pick(ids);
            if !c.ops.iter().any(|x| x.0 == id) {
                let v = s.range(lo, 7) as u16;
                c.ops.push((id, v));
            }
        }
    }
    c
}

pub fn gen_limits(s: &mut Source, ids: &[(u8, u16)], nf: usize, zero_ok: bool) -> Limits {
    let cx = gen_cx(s, ids, nf, zero_ok);
    let maxdepth = if s.bool() { 30 } else { s.range(1, 8) };
    let mut l = Limits { cx, maxdepth, ..Default::default() };
    if !ids.is_empty() {
        if s.chance(2, 5) {
            for _ in 0..s.range(1, 4) {
                let id = *s.pick(ids);
                let j = s.below(id.0 as usize);
                let m = s.range(if zero_ok { 0 } else { 1 }, 8) as u16;
                l.args.push((id, j, m));
            }
        }
        if s.chance(2, 5) {
            for _ in 0..s.range(1, 4) {
                let a = *s.pick(ids);
                let b = if s.bool() { a } else { *s.pick(ids) };
                l.nested.push((a, b, s.below(3) as u8));
            }
        }
    }
    l
}

pub fn gen_expr<O: TestOps, const D: usize>(s: &mut Source, ids: &[(u8, u16)], nf: usize, max_ops: usize, cmode: usize) -> (Tree, Vec<O::N>, PostfixExpr<O::N, O, D>) {
    let cfg = Cfg { n_features: nf, max_ops, const_mode: 0, ids: ids.to_vec() };
    let t = tree::gen_tree(s, &cfg);
    let n = tree::pool_len(s, &t, false);
    let c: Vec<O::N> = (0..n).map(|_| O::N::of(tree::gen_num(s, cmode))).collect();
    let e = tree::expr::<O, D>(&t, c.clone());
    (t, c, e)
}

pub fn mk_expr<O: TestOps, const D: usize>(t: &Tree, c: &[O::N]) -> PostfixExpr<O::N, O, D> {
    PostfixExpr::new(t.postfix(), c.to_vec(), Metadata::default())
}

pub fn member<N: Nf, O: TestOps<N = N> + dynamic_expressions::OperatorSet<T = N>, const D: usize>(id: u64, birth: u64, e: PostfixExpr<N, O, D>, nf: usize) -> PopMember<N, O, D> {
    PopMember::from_expr(MemberId(id), None, birth, e, nf)
}

pub fn gen_dataset<N: Nf>(s: &mut Source, nf: usize, rows: usize, xmode: usize, weighted: bool) -> Dataset<N> {
    let x = tree::gen_x::<N>(s, nf, rows, xmode);
    let y: Array1<N> = (0..rows).map(|_| N::of(tree::gen_num(s, xmode.min(1)))).collect();
    let w = weighted.then(|| (0..rows).map(|_| N::of(s.uniform(0.1, 3.0))).collect::<Array1<N>>());
    Dataset::with_weights_and_names(x, y, w, vec![])
}

pub fn gen_loss_kind(s: &mut Source) -> LossKind {
    match s.below(8) {
        0 | 1 => LossKind::Mse,
        2 => LossKind::Mae,
        3 => LossKind::Rmse,
        4 => LossKind::Huber { delta: s.uniform(0.1, 3.0) },
        5 => LossKind::LogCosh,
        6 => LossKind::Lp { p: s.uniform(1.1, 4.0) },
        _ => match s.below(2) {
            0 => LossKind::Quantile { tau: s.uniform(0.05, 0.95) },
            _ => LossKind::EpsilonInsensitive { eps: s.uniform(0.0, 1.0) },
        },
    }
}

/// Textbook pointwise loss of a residual r = prediction - target.
pub fn point(kind: &LossKind, r: f64) -> f64 {
    let a = r.abs();
    match *kind {
        LossKind::Mse | LossKind::Rmse => r * r,
        LossKind::Mae => a,
        LossKind::Huber { delta } => {
            if a <= delta {
                0.5 * r * r
            } else {
                delta * (a - 0.5 * delta)
            }
        }
        LossKind::LogCosh => {
            if a < 1e-4 {
                0.5 * r * r
            } else {
                a + (-2.0 * a).exp().ln_1p() - std::f64::consts::LN_2
            }
        }
        LossKind::Lp { p } => a.powf(p),
        LossKind::Quantile { tau } => {
            if r <= 0.0 {
                tau * a
            } else {
                (1.0 - tau) * a
            }
        }
        LossKind::EpsilonInsensitive { eps } => (a - eps).max(0.0),
    }
}

/// Textbook loss, and a bound on the rounding error a direct evaluation in precision `eps` may make.
pub fn ref_loss(kind: &LossKind, yhat: &[f64], y: &[f64], w: Option<&[f64]>, eps: f64) -> (f64, f64) {
    let n = y.len();
    let mut sum = 0.0;
    let mut err = 0.0;
    let mut sw = 0.0;
    for i in 0..n {
        let wi = w.map_or(1.0, |w| w[i]);
        let r = yhat[i] - y[i];
        let p = point(kind, r);
        // |d loss| for a relative error of a few eps in r, plus the loss's own arithmetic
        let cond = match *kind {
            LossKind::Mse | LossKind::Rmse => 4.0 * p,
            LossKind::Lp { p: e } => (4.0 + 4.0 * e * (1.0 + (if r != 0.0 { r.abs().ln().abs() } else { 0.0 }))) * p,
            LossKind::EpsilonInsensitive { eps } => 3.0 * (r.abs() + eps),
            LossKind::Huber { delta } => 4.0 * p + 2.0 * delta * (r.abs().min(delta)),
            LossKind::LogCosh => 4.0 * p + 4.0,
            _ => 4.0 * p,
        };
        sum += wi * p;
        if wi != 0.0 {
            err += wi * cond * eps;
        }
        sw += wi;
    }
    let m = sum / sw;
    let e = err / sw + m * eps * (2.0 * n as f64 + 8.0);
    if matches!(kind, LossKind::Rmse) {
        let r = m.sqrt();
        (r, if r > 0.0 { e / r + 4.0 * eps * r } else { e.sqrt() })
    } else {
        (m, e)
    }
}

/// Loss of the exact predictions in f64 terms for the search checks.
pub fn kind_loss<N: Nf>(kind: &LossKind, yhat: &[N], d: &Dataset<N>) -> (f64, f64) {
    let yh: Vec<f64> = yhat.iter().map(|v| Num::f(*v)).collect();
    let y: Vec<f64> = d.y.iter().map(|v| Num::f(*v)).collect();
    let w: Option<Vec<f64>> = d.weights.as_ref().map(|w| w.iter().map(|v| Num::f(*v)).collect());
    ref_loss(kind, &yh, &y, w.as_deref(), N::EPS)
}

/// loss / baseline (at least 0.01) + parsimony * complexity
pub fn ref_cost(loss: f64, cx: usize, parsimony: f64, use_baseline: bool, baseline: Option<f64>) -> f64 {
    let d = match baseline {
        Some(b) if use_baseline && b.is_finite() => b.max(0.01),
        _ => 0.01,
    };
    loss / d + parsimony * cx as f64
}

pub fn x_of<N: Nf>(d: &Dataset<N>) -> Array2<N> {
    d.x.clone()
}
