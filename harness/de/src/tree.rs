//! Expression generation and the independent tree model.
use crate::ops::{Num, TestOps};
use dynamic_expressions::{Metadata, OpId, PNode, PostfixExpr};
use ndarray::Array2;
use vcommon::Source;

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Var(u16),
    Const(u16),
    Op(u8, u16, Vec<Tree>),
}

impl Tree {
    pub fn emit(&self, out: &mut Vec<PNode>) {
        match self {
            Tree::Var(f) => out.push(PNode::Var { feature: *f }),
            Tree::Const(i) => out.push(PNode::Const { idx: *i }),
            Tree::Op(a, o, ch) => {
                for c in ch {
                    c.emit(out);
                }
                out.push(PNode::Op { arity: *a, op: *o });
            }
        }
    }
    pub fn postfix(&self) -> Vec<PNode> {
        let mut v = vec![];
        self.emit(&mut v);
        v
    }
    pub fn size(&self) -> usize {
        match self {
            Tree::Op(_, _, ch) => 1 + ch.iter().map(Tree::size).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Tree::Op(_, _, ch) => 1 + ch.iter().map(Tree::depth).max().unwrap_or(0),
            _ => 1,
        }
    }
    pub fn count(&self, p: &dyn Fn(&Tree) -> bool) -> usize {
        p(self) as usize
            + match self {
                Tree::Op(_, _, ch) => ch.iter().map(|c| c.count(p)).sum(),
                _ => 0,
            }
    }
    pub fn ops(&self) -> usize {
        self.count(&|t| matches!(t, Tree::Op(..)))
    }
    pub fn vars(&self) -> usize {
        self.count(&|t| matches!(t, Tree::Var(_)))
    }
    pub fn consts(&self) -> usize {
        self.count(&|t| matches!(t, Tree::Const(_)))
    }
    pub fn map_consts(&mut self, f: &mut impl FnMut(&mut u16)) {
        match self {
            Tree::Const(i) => f(i),
            Tree::Op(_, _, ch) => ch.iter_mut().for_each(|c| c.map_consts(f)),
            _ => {}
        }
    }
    pub fn shape_key(&self) -> String {
        match self {
            Tree::Var(f) => format!("v{f}"),
            Tree::Const(_) => "c".into(),
            Tree::Op(a, o, ch) => format!("{a}.{o}({})", ch.iter().map(|c| c.shape_key()).collect::<Vec<_>>().join(",")),
        }
    }
    /// Depends on the given constant/variable leaf?
    pub fn uses(&self, p: &dyn Fn(&Tree) -> bool) -> bool {
        self.count(p) > 0
    }
}

/// The harness's own postfix reader.
pub fn parse(nodes: &[PNode]) -> Option<Tree> {
    let mut st: Vec<Tree> = vec![];
    for n in nodes {
        match *n {
            PNode::Var { feature } => st.push(Tree::Var(feature)),
            PNode::Const { idx } => st.push(Tree::Const(idx)),
            PNode::Op { arity, op } => {
                let a = arity as usize;
                if a == 0 || st.len() < a {
                    return None;
                }
                let ch = st.split_off(st.len() - a);
                st.push(Tree::Op(arity, op, ch));
            }
        }
    }
    if st.len() == 1 {
        st.pop()
    } else {
        None
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub n_features: usize,
    pub max_ops: usize,
    pub const_mode: usize,
    pub ids: Vec<(u8, u16)>,
}

pub fn gen_tree(s: &mut Source, c: &Cfg) -> Tree {
    // geometric-ish size: mostly small, sometimes up to the cap
    let budget = match if vcommon::large() { 6 + s.below(2) } else if c.max_ops > 100 { 4 + s.below(4) } else { s.below(8) } {
        0 | 1 => s.below(3.min(c.max_ops) + 1),
        2..=4 => s.below(7.min(c.max_ops) + 1),
        5 | 6 => s.below(16.min(c.max_ops) + 1),
        _ => s.below(c.max_ops + 1),
    };
    let shape = s.below(5);
    let mut next_const = 0u16;
    let mut t = build(s, c, budget, shape, &mut next_const);
    // const layout: 0 = in order of emission; otherwise permuted and/or shared
    layout(s, &mut t, next_const, c.const_mode);
    t
}

fn build(s: &mut Source, c: &Cfg, budget: usize, shape: usize, nc: &mut u16) -> Tree {
    if budget == 0 || c.ids.is_empty() {
        let leaf_const = s.chance(2, 5);
        return if leaf_const || c.n_features == 0 {
            *nc += 1;
            Tree::Const(*nc - 1)
        } else {
            Tree::Var(s.below(c.n_features) as u16)
        };
    }
    let (ar, op) = {
        // pick an arity first, so that rarer arities are exercised
        let mut arities: Vec<u8> = c.ids.iter().map(|x| x.0).collect();
        arities.sort();
        arities.dedup();
        // prefer arity 2 when present
        let a = if arities.contains(&2) && s.chance(2, 5) { 2 } else { *s.pick(&arities) };
        let of: Vec<(u8, u16)> = c.ids.iter().copied().filter(|x| x.0 == a).collect();
        *s.pick(&of)
    };
    let n = ar as usize;
    let rest = budget - 1;
    let mut parts = vec![0usize; n];
    match shape {
        0 => {
            for _ in 0..rest {
                parts[s.below(n)] += 1;
            }
        }
        1 => parts[0] = rest,
        2 => parts[n - 1] = rest,
        3 => {
            for i in 0..rest {
                parts[i % n] += 1;
            }
        }
        _ => {
            // right comb whose other children are operators too: many live slots
            let each = if n > 1 && rest >= n { 1 } else { 0 };
            for p in parts.iter_mut().take(n - 1) {
                *p = each;
            }
            parts[n - 1] = rest - each * (n - 1);
        }
    }
    let ch = parts.into_iter().map(|b| build(s, c, b, shape, nc)).collect();
    Tree::Op(ar, op, ch)
}

fn layout(s: &mut Source, t: &mut Tree, n: u16, mode: usize) {
    if n == 0 || mode == 0 {
        return;
    }
    let m = s.below(4);
    match m {
        0 => {}
        1 => {
            // permutation
            let mut perm: Vec<u16> = (0..n).collect();
            for i in (1..n as usize).rev() {
                let j = s.below(i + 1);
                perm.swap(i, j);
            }
            t.map_consts(&mut |i| *i = perm[*i as usize]);
        }
        _ => {
            // arbitrary references into a pool (shared and unused entries)
            let map: Vec<u16> = (0..n).map(|_| s.below(n as usize) as u16).collect();
            t.map_consts(&mut |i| *i = map[*i as usize]);
        }
    }
}

/// Size of a constant pool that covers the tree's references, possibly with unused entries at the end.
pub fn pool_len(s: &mut Source, t: &Tree, extra: bool) -> usize {
    let mut m = 0usize;
    let mut tt = t.clone();
    tt.map_consts(&mut |i| m = m.max(*i as usize + 1));
    m + if extra && s.chance(1, 6) { s.range(1, 3) } else { 0 }
}

pub fn expr<O: TestOps, const D: usize>(t: &Tree, consts: Vec<O::N>) -> PostfixExpr<O::N, O, D> {
    PostfixExpr::new(t.postfix(), consts, Metadata::default())
}

pub fn gen_num(s: &mut Source, mode: usize) -> f64 {
    match mode {
        0 => s.tame(3.0),
        1 => s.uniform(-5.0, 5.0),
        2 => s.wild(),
        3 => match s.below(10) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            _ => s.wild(),
        },
        _ => s.uniform(0.1, 4.0),
    }
}

pub fn gen_x<N: Num>(s: &mut Source, nf: usize, rows: usize, mode: usize) -> Array2<N> {
    let mut x = Array2::<N>::zeros((nf, rows));
    for f in 0..nf {
        for r in 0..rows {
            x[(f, r)] = N::of(gen_num(s, mode));
        }
    }
    x
}

/// Bottom-up value of a row, applying each declared function; records whether every operator
/// application was finite.
pub fn reval<O: TestOps>(t: &Tree, x: &Array2<O::N>, row: usize, consts: &[O::N], fin: &mut bool) -> O::N {
    match t {
        Tree::Var(f) => x[(*f as usize, row)],
        Tree::Const(i) => consts[*i as usize],
        Tree::Op(a, o, ch) => {
            let args: Vec<O::N> = ch.iter().map(|c| reval::<O>(c, x, row, consts, fin)).collect();
            let v = O::rf(OpId { arity: *a, id: *o }, &args);
            *fin &= v.is_finite();
            v
        }
    }
}

use dynamic_expressions::num_traits::Float;

/// Whole-matrix reference: values and the completeness verdict.
pub fn reval_all<O: TestOps>(t: &Tree, x: &Array2<O::N>, consts: &[O::N]) -> (Vec<O::N>, bool) {
    let mut fin = true;
    let v = (0..x.ncols()).map(|r| reval::<O>(t, x, r, consts, &mut fin)).collect();
    if let Tree::Const(i) = t {
        fin &= consts[*i as usize].is_finite();
    }
    (v, fin)
}

pub fn show<N: Num>(t: &Tree, consts: &[N]) -> String {
    match t {
        Tree::Var(f) => format!("x{f}"),
        Tree::Const(i) => format!("c{i}={:?}", consts.get(*i as usize)),
        Tree::Op(a, o, ch) => format!("op{a}.{o}[{}]", ch.iter().map(|c| show(c, consts)).collect::<Vec<_>>().join(", ")),
    }
}
pub fn show_o<O: TestOps>(t: &Tree, consts: &[O::N]) -> String {
    match t {
        Tree::Op(a, o, ch) => format!("{}({})", O::name(OpId { arity: *a, id: *o }), ch.iter().map(|c| show_o::<O>(c, consts)).collect::<Vec<_>>().join(", ")),
        _ => show(t, consts),
    }
}
