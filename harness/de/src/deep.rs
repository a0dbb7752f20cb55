//! Expressions nested tens of thousands of operators deep. Every reference here is a loop over the postfix
//! sequence with an explicit stack, so that only the code under test could need a deep call stack.
use crate::evalp::{opts, OFF};
use crate::ops::*;
use crate::tree::*;
use dynamic_expressions::num_traits::Float;
use dynamic_expressions::operator_enum::presets::BuiltinOpsF64;
use dynamic_expressions::*;
use ndarray::Array2;
use vcommon::{ensure, Case, PropResult, Source};

/// A number up to `max`, evenly on a logarithmic scale.
fn log_below(s: &mut Source, min: usize, max: usize) -> usize {
    let (a, b) = ((min as f64).ln(), (max as f64).ln());
    (s.uniform(a, b).exp() as usize).clamp(min, max)
}

/// Runs on a thread with Rust's default stack (the harness's own threads have 128 times as much).
fn small(f: impl FnOnce() -> PropResult + Send) -> PropResult {
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || vcommon::guarded(f)).expect("thread");
        h.join().expect("harness thread").unwrap_or_else(Err)
    })
}

pub struct Chain {
    pub nodes: Vec<PNode>,
    pub steps: usize,
    pub pattern: Vec<((u8, u16), usize)>,
}

/// `steps` operators, each holding the chain so far as one child and leaves as its other children. Operators and
/// positions repeat a short random pattern, now and then broken by a random step.
pub fn gen_chain(s: &mut Source, ids: &[(u8, u16)], steps: usize, nf: usize, nc: usize) -> Chain {
    let period = s.range(1, 4);
    let pattern: Vec<((u8, u16), usize)> = (0..period)
        .map(|_| {
            let o = *s.pick(ids);
            (o, s.below(o.0 as usize))
        })
        .collect();
    let noise = *s.pick(&[0u32, 0, 1, 8]);
    let const_share = *s.pick(&[0u32, 1, 2, 4]);
    let leaf = |s: &mut Source| {
        if nc > 0 && (nf == 0 || s.chance(const_share, 4)) {
            PNode::Const { idx: s.below(nc) as u16 }
        } else {
            PNode::Var { feature: s.below(nf) as u16 }
        }
    };
    let seed = leaf(s);
    let (mut pre, mut post): (Vec<PNode>, Vec<PNode>) = (vec![], vec![]);
    for k in 0..steps {
        let ((a, op), j) = if noise > 0 && s.chance(noise, 16) {
            let o = *s.pick(ids);
            (o, s.below(o.0 as usize))
        } else {
            pattern[k % period]
        };
        for _ in 0..j {
            pre.push(leaf(s));
        }
        for _ in j + 1..a as usize {
            post.push(leaf(s));
        }
        post.push(PNode::Op { arity: a, op });
    }
    pre.reverse();
    pre.push(seed);
    pre.append(&mut post);
    Chain { nodes: pre, steps, pattern }
}

/// Folds the sequence; None where it is not one well-formed expression.
pub fn machine<V>(nodes: &[PNode], mut leaf: impl FnMut(&PNode) -> V, mut op: impl FnMut(OpId, &[V]) -> V) -> Option<V> {
    let mut st: Vec<V> = vec![];
    for n in nodes {
        match *n {
            PNode::Op { arity, op: o } => {
                let a = arity as usize;
                if a == 0 || st.len() < a {
                    return None;
                }
                let v = op(OpId { arity, id: o }, &st[st.len() - a..]);
                st.truncate(st.len() - a);
                st.push(v);
            }
            _ => st.push(leaf(n)),
        }
    }
    if st.len() == 1 {
        st.pop()
    } else {
        None
    }
}
fn depth_of(nodes: &[PNode]) -> Option<usize> {
    machine(nodes, |_| 1usize, |_, ch| 1 + ch.iter().max().unwrap())
}

fn about(c: &Chain, nc: usize) -> String {
    let ends = |v: &[PNode]| v.iter().map(|n| format!("{n:?}")).collect::<Vec<_>>().join(" ");
    let n = c.nodes.len();
    if n <= 24 {
        format!("{} operators in a chain: {} ({nc} constants)", c.steps, ends(&c.nodes))
    } else {
        format!("{} operators in a chain, pattern ((arity, id), position) {:?}: {} … {} ({n} nodes, {nc} constants)", c.steps, c.pattern, ends(&c.nodes[..8]), ends(&c.nodes[n - 8..]))
    }
}
fn note(c: &mut Case, ch: &Chain, extra: usize) {
    c.key(&(ch.steps, &ch.pattern, ch.nodes[ch.nodes.len() / 2], extra));
    c.nontrivial_if(ch.steps >= 10);
    c.class_if(ch.steps > 20_000, "more than 20,000 operators deep");
}
fn ids_named(names: &[&str]) -> Vec<(u8, u16)> {
    Ints::ids().into_iter().filter(|i| names.contains(&Ints::name(OpId { arity: i.0, id: i.1 }))).collect()
}
fn pick_ids(s: &mut Source, all: &[(u8, u16)]) -> Vec<(u8, u16)> {
    (0..s.range(1, 4)).map(|_| *s.pick(all)).collect()
}

const MAX: usize = 150_000;
type V3 = PostfixExpr<f64, Ints, 3>;

fn setup(s: &mut Source, names: &[&str]) -> (V3, Chain, Array2<f64>, Vec<f64>) {
    let all: Vec<(u8, u16)> = if names.is_empty() { Ints::ids() } else { ids_named(names) };
    let ids = pick_ids(s, &all);
    let steps = log_below(s, 2, MAX);
    let nf = s.range(1, 3);
    let nc = s.below(6);
    s.tail();
    let consts: Vec<f64> = (0..nc).map(|_| s.int(-7, 7) as f64).collect();
    let rows = s.range(1, 3);
    let x = Array2::from_shape_fn((nf, rows), |_| s.int(-9, 9) as f64);
    let ch = gen_chain(s, &ids, steps, nf, nc);
    let e = PostfixExpr::new(ch.nodes.clone(), consts.clone(), Metadata::default());
    (e, ch, x, consts)
}
fn value(nodes: &[PNode], x: &Array2<f64>, row: usize, consts: &[f64], worst: &mut f64) -> Option<f64> {
    machine(
        nodes,
        |n| match *n {
            PNode::Var { feature } => x[(feature as usize, row)],
            PNode::Const { idx } => consts[idx as usize],
            _ => unreachable!(),
        },
        |op, a| {
            let v = Ints::rf(op, a);
            *worst = if v.is_finite() { worst.max(v.abs()) } else { f64::INFINITY };
            v
        },
    )
}

/// Value and verdict of a deep chain.
pub fn eval_deep(s: &mut Source, c: &mut Case) -> PropResult {
    small(|| eval_deep_(s, c))
}
fn eval_deep_(s: &mut Source, c: &mut Case) -> PropResult {
    let (e, ch, x, consts) = setup(s, &[]);
    c.describe(|| format!("{} on {x:?}", about(&ch, consts.len())));
    note(c, &ch, x.ncols());
    let (got, ok) = eval_tree_array(&e, x.view(), &OFF);
    let mut worst = 0.0;
    for r in 0..x.ncols() {
        let want = value(&ch.nodes, &x, r, &consts, &mut worst).expect("harness chain");
        ensure!(vcommon::same64(got[r], want), "{} evaluates to {:?} at {:?}, applying the operators gives {want:?}", about(&ch, consts.len()), got[r], x.column(r).to_vec());
    }
    let _ = ok;
    let on = EvalOptions { check_finite: true, early_exit: s.bool() };
    let (_, ok) = eval_tree_array(&e, x.view(), &on);
    ensure!(ok == worst.is_finite(), "{} reported complete={ok}, its largest intermediate magnitude is {worst:e}", about(&ch, consts.len()));
    c.class(if ok { "complete" } else { "incomplete" });
    Ok(())
}

/// Derivatives of a deep chain whose partials are whole numbers.
pub fn derive_deep(s: &mut Source, c: &mut Case) -> PropResult {
    small(|| derive_deep_(s, c))
}
fn derive_deep_(s: &mut Source, c: &mut Case) -> PropResult {
    let (e, ch, x, consts) = setup(s, &["flip", "clip", "neg2", "flip2", "minus", "plus", "minus3"]);
    let variable = s.bool();
    c.describe(|| format!("gradient by {} of {} on {x:?}", if variable { "variables" } else { "constants" }, about(&ch, consts.len())));
    note(c, &ch, variable as usize);
    let rows = x.ncols();
    let n_dir = if variable { x.nrows() } else { consts.len() };
    let (_, g, ok) = eval_grad_tree_array(&e, x.view(), variable, &mut GradContext::new(rows), &OFF);
    let _ = ok;
    ensure!(g.n_dir == n_dir && g.data.len() == n_dir * rows, "gradient of shape {}x{}, {} entries", g.n_dir, g.n_rows, g.data.len());
    let dir_diff = s.below(x.nrows());
    let (_, d, _) = eval_diff_tree_array(&e, x.view(), dir_diff, &mut DiffContext::new(rows), &OFF);
    for r in 0..rows {
        let der = |dir: usize, variable: bool| {
            machine(
                &ch.nodes,
                |n| match *n {
                    PNode::Var { feature } => (x[(feature as usize, r)], (variable && feature as usize == dir) as u8 as f64),
                    PNode::Const { idx } => (consts[idx as usize], (!variable && idx as usize == dir) as u8 as f64),
                    _ => unreachable!(),
                },
                |op, a| {
                    let v: Vec<f64> = a.iter().map(|p| p.0).collect();
                    (Ints::rf(op, &v), a.iter().enumerate().map(|(j, p)| Ints::rp(op, &v, j) * p.1).sum())
                },
            )
            .expect("harness chain")
            .1
        };
        for dir in 0..n_dir {
            let want = der(dir, variable);
            let got = g.data[dir * rows + r];
            ensure!(got == want, "the derivative of {} by {} {dir} is {want} at row {r}, the gradient says {got}", about(&ch, consts.len()), if variable { "variable" } else { "constant" });
        }
        let want = der(dir_diff, true);
        ensure!(d[r] == want, "the derivative of {} by variable {dir_diff} is {want} at row {r}, the directional derivative says {}", about(&ch, consts.len()), d[r]);
    }
    Ok(())
}

/// Simplification of a deep chain.
pub fn simplify_deep(s: &mut Source, c: &mut Case) -> PropResult {
    small(|| simplify_deep_(s, c))
}
fn simplify_deep_(s: &mut Source, c: &mut Case) -> PropResult {
    let names: &[&str] = if s.chance(3, 4) { &["plus", "minus", "flip", "neg2"] } else { &["plus", "minus", "minus", "flip", "clip", "flip2", "tri", "minus3", "opq", "modu"] };
    let (before, ch, x, consts) = setup(s, names);
    let which = s.below(3);
    let o = opts(3 - s.below(4));
    let what = ["simplifying", "folding", "combining"][which];
    c.describe(|| format!("{what} {} on {x:?}", about(&ch, consts.len())));
    note(c, &ch, which);
    let mut e = before.clone();
    let changed = match which {
        0 => simplify_in_place(&mut e, &o),
        1 => simplify_tree_in_place(&mut e, &o),
        _ => combine_operators_in_place(&mut e),
    };
    c.class_if(changed, "changed");
    let what = format!("{what} {}", about(&ch, consts.len()));
    let d0 = depth_of(&before.nodes).expect("harness chain");
    let Some(d1) = depth_of(&e.nodes) else { return Err(format!("{what} produced an ill-formed sequence of {} nodes", e.nodes.len())) };
    ensure!(e.nodes.len() <= before.nodes.len() && d1 <= d0, "{what}: {} nodes of depth {d0} became {} of depth {d1}", before.nodes.len(), e.nodes.len());
    ensure!(changed || (e.nodes == before.nodes && e.consts == before.consts), "{what} reported no change but changed it");
    for n in &e.nodes {
        match *n {
            PNode::Const { idx } => ensure!((idx as usize) < e.consts.len(), "{what} refers to constant {idx} of {}", e.consts.len()),
            PNode::Var { .. } => ensure!(before.nodes.contains(n), "{what} introduced {n:?}"),
            _ => {}
        }
    }
    for r in 0..x.ncols() {
        let mut worst = 0.0;
        let v0 = value(&before.nodes, &x, r, &consts, &mut worst).unwrap();
        if worst > 1e12 {
            continue;
        }
        let v1 = value(&e.nodes, &x, r, &e.consts, &mut worst).unwrap();
        ensure!(v0 == v1, "{what} changed its value from {v0} to {v1} at {:?}", x.column(r).to_vec());
    }
    Ok(())
}

/// Constants of a deep chain with up to 65,535 of them.
pub fn constants_deep(s: &mut Source, c: &mut Case) -> PropResult {
    small(|| constants_deep_(s, c))
}
fn constants_deep_(s: &mut Source, c: &mut Case) -> PropResult {
    let ids = pick_ids(s, &Ints::ids());
    let steps = log_below(s, 2, 40_000);
    let nc = if s.chance(1, 4) { s.range(65_530, 65_535) } else { log_below(s, 1, 65_535) };
    s.tail();
    let consts: Vec<f64> = (0..nc).map(|i| i as f64 * 0.5 - 7.0).collect();
    let ch = gen_chain(s, &ids, steps, 2, nc);
    let e: V3 = PostfixExpr::new(ch.nodes.clone(), consts.clone(), Metadata::default());
    c.describe(|| about(&ch, nc));
    note(c, &ch, nc);
    c.class_if(nc > 60_000, "more than 60,000 constants");
    let (vals, cref) = get_scalar_constants(&e);
    let mut e1 = e.clone();
    set_scalar_constants(&mut e1, &vals, &cref);
    ensure!(e1.nodes == e.nodes && e1.consts == consts, "writing back the constants that were read changed them: {}", about(&ch, nc));
    ensure!(vals.len() == nc, "{} values read of {nc} constants", vals.len());
    let newv: Vec<f64> = (0..nc).map(|i| -(i as f64)).collect();
    set_scalar_constants(&mut e1, &newv, &cref);
    for (k, &i) in cref.const_indices.iter().enumerate() {
        ensure!(e1.consts[i] == newv[k], "value {k} was written to position {i}, which now holds {}", e1.consts[i]);
    }
    // compaction: same tree, same value at each leaf, exactly the used ones in order of first use
    let mut e4 = e.clone();
    let changed = compress_constants(&mut e4);
    ensure!(e4.nodes.len() == e.nodes.len(), "compaction changed the number of nodes");
    let mut map: std::collections::HashMap<u16, u16> = Default::default();
    for (a, b) in e.nodes.iter().zip(&e4.nodes) {
        match (*a, *b) {
            (PNode::Const { idx: i }, PNode::Const { idx: j }) => {
                let next = map.len() as u16;
                let want = *map.entry(i).or_insert(next);
                ensure!(j == want, "compaction of {}: constant {i}, the {want}th in order of first use, became constant {j}", about(&ch, nc));
                ensure!(e4.consts.get(j as usize).copied() == Some(consts[i as usize]), "compaction of {}: constant {i} had value {}, and now {:?}", about(&ch, nc), consts[i as usize], e4.consts.get(j as usize));
            }
            (a, b) => ensure!(a == b, "compaction of {} turned {a:?} into {b:?}", about(&ch, nc)),
        }
    }
    ensure!(e4.consts.len() == map.len(), "compaction kept {} constants, {} are used", e4.consts.len(), map.len());
    let really = e4.nodes != e.nodes || e4.consts.len() != nc;
    ensure!(changed == really, "compaction reported changed={changed}, actually {really}");
    Ok(())
}

/// Measures of a deep chain, or of a sequence one edit away from one.
pub fn measures_deep(s: &mut Source, c: &mut Case) -> PropResult {
    small(|| measures_deep_(s, c))
}
fn measures_deep_(s: &mut Source, c: &mut Case) -> PropResult {
    use dynamic_expressions::node_utils::*;
    let ids = pick_ids(s, &Kit5::ids());
    let steps = log_below(s, 2, MAX);
    let (nf, nc) = (s.range(1, 400), s.below(400));
    s.tail();
    let mut ch = gen_chain(s, &ids, steps, nf, nc);
    c.describe(|| about(&ch, nc));
    note(c, &ch, nc);
    if s.chance(1, 3) {
        let k = s.below(ch.nodes.len());
        match s.below(3) {
            0 => {
                ch.nodes.remove(k);
            }
            1 => ch.nodes.insert(k, PNode::Op { arity: s.range(1, 2) as u8, op: 0 }),
            _ => {
                let j = s.below(ch.nodes.len());
                ch.nodes.swap(k, j);
            }
        }
        let want = depth_of(&ch.nodes).is_some();
        ensure!(is_valid_postfix(&ch.nodes) == want, "is_valid_postfix = {} for a sequence of {} nodes that {} one tree (edited at {k}): {}", !want, ch.nodes.len(), if want { "is" } else { "is not" }, about(&ch, nc));
        c.class(if want { "edited, well-formed" } else { "edited, ill-formed" });
        if !want {
            return Ok(());
        }
    }
    let n = &ch.nodes;
    let ops = n.iter().filter(|n| matches!(n, PNode::Op { .. })).count();
    let cn = n.iter().filter(|n| matches!(n, PNode::Const { .. })).count();
    ensure!(is_valid_postfix(n), "well-formed sequence reported ill-formed: {}", about(&ch, nc));
    let d = depth_of(n).unwrap();
    ensure!(count_depth(n) == d, "count_depth {} for depth {d}: {}", count_depth(n), about(&ch, nc));
    ensure!(count_nodes(n) == n.len() && count_operator_nodes(n) == ops && count_constant_nodes(n) == cn && count_variable_nodes(n) == n.len() - ops - cn, "node counts of {}", about(&ch, nc));
    let sizes = subtree_sizes(n);
    ensure!(sizes.len() == n.len(), "{} subtree sizes for {} nodes", sizes.len(), n.len());
    let mut pos = 0;
    let mut bad = None;
    let mut check = |size: usize| {
        if sizes[pos] != size || subtree_range(&sizes, pos) != (pos + 1 - size, pos) {
            bad = bad.or(Some((pos, size)));
        }
        pos += 1;
        size
    };
    let mut st: Vec<usize> = vec![];
    for k in n {
        let z = match *k {
            PNode::Op { arity, .. } => {
                let at = st.len() - arity as usize;
                1 + st.drain(at..).sum::<usize>()
            }
            _ => 1,
        };
        st.push(check(z));
    }
    ensure!(bad.is_none(), "subtree size or range wrong at (node, size) {bad:?}: {}", about(&ch, nc));
    let folded = tree_mapreduce(n, |_| (1usize, 1usize), |_| (), |_, ch| (1 + ch.iter().map(|c| c.0).sum::<usize>(), 1 + ch.iter().map(|c| c.1).max().unwrap()));
    ensure!(folded == (n.len(), d), "the fold counts {folded:?} nodes and levels, there are {:?}", (n.len(), d));
    Ok(())
}

/// Printing a deep chain: the leaves appear in order, one operator token per operator, balanced parentheses.
pub fn print_deep(s: &mut Source, c: &mut Case) -> PropResult {
    small(|| print_deep_(s, c))
}
fn print_deep_(s: &mut Source, c: &mut Case) -> PropResult {
    let ids = pick_ids(s, &Ints::ids());
    let steps = log_below(s, 2, 5_000);
    s.tail();
    let ch = gen_chain(s, &ids, steps, 3, 3);
    let consts = vec![1.5, 2.25, 40.0];
    let e: V3 = PostfixExpr::new(ch.nodes.clone(), consts.clone(), Metadata::default());
    c.describe(|| about(&ch, 3));
    note(c, &ch, 0);
    let text = string_tree(&e, StringTreeOptions { variable_names: None, pretty: s.bool() });
    let (mut open, mut lowest) = (0i64, 0i64);
    for b in text.bytes() {
        open += (b == b'(') as i64 - (b == b')') as i64;
        lowest = lowest.min(open);
    }
    ensure!(open == 0 && lowest == 0, "the text of {} has unbalanced parentheses", about(&ch, 3));
    let leaves: Vec<String> = text.split(|k: char| !(k.is_ascii_alphanumeric() || k == '.' || k == '_')).filter(|w| !w.is_empty() && (w.as_bytes()[0].is_ascii_digit() || (w.starts_with('x') && w[1..].parse::<u16>().is_ok()))).map(|w| w.to_string()).collect();
    let want: Vec<String> = ch
        .nodes
        .iter()
        .filter_map(|n| match *n {
            PNode::Var { feature } => Some(format!("x{feature}")),
            PNode::Const { idx } => Some(format!("{}", consts[idx as usize])),
            _ => None,
        })
        .collect();
    let same = leaves.len() == want.len() && leaves.iter().zip(&want).all(|(a, b)| a == b || (!a.starts_with('x') && a.parse::<f64>().ok() == b.parse::<f64>().ok()));
    ensure!(same, "the text of {} shows {} leaves, starting {:?}; the expression has {}, starting {:?}", about(&ch, 3), leaves.len(), &leaves[..leaves.len().min(6)], want.len(), &want[..want.len().min(6)]);
    Ok(())
}

/// Building on deep operands.
pub fn algebra_deep(s: &mut Source, c: &mut Case) -> PropResult {
    small(|| algebra_deep_(s, c))
}
fn algebra_deep_(s: &mut Source, c: &mut Case) -> PropResult {
    type X = PostfixExpr<f64, BuiltinOpsF64, 3>;
    let all = BuiltinOpsF64::ids();
    let mut mk = |s: &mut Source, at: f64| -> (X, Chain) {
        let ids = pick_ids(s, &all);
        let steps = log_below(s, 1, 20_000);
        let nc = log_below(s, 1, 30_000);
        let ch = gen_chain(s, &ids, steps, 3, nc);
        (PostfixExpr::new(ch.nodes.clone(), (0..nc).map(|i| at + i as f64).collect(), Metadata::default()), ch)
    };
    s.tail();
    let (a, ca) = mk(s, 0.0);
    let (b, cb) = mk(s, 1e6);
    c.describe(|| format!("{} and {}", about(&ca, a.consts.len()), about(&cb, b.consts.len())));
    note(c, if ca.steps > cb.steps { &ca } else { &cb }, a.consts.len());
    // leaves by value, operators by identity
    let read = |e: &X| -> Vec<(u8, u64)> {
        e.nodes
            .iter()
            .map(|n| match *n {
                PNode::Var { feature } => (0, feature as u64),
                PNode::Const { idx } => (255, e.consts.get(idx as usize).map_or(u64::MAX, |v| v.to_bits())),
                PNode::Op { arity, op } => (arity, op as u64),
            })
            .collect()
    };
    let (mut want, wb) = (read(&a), read(&b));
    want.extend(wb);
    let id2 = |n: &str| builtin_table().iter().find(|t| t.0 == 2 && t.1 == n).unwrap().2;
    let (e, name) = match s.below(4) {
        0 => (a + b, "add"),
        1 => (a - b, "sub"),
        2 => (a * b, "mul"),
        _ => (a / b, "div"),
    };
    want.push((2, id2(name) as u64));
    let got = read(&e);
    let at = got.iter().zip(&want).position(|(a, b)| a != b);
    ensure!(got.len() == want.len() && at.is_none(), "{name} of {} and {} has {} nodes, expected {}; first difference at {at:?}", about(&ca, 0), about(&cb, 0), got.len(), want.len());
    Ok(())
}

/// Differences, leaf by leaf, between the feature (or constant) numbers of two left combs that a 64-bit
/// multiply-and-add hash of the node sequence (FxHash) cannot tell apart; found with lattice reduction.
const TWINS: &[&[i32]] = &[
    &[-501, 942, 743, 472, 203, -971],
    &[10, 48, -37, -111, -173, -67, -39, 37],
    &[22, 21, -9, 17, -6, 5, 21, -11, 3, -3],
    &[5, -4, -15, 20, -14, 3, 1, -15, 17, 20, -14, 0],
    &[1, 5, -6, -2, 9, 9, 3, 10, 6, -8, 5, 2, -5, 11],
    &[8, 2, -6, 4, -2, -2, -4, 0, 0, 1, -5, -8, 3, -6, 3, 8],
    &[-2, 1, -1, 4, 2, -1, 3, -3, 0, 2, -2, -2, -2, 4, 3, 3, 2, 0, 0, 1],
    &[-3, -2, 3, 2, 1, -1, -2, 1, 1, 2, -1, -1, 0, 4, 1, 0, 1, -4, -1, 0, 1, -1, 0, -1],
];

/// Different expressions of the same length, operators, features and constants whose node hashes coincide, one
/// after the other through the same contexts.
pub fn twins(s: &mut Source, c: &mut Case) -> PropResult {
    let d = *s.pick(TWINS);
    let sign = if s.bool() { 1 } else { -1 };
    let safe = ids_named(&["minus", "plus"]);
    let safe: Vec<(u8, u16)> = safe.into_iter().filter(|i| i.0 == 2).collect();
    let konst: Vec<bool> = d.iter().map(|_| s.chance(1, 4)).collect();
    let slack = s.below(3);
    let ops: Vec<(u8, u16)> = d.iter().map(|_| *s.pick(&safe)).collect();
    s.tail();
    let (mut na, mut nb) = (vec![], vec![]);
    let (mut nf, mut nc) = (1usize, 0usize);
    for (k, &dk) in d.iter().enumerate() {
        let dk = dk * sign;
        let lo = (-dk).max(0) as usize;
        let a = lo + s.below(slack + 1);
        let b = (a as i32 + dk) as usize;
        let top = a.max(b) + 1;
        let leaf = |v: usize| if konst[k] { PNode::Const { idx: v as u16 } } else { PNode::Var { feature: v as u16 } };
        if konst[k] {
            nc = nc.max(top);
        } else {
            nf = nf.max(top);
        }
        na.push(leaf(a));
        nb.push(leaf(b));
        if k > 0 {
            let (arity, op) = ops[k];
            na.push(PNode::Op { arity, op });
            nb.push(PNode::Op { arity, op });
        }
    }
    let consts: Vec<f64> = (0..nc).map(|i| ((i * i) % 1009) as f64 + 0.5).collect();
    let rows = s.range(1, 3);
    let x = Array2::from_shape_fn((nf, rows), |(f, r)| ((f * f * 7 + 3 * r) % 997) as f64);
    let e: [V3; 2] = [PostfixExpr::new(na.clone(), consts.clone(), Metadata::default()), PostfixExpr::new(nb, consts, Metadata::default())];
    let mut ec = EvalContext::<f64, 3>::new(rows);
    let mut dc = DiffContext::<f64, 3>::new(rows);
    let mut gc = GradContext::<f64, 3>::new(rows);
    let mut trace = vec![];
    let opts = opts(3 - s.below(4));
    c.describe(|| format!("two combs of {} leaves, {nf} features, {nc} constants: {:?} then {:?}", d.len(), e[0].nodes, e[1].nodes));
    c.key(&(na, sign));
    c.nontrivial();
    let mut which = 0;
    for step in 0..s.range(2, 6) {
        if step > 0 && s.chance(3, 4) {
            which = 1 - which;
        }
        let kind = s.below(4);
        trace.push((which, ["value", "directional", "gradient by variables", "gradient by constants"][kind]));
        let e = &e[which];
        let bad = |m: String| Err(format!("history (which of the two, what) {trace:?}: {m}; the two are {:?} and its twin", e.nodes));
        match kind {
            0 => {
                let mut out = vec![0.0; rows];
                let ok = eval_tree_array_into(&mut out, e, x.view(), &mut ec, &opts);
                let (want, okf) = eval_tree_array(e, x.view(), &opts);
                if ok != okf || out != want {
                    return bad(format!("value {out:?}, a fresh call gives {want:?}"));
                }
            }
            1 => {
                let dir = s.below(nf);
                let a = eval_diff_tree_array(e, x.view(), dir, &mut dc, &opts);
                let b = eval_diff_tree_array(e, x.view(), dir, &mut DiffContext::new(rows), &opts);
                if a != b {
                    return bad(format!("value and derivative {:?}, a fresh call gives {:?}", (a.0, a.1), (b.0, b.1)));
                }
            }
            k => {
                let a = eval_grad_tree_array(e, x.view(), k == 2, &mut gc, &opts);
                let b = eval_grad_tree_array(e, x.view(), k == 2, &mut GradContext::new(rows), &opts);
                if a.0 != b.0 || a.1.data != b.1.data || a.2 != b.2 {
                    return bad(format!("value {:?}, a fresh call gives {:?} (or the gradients differ)", a.0, b.0));
                }
            }
        }
    }
    Ok(())
}
