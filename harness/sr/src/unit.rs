//! E11, S01, S03, S04, S05, S09, S10, S11, S15, S16a: components with direct reference models.
use crate::gen::*;
use crate::ops::{self, Kit24, Kit5, Num, TestOps};
use crate::tree::{self, Tree};
use dynamic_expressions::operator_enum::builtin;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{LookupError, OpId, OperatorSet};
use ndarray::{Array1, Array2, ShapeBuilder};
use symbolic_regression::*;
use vcommon::{ensure, guarded, Case, PropResult, Property, Source, Sub};

type B64 = BuiltinOpsF64;
type B32 = BuiltinOpsF32;

// ---------------------------------------------------------------- E11

#[derive(Clone)]
struct Tok {
    arity: u8,
    id: u16,
    name: &'static str,
    display: &'static str,
    infix: Option<&'static str>,
}

fn builtin_toks() -> Vec<Tok> {
    ops::builtin_table()
        .into_iter()
        .map(|(arity, name, id)| {
            let infix = match name {
                "neg" | "sub" => Some("-"),
                "add" => Some("+"),
                "mul" => Some("*"),
                "div" => Some("/"),
                _ => None,
            };
            Tok { arity, id, name, display: infix.unwrap_or(name), infix }
        })
        .collect()
}
fn kit_toks(m: Vec<(u8, u16, &'static str, &'static str, Option<&'static str>, bool, bool, u16)>) -> Vec<Tok> {
    m.into_iter().map(|(arity, id, name, display, infix, ..)| Tok { arity, id, name, display, infix }).collect()
}

fn gen_token(s: &mut Source, toks: &[Tok]) -> String {
    let t = s.pick(toks).clone();
    let base = match s.below(8) {
        0..=2 => t.name.to_string(),
        3 => t.display.to_string(),
        4 => t.infix.unwrap_or(t.name).to_string(),
        5 => {
            // near misses
            let mut v = t.name.to_string();
            match s.below(4) {
                0 => v.push('s'),
                1 => {
                    v.pop();
                }
                2 => v.insert(v.len() / 2, ' '),
                _ => v = v.replace('a', "e"),
            }
            v
        }
        6 => s.pick(&["", "-", "+", "*", "/", "^", "**", "--", "Abs", "ADD", "plus", "minus", "sq", "unknown_op", "é", "ſin", "x", "%0%", "\u{212a}"]).to_string(),
        _ => s.pick(toks).name.to_string(),
    };
    let mut out: String = match s.below(4) {
        0 | 1 => base,
        2 => base.to_ascii_uppercase(),
        _ => base.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
    };
    match s.below(5) {
        0 => out = format!("  {out}"),
        1 => out = format!("{out}\t\n"),
        _ => {}
    }
    out
}

fn matching(toks: &[Tok], raw: &str, arity: Option<u8>) -> Vec<Tok> {
    let t = raw.trim();
    toks.iter()
        .filter(|k| arity.map_or(true, |a| a == k.arity))
        .filter(|k| k.name.to_ascii_lowercase() == t.to_ascii_lowercase() || k.display == t || k.infix == Some(t))
        .cloned()
        .collect()
}

fn check_lookup(r: Result<OpId, LookupError>, want: &[Tok], raw: &str) -> PropResult {
    match (r, want) {
        (Ok(op), [w]) => ensure!(op == OpId { arity: w.arity, id: w.id }, "{raw:?} resolved to {op:?}, expected {} of arity {}", w.name, w.arity),
        (Err(LookupError::Unknown(t)), []) => ensure!(t == raw.trim(), "unknown error names {t:?} for {raw:?}"),
        (Err(LookupError::Ambiguous { token, candidates }), w) if w.len() > 1 => {
            ensure!(token == raw.trim(), "ambiguity error names {token:?} for {raw:?}");
            let mut a: Vec<&str> = candidates.clone();
            let mut b: Vec<&str> = w.iter().map(|k| k.name).collect();
            a.sort();
            b.sort();
            ensure!(a == b, "ambiguity of {raw:?} lists {a:?}, expected {b:?}");
        }
        (r, w) => return Err(format!("{raw:?}: got {r:?}, expected {:?}", w.iter().map(|k| (k.arity, k.name)).collect::<Vec<_>>())),
    }
    Ok(())
}

fn token_bad(toks: &[Tok], raw: &str, arity: Option<u8>, d: usize) -> Option<&'static str> {
    let m = matching(toks, raw, arity);
    if m.len() != 1 {
        Some("lookup")
    } else if m[0].arity as usize > d {
        Some("arity")
    } else {
        None
    }
}

fn check_selection<const D: usize>(r: Result<Operators<D>, OperatorSelectError>, toks: &[Tok], lists: &[(Option<u8>, Vec<String>)]) -> PropResult {
    // expected selection, or the set of applicable complaints
    let mut want: Vec<Vec<OpId>> = vec![vec![]; D];
    let mut bad: Vec<&'static str> = vec![];
    let mut seen: Vec<(u8, u16)> = vec![];
    let mut n = 0;
    for (ar, l) in lists {
        for t in l {
            n += 1;
            match token_bad(toks, t, *ar, D) {
                Some(b) => bad.push(b),
                None => {
                    let k = &matching(toks, t, *ar)[0];
                    if seen.contains(&(k.arity, k.id)) {
                        bad.push("duplicate");
                    } else {
                        seen.push((k.arity, k.id));
                        want[k.arity as usize - 1].push(OpId { arity: k.arity, id: k.id });
                    }
                }
            }
        }
    }
    if n == 0 {
        bad.push("empty");
    }
    match r {
        Ok(o) => {
            ensure!(bad.is_empty(), "accepted {lists:?} in spite of {bad:?}");
            let mut total = 0;
            for a in 1..=D {
                let mut g = o.ops_by_arity[a - 1].clone();
                let mut w = want[a - 1].clone();
                g.sort_by_key(|x| x.id);
                w.sort_by_key(|x| x.id);
                ensure!(g == w, "arity {a}: selected {g:?}, expected {w:?}");
                ensure!(o.nops(a) == w.len(), "nops({a})");
                total += w.len();
                ensure!(o.total_ops_up_to(a) == total, "total_ops_up_to({a}) = {}", o.total_ops_up_to(a));
            }
            ensure!(o.total_ops_up_to(D + 3) == total, "total_ops_up_to beyond D");
        }
        Err(e) => {
            let kind = match &e {
                OperatorSelectError::Lookup(_) => "lookup",
                OperatorSelectError::ArityMismatch { .. } => "mismatch",
                OperatorSelectError::ArityTooLarge { .. } => "arity",
                OperatorSelectError::Duplicate(_) => "duplicate",
                OperatorSelectError::Empty => "empty",
            };
            ensure!(bad.contains(&kind), "rejected {lists:?} with {e} (expected {bad:?})");
            ensure!(!e.to_string().is_empty(), "empty message");
        }
    }
    Ok(())
}

fn e11_for<O: TestOps>(s: &mut Source, c: &mut Case, toks: Vec<Tok>) -> PropResult {
    let raw = gen_token(s, &toks);
    let want = matching(&toks, &raw, None);
    c.key(&raw);
    c.class(match want.len() {
        0 => "unknown",
        1 => "unique",
        _ => "ambiguous",
    });
    let lists: Vec<Vec<String>> = (0..3)
        .map(|a| {
            let n = if s.chance(1, 3) { 0 } else { s.range(0, 3) };
            (0..n)
                .map(|_| {
                    if s.chance(3, 4) {
                        // mostly valid requests
                        let of: Vec<Tok> = toks.iter().filter(|k| k.arity == a + 1).cloned().collect();
                        if of.is_empty() {
                            gen_token(s, &toks)
                        } else {
                            s.pick(&of).name.to_string()
                        }
                    } else {
                        gen_token(s, &toks)
                    }
                })
                .collect()
        })
        .collect();
    c.key(&lists);
    c.nontrivial();
    c.describe(|| format!("token {raw:?}, selections {lists:?}"));
    check_lookup(O::lookup(&raw), &want, &raw)?;
    let all = O::lookup_all(&raw);
    ensure!(all.len() == want.len() && want.iter().all(|k| all.contains(&OpId { arity: k.arity, id: k.id })), "lookup_all({raw:?}) = {all:?}");
    for a in 0..=6u8 {
        check_lookup(O::lookup_with_arity(&raw, a), &matching(&toks, &raw, Some(a)), &raw)?;
    }
    let refs: Vec<Vec<&str>> = lists.iter().map(|l| l.iter().map(|x| x.as_str()).collect()).collect();
    let by: Vec<(Option<u8>, Vec<String>)> = lists.iter().enumerate().map(|(i, l)| (Some(i as u8 + 1), l.clone())).collect();
    check_selection::<1>(Operators::<1>::from_names_by_arity::<O>(&refs[0], &refs[1], &refs[2]), &toks, &by)?;
    check_selection::<2>(Operators::<2>::from_names_by_arity::<O>(&refs[0], &refs[1], &refs[2]), &toks, &by)?;
    check_selection::<3>(Operators::<3>::from_names_by_arity::<O>(&refs[0], &refs[1], &refs[2]), &toks, &by)?;
    check_selection::<5>(Operators::<5>::from_names_by_arity::<O>(&refs[0], &refs[1], &refs[2]), &toks, &by)?;
    let flat: Vec<String> = lists.concat();
    let fr: Vec<&str> = flat.iter().map(|x| x.as_str()).collect();
    let one = vec![(None, flat.clone())];
    check_selection::<1>(Operators::<1>::from_names::<O>(&fr), &toks, &one)?;
    check_selection::<3>(Operators::<3>::from_names::<O>(&fr), &toks, &one)?;
    check_selection::<5>(Operators::<5>::from_names::<O>(&fr), &toks, &one)?;
    Ok(())
}

fn e11(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(8) {
        6 | 7 => e11_for::<ops::Echo>(s, c, kit_toks(ops::echo_meta())),
        0 | 1 => e11_for::<B64>(s, c, builtin_toks()),
        2 => e11_for::<B32>(s, c, builtin_toks()),
        3 => e11_for::<Kit5>(s, c, kit_toks(ops::kit5_meta())),
        4 => e11_for::<Kit24>(s, c, kit_toks(ops::kit24_meta())),
        _ => e11_for::<ops::Many>(s, c, kit_toks(ops::many_meta())),
    }
}

fn e11_build(s: &mut Source, c: &mut Case) -> PropResult {
    // builder programs over a fixed menu of typed steps
    let steps: Vec<usize> = (0..s.range(0, 8)).map(|_| s.below(10)).collect();
    c.key(&steps);
    c.nontrivial_if(!steps.is_empty());
    c.describe(|| format!("builder steps {steps:?}"));
    let mut b = Operators::<3>::builder::<B64>();
    let mut want: Vec<(u8, &str)> = vec![];
    for st in &steps {
        let (nb, w): (_, &[(u8, &str)]) = match st {
            0 => (b.binary::<builtin::Add>(), &[(2, "add")]),
            1 => (b.binary::<builtin::Pow>(), &[(2, "pow")]),
            2 => (b.unary::<builtin::Cos>(), &[(1, "cos")]),
            3 => (b.unary::<builtin::Neg>(), &[(1, "neg")]),
            4 => (b.sr_default_binary(), &[(2, "add"), (2, "sub"), (2, "mul"), (2, "div")]),
            5 => (b.binary::<builtin::Sub>(), &[(2, "sub")]),
            6 => (b.unary::<builtin::Exp>(), &[(1, "exp")]),
            7 => (b.binary::<builtin::Atan2>(), &[(2, "atan2")]),
            8 => (b.unary::<builtin::Abs2>(), &[(1, "abs2")]),
            _ => (b.binary::<builtin::Mul>(), &[(2, "mul")]),
        };
        b = nb;
        want.extend_from_slice(w);
    }
    let got = b.build();
    let table = ops::builtin_table();
    let id = |a: u8, n: &str| OpId { arity: a, id: table.iter().find(|x| x.0 == a && x.1 == n).unwrap().2 };
    for a in 1..=3u8 {
        let w: Vec<OpId> = want.iter().filter(|x| x.0 == a).map(|x| id(a, x.1)).collect();
        ensure!(got.ops_by_arity[a as usize - 1] == w, "arity {a}: built {:?}, expected {w:?}", got.ops_by_arity[a as usize - 1]);
    }
    let lib = OperatorLibrary::sr_default::<B64, 3>();
    ensure!(lib.ops_by_arity[0].is_empty() && lib.ops_by_arity[2].is_empty(), "library default has non-binary operators");
    let w: Vec<OpId> = ["add", "sub", "mul", "div"].iter().map(|n| id(2, n)).collect();
    let mut g = lib.ops_by_arity[1].clone();
    g.sort_by_key(|x| x.id);
    let mut ws = w.clone();
    ws.sort_by_key(|x| x.id);
    ensure!(g == ws, "library default {g:?}");
    let lib32 = OperatorLibrary::sr_default::<B32, 2>();
    ensure!(lib32.ops_by_arity[1].len() == 4 && lib32.ops_by_arity[0].is_empty(), "library default (f32)");
    let m = sr_ops!(B64, D = 3; 1 => (builtin::Sin, builtin::Log), 2 => (builtin::Add), 3 => (builtin::Fma));
    ensure!(m.ops_by_arity[0] == vec![id(1, "sin"), id(1, "log")] && m.ops_by_arity[1] == vec![id(2, "add")] && m.ops_by_arity[2] == vec![id(3, "fma")], "sr_ops! selection {m:?}");
    Ok(())
}

pub fn p_e11() -> Property {
    Property {
        id: "E11",
        rule: "a lookup/selection case: one token (any case, padding, near miss) looked up with and without arity, and three per-arity token lists selected for D = 1, 2, 3, 5; a builder case has at least one step",
        assumptions: &["operator tables are the harness's own list of names and symbols for the built-in set and the declarations of the custom sets"],
        subs: vec![
            Sub { name: "lookup", quick: 1_200_000, thorough: 24_000_000, tape: 120, shards: 0, f: e11 },
            Sub { name: "builder", quick: 160_000, thorough: 3_200_000, tape: 12, shards: 0, f: e11_build },
        ],
    }
}

// ---------------------------------------------------------------- S01

fn s01_for<N: Nf>(s: &mut Source, c: &mut Case) -> PropResult {
    let f32ish = N::BITS == 32;
    let kind = gen_loss_kind_wide(s);
    let n = if s.chance(1, 12) { 0 } else { s.range(1, vcommon::up(12, 9000)) };
    let mode = match s.below(4) {
        2 if vcommon::large() => 0,
        m => m,
    };
    let scale_exp = match mode {
        0 => 0.0,
        1 => s.int(if f32ish { -30 } else { -300 }, if f32ish { 30 } else { 300 }) as f64,
        _ => 0.0,
    };
    let mk = |s: &mut Source| -> f64 {
        let v = match mode {
            0 => s.tame(3.0),
            1 => s.uniform(-1.0, 1.0) * scale_exp.exp2(),
            2 => s.wild(),
            _ => s.tame(1000.0),
        };
        N::of(v).f()
    };
    let y: Vec<f64> = (0..n).map(|_| mk(s)).collect();
    let perfect = s.chance(1, 12);
    let yh: Vec<f64> = y.iter().map(|v| if perfect || s.chance(1, 10) { *v } else { mk(s) }).collect();
    let wmode = s.below(5);
    let w: Option<Vec<f64>> = match wmode {
        0 | 1 => None,
        4 => {
            // only the ratios matter: any common scale
            let k = s.int(if f32ish { -100 } else { -900 }, if f32ish { 60 } else { 900 }) as f64;
            Some((0..n).map(|_| if s.chance(1, 6) { 0.0 } else { N::of(s.uniform(0.25, 4.0) * k.exp2()).f() }).collect())
        }
        2 => Some((0..n).map(|_| N::of(s.uniform(0.01, 4.0)).f()).collect()),
        _ => Some((0..n).map(|_| if s.chance(1, 3) { 0.0 } else { N::of((s.int(-12, 12) as f64).exp2()).f() }).collect()),
    };
    c.key(&format!("{kind:?}{y:?}{yh:?}{w:?}"));
    c.describe(|| format!("{kind:?} in {} bits: yhat {yh:?} y {y:?} weights {w:?}", N::BITS));
    let (yn, yhn): (Vec<N>, Vec<N>) = (y.iter().map(|v| N::of(*v)).collect(), yh.iter().map(|v| N::of(*v)).collect());
    let wn: Option<Vec<N>> = w.as_ref().map(|w| w.iter().map(|v| N::of(*v)).collect());
    // parameters as the loss will hold them
    let kind_n = match kind {
        LossKind::Huber { delta } => LossKind::Huber { delta: N::of(delta).f() },
        LossKind::Lp { p } => LossKind::Lp { p: N::of(p).f() },
        LossKind::Quantile { tau } => LossKind::Quantile { tau: N::of(tau).f() },
        LossKind::EpsilonInsensitive { eps } => LossKind::EpsilonInsensitive { eps: N::of(eps).f() },
        k => k,
    };
    let loss = make_loss::<N>(kind);
    let l = loss.loss(&yhn, &yn, wn.as_deref()).f();
    // the same loss through its named constructor
    let l2 = match kind {
        LossKind::Mse => mse::<N>(),
        LossKind::Mae => mae::<N>(),
        LossKind::Rmse => rmse::<N>(),
        LossKind::Huber { delta } => huber::<N>(delta),
        LossKind::LogCosh => log_cosh::<N>(),
        LossKind::Lp { p } => lp::<N>(p),
        LossKind::Quantile { tau } => quantile::<N>(tau),
        LossKind::EpsilonInsensitive { eps } => epsilon_insensitive::<N>(eps),
    };
    let l2 = l2.loss(&yhn, &yn, wn.as_deref()).f();
    ensure!(vcommon::same64(l, l2), "make_loss({kind:?}) gives {l}, its constructor {l2}");
    let mut g = vec![N::of(123.0); n];
    loss.dloss_dyhat(&yhn, &yn, wn.as_deref(), &mut g);
    if n == 0 {
        return Ok(());
    }
    let sw: f64 = w.as_ref().map_or(n as f64, |w| w.iter().sum());
    if sw == 0.0 {
        c.class("all weights zero");
        return Ok(());
    }
    // representable: residuals, terms and sums well inside the range
    let (big, small): (f64, f64) = if f32ish { (1e36, 1e-36) } else { (1e305, 1e-300) };
    let rep = (0..n).all(|i| {
        let r = yh[i] - y[i];
        let p = point(&kind_n, r);
        r.abs() < big && p < big / 2.0
    }) && (0..n).map(|i| w.as_ref().map_or(1.0, |w| w[i]) * point(&kind_n, yh[i] - y[i])).sum::<f64>() < big
        // weights of an extreme scale: every weighted term and derivative has to fit as well
        && (wmode != 4 || (sw < big && (0..n).all(|i| {
            let r = (yh[i] - y[i]).abs();
            let (lo, hi) = ([r, point(&kind_n, r)].iter().filter(|v| **v > 0.0).fold(1.0, |a: f64, b| a.min(*b)), r.max(point(&kind_n, r)).max(1.0) * 64.0);
            let wi = w.as_ref().unwrap()[i];
            wi == 0.0 || (wi * lo * lo > small * 1e4 && wi * hi * (1.0 + r) < big)
        })));
    if !rep {
        c.class("outside the representable range");
        ensure!(!(l < 0.0), "{kind:?}: negative loss {l}");
        return Ok(());
    }
    c.nontrivial();
    c.class(match kind {
        LossKind::Mse => "mse",
        LossKind::Mae => "mae",
        LossKind::Rmse => "rmse",
        LossKind::Huber { .. } => "huber",
        LossKind::LogCosh => "logcosh",
        LossKind::Lp { .. } => "lp",
        LossKind::Quantile { .. } => "quantile",
        LossKind::EpsilonInsensitive { .. } => "eps-insensitive",
    });
    let (want, err) = ref_loss(&kind_n, &yh, &y, w.as_deref(), N::EPS);
    // terms below the normal range lose relative precision
    let tiny = if matches!(kind, LossKind::Rmse) { small.sqrt() * 4.0 } else { small * 4.0 };
    ensure!(l.is_finite(), "{kind:?}: loss {l}, definition gives {want}");
    ensure!((l - want).abs() <= 2.0 * err + tiny, "{kind:?}: loss {l:e}, definition gives {want:e} (allowed error {:e})", 2.0 * err + tiny);
    ensure!(l >= 0.0, "{kind:?}: negative loss {l:e}");
    if yh == y {
        c.class("perfect prediction");
        ensure!(l == 0.0, "{kind:?}: perfect prediction has loss {l:e}");
    }
    // derivative
    for i in 0..n {
        let r = yh[i] - y[i];
        let a = r.abs();
        let sg = if r > 0.0 { 1.0 } else { -1.0 };
        let wi = w.as_ref().map_or(1.0, |w| w[i]) / sw;
        let near = |k: f64| (a - k).abs() <= 1e3 * N::EPS * (k + a + yh[i].abs() + y[i].abs());
        let d = match kind_n {
            LossKind::Mse => Some((2.0 * r, 1.0)),
            LossKind::Mae => (!near(0.0)).then_some((sg, 1.0)),
            LossKind::Rmse => (want * want > small * 1e6).then(|| (r / want, 8.0 + n as f64)),
            LossKind::Huber { delta } => Some((if a <= delta { r } else { sg * delta }, 1.0)),
            LossKind::LogCosh => Some((r.tanh(), 2.0)),
            LossKind::Lp { p } => {
                if near(0.0) {
                    (p > 1.0 && a == 0.0).then_some((0.0, 1.0))
                } else {
                    let v = p * a.powf(p - 1.0) * sg;
                    (v.is_finite() && v.abs() < big).then_some((v, 4.0 + 4.0 * p * (1.0 + a.ln().abs())))
                }
            }
            LossKind::Quantile { tau } => (!near(0.0)).then_some((if r < 0.0 { -tau } else { 1.0 - tau }, 2.0)),
            LossKind::EpsilonInsensitive { eps } => (!near(eps)).then_some((if a > eps { sg } else { 0.0 }, 1.0)),
        };
        if let Some((d, cond)) = d {
            let want = wi * d;
            let tol = want.abs() * N::EPS * (16.0 + 4.0 * n as f64 + 8.0 * cond) + small * 8.0;
            let got = g[i].f();
            ensure!((got - want).abs() <= tol, "{kind:?}: d loss / d prediction {i} is {got:e}, true derivative {want:e}");
            c.class_if(want != 0.0, "derivative checked");
        }
    }
    Ok(())
}

fn gen_loss_kind_wide(s: &mut Source) -> LossKind {
    match s.below(8) {
        0 => LossKind::Mse,
        1 => LossKind::Mae,
        2 => LossKind::Rmse,
        3 => LossKind::Huber { delta: *s.pick(&[1.0, 0.5, 0.01, 2.5, 100.0, 1.35]) },
        4 => LossKind::LogCosh,
        5 => LossKind::Lp { p: *s.pick(&[2.0, 1.0, 1.5, 3.0, 4.0, 0.5, 2.5, 6.0]) },
        6 => LossKind::Quantile { tau: *s.pick(&[0.5, 0.1, 0.9, 0.25, 0.0, 1.0, 0.99]) },
        _ => LossKind::EpsilonInsensitive { eps: *s.pick(&[0.1, 0.0, 0.5, 1.0, 3.0]) },
    }
}

fn s01(s: &mut Source, c: &mut Case) -> PropResult {
    if s.bool() {
        s01_for::<f64>(s, c)
    } else {
        s01_for::<f32>(s, c)
    }
}

fn s01_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s01)
}

fn s01_names(s: &mut Source, c: &mut Case) -> PropResult {
    let table: &[(&str, LossKind)] = &[
        ("mse", LossKind::Mse),
        ("mae", LossKind::Mae),
        ("rmse", LossKind::Rmse),
        ("huber", LossKind::Huber { delta: 1.0 }),
        ("logcosh", LossKind::LogCosh),
        ("lp", LossKind::Lp { p: 2.0 }),
        ("quantile", LossKind::Quantile { tau: 0.5 }),
        ("epsilon-insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
        ("epsilon_insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
        ("eps-insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
        ("eps_insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
    ];
    let mut t: Vec<char> = s.pick(table).0.chars().collect();
    match s.below(6) {
        0 => {
            let i = s.below(t.len());
            t.remove(i);
        }
        1 => {
            let i = s.below(t.len() + 1);
            t.insert(i, *s.pick(&['a', '-', '_', ' ', '1', '\t', 'é']));
        }
        2 => {
            let i = s.below(t.len());
            t[i] = *s.pick(&['a', '-', '_', 's', 'e']);
        }
        _ => {}
    }
    let t: String = t.into_iter().map(|ch| if s.chance(1, 3) { ch.to_ascii_uppercase() } else { ch }).collect();
    let t = format!("{}{t}{}", s.pick(&["", " ", "\t "]), s.pick(&["", "  ", "\n"]));
    c.key(&t);
    c.nontrivial();
    c.describe(|| format!("{t:?}"));
    let norm = t.trim().to_ascii_lowercase();
    let want = table.iter().find(|x| x.0 == norm).map(|x| x.1);
    c.class(if want.is_some() { "a name" } else { "not a name" });
    let got = LossKind::parse(&t);
    ensure!(got == want, "{t:?} parses to {got:?}, expected {want:?}");
    Ok(())
}

pub fn p_s01() -> Property {
    Property {
        id: "S01",
        rule: "a loss case where every residual, term and sum is representable in the precision under test (so that a finite definite value exists); a name case is any token",
        assumptions: &["weights are finite and non-negative with a positive sum", "derivatives are compared away from kinks (distance relative to rounding of the residual)"],
        subs: vec![Sub { name: "losses", quick: 12_000_000, thorough: 240_000_000, tape: 110, shards: 0, f: s01 }, Sub { name: "large", quick: 24_000, thorough: 480_000, tape: 24, shards: 0, f: s01_large }, Sub { name: "names", quick: 160_000, thorough: 3_200_000, tape: 40, shards: 0, f: s01_names }],
    }
}

// ---------------------------------------------------------------- S03, S04

fn opts_for<N: Nf, const D: usize>(l: &Limits, ids: &[(u8, u16)]) -> Options<N, D> {
    let mut o: Options<N, D> = Options { operators: pick_ops::<D>(ids), ..Default::default() };
    l.apply(&mut o);
    o
}

/// Costs anywhere in their type's range.
fn large_costs(s: &mut Source, cx: &mut Cx) {
    let mut up = |v: &mut u16| {
        if s.bool() {
            *v = *s.pick(&[255u16, 256, 300, 1000, 20_000, 32_767, 32_768, 40_000, 65_534, 65_535]);
        }
    };
    up(&mut cx.consts);
    up(&mut cx.vars);
    for v in cx.per_var.iter_mut().flatten() {
        up(v);
    }
    for v in cx.ops.iter_mut() {
        up(&mut v.1);
    }
}

fn s03_for<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
{
    let ids = gen_ids::<O>(s);
    let nf = s.range(1, vcommon::up(5, 600));
    let mut cx = gen_cx(s, &ids, nf, true);
    if s.chance(1, 3) {
        large_costs(s, &mut cx);
        c.class("costs up to 65535");
    }
    let (t, k, e) = gen_expr::<O, D>(s, &ids, nf, vcommon::up(25, 2000), 0);
    let l = Limits { cx: cx.clone(), maxdepth: 30, ..Default::default() };
    let o = opts_for::<O::N, D>(&l, &ids);
    c.key(&format!("{}{cx:?}", t.shape_key()));
    c.nontrivial_if(t.size() > 1);
    c.class(if cx.is_default() { "default complexities" } else { "custom complexities" });
    c.describe(|| format!("{} with {cx:?}", tree::show_o::<O>(&t, &k)));
    let got = compute_complexity(&e.nodes, &o);
    ensure!(got == cx.of(&t), "complexity {got}, declared sum {}", cx.of(&t));
    if cx.is_default() {
        ensure!(got == t.size(), "default complexity {got} of {} nodes", t.size());
    }
    Ok(())
}

fn s03(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(4) {
        0 | 1 => s03_for::<B64, 3>(s, c),
        2 => s03_for::<B32, 3>(s, c),
        _ => s03_for::<Kit5, 5>(s, c),
    }
}

fn s03_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s03)
}

pub fn p_s03() -> Property {
    Property {
        id: "S03",
        rule: "an expression of more than one node under a generated table of per-variable, per-constant and per-operator costs (shapes, operators and table form the distinctness key)",
        assumptions: &["a feature without an entry in the per-variable list costs the general per-variable setting"],
        subs: vec![Sub { name: "complexity", quick: 6_000_000, thorough: 120_000_000, tape: 120, shards: 0, f: s03 }, Sub { name: "large", quick: 40_000, thorough: 800_000, tape: 60, shards: 0, f: s03_large }],
    }
}

fn s04_for<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
{
    let ids = gen_ids::<O>(s);
    let nf = s.range(1, 4);
    let l = gen_limits(s, &ids, nf, true);
    let (t, k, e) = gen_expr::<O, D>(s, &ids, nf, vcommon::up(20, 900), 0);
    let mut l = l;
    if vcommon::large() {
        limits_around(s, &mut l, &t);
    }
    let full = l.cx.of(&t);
    // limits around the boundary
    let cur = match s.below(4) {
        0 => 30,
        1 => full,
        2 => full.saturating_sub(1),
        _ => s.range(0, full + 3),
    };
    if s.chance(1, 3) {
        l.maxdepth = match s.below(3) {
            0 => t.depth(),
            1 => t.depth() - 1,
            _ => t.depth() + 1,
        };
    }
    let mut o = opts_for::<O::N, D>(&l, &ids);
    o.maxsize = s.range(1, 40);
    let want = l.ok(&t, cur);
    c.key(&format!("{}{l:?}{cur}", t.shape_key()));
    c.nontrivial_if(t.size() > 1);
    c.class(match want {
        Ok(()) => "accepted",
        Err(w) => w,
    });
    c.class_if(!l.cx.is_default(), "custom complexities");
    c.describe(|| format!("{} size limit {cur}, {l:?}", tree::show_o::<O>(&t, &k)));
    let got = check_constraints(&e, &o, cur);
    ensure!(got == want.is_ok(), "accepted = {got}, limits say {want:?} (complexity {full}, depth {})", t.depth());
    Ok(())
}

/// Argument and nesting limits next to what the expression itself has, costs of any size.
fn limits_around(s: &mut Source, l: &mut Limits, t: &Tree) {
    if s.chance(1, 4) {
        large_costs(s, &mut l.cx);
    }
    fn arg_max(t: &Tree, cx: &Cx, id: (u8, u16), j: usize) -> usize {
        match t {
            Tree::Op(a, o, ch) => (if (*a, *o) == id { cx.of(&ch[j]) } else { 0 }).max(ch.iter().map(|c| arg_max(c, cx, id, j)).max().unwrap_or(0)),
            _ => 0,
        }
    }
    fn nest_max(t: &Tree, a: (u8, u16), b: (u8, u16)) -> usize {
        match t {
            Tree::Op(ar, o, ch) => (if (*ar, *o) == a { ch.iter().map(|c| chain(c, b)).max().unwrap_or(0) } else { 0 }).max(ch.iter().map(|c| nest_max(c, a, b)).max().unwrap_or(0)),
            _ => 0,
        }
    }
    l.maxdepth = if s.bool() { 5000 } else { t.depth() + 1 - s.below(3).min(t.depth()) };
    let cx = l.cx.clone();
    for (id, j, m) in l.args.iter_mut() {
        if s.chance(3, 4) {
            *m = (arg_max(t, &cx, *id, *j) + 1).saturating_sub(s.below(3)).min(65535) as u16;
        }
    }
    for (a, b, m) in l.nested.iter_mut() {
        if s.chance(3, 4) {
            *m = (nest_max(t, *a, *b) + 1).saturating_sub(s.below(3)).min(255) as u8;
        }
    }
}

fn s04_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s04)
}

fn s04(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(4) {
        0 | 1 => s04_for::<B64, 3>(s, c),
        2 => s04_for::<ops::Ints, 3>(s, c),
        _ => s04_for::<Kit5, 5>(s, c),
    }
}

pub fn p_s04() -> Property {
    Property {
        id: "S04",
        rule: "an expression of more than one node under generated size, depth, argument and nesting limits placed around its own measures",
        assumptions: &["a size limit is checked against the complexity, a later argument limit for the same operator and position replaces the earlier one"],
        subs: vec![Sub { name: "constraints", quick: 8_000_000, thorough: 160_000_000, tape: 120, shards: 0, f: s04 }, Sub { name: "large", quick: 40_000, thorough: 800_000, tape: 60, shards: 0, f: s04_large }],
    }
}

// ---------------------------------------------------------------- S05

fn s05_for<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
{
    let ids = gen_ids::<O>(s);
    let nf = s.range(1, 3);
    let l = gen_limits(s, &ids, nf, true);
    let o = opts_for::<O::N, D>(&l, &ids);
    let maxsize = s.range(1, vcommon::up(20, 700));
    let mut hof = HallOfFame::<O::N, O, D>::new(maxsize);
    // model: per complexity (cost, loss, id)
    let mut model: Vec<Option<(f64, f64, u64)>> = vec![None; maxsize + 1];
    let n = s.range(1, vcommon::up(30, 1500));
    let mut log = String::new();
    let mut replaced = 0;
    let mut pend: Vec<PopMember<O::N, O, D>> = vec![];
    for id in 0..n as u64 {
        let max_ops = if vcommon::large() && s.bool() { 350 } else { 7 };
        let (t, _k, e) = gen_expr::<O, D>(s, &ids, nf, max_ops, 0);
        let mut m = member(id, id, e, nf);
        m.complexity = l.cx.of(&t);
        let loss = match s.below(6) {
            0 => f64::INFINITY,
            1 | 2 => s.range(0, 4) as f64,
            _ => O::N::of(s.uniform(0.0, 5.0)).f(),
        };
        let cost = match s.below(4) {
            0 => s.range(0, 3) as f64,
            1 => f64::INFINITY,
            _ => O::N::of(s.uniform(0.0, 5.0)).f(),
        };
        m.loss = O::N::of(loss);
        m.cost = O::N::of(cost);
        let cur = if s.chance(1, 3) { s.range(0, maxsize + 4) } else { maxsize };
        log.push_str(&if vcommon::large() { format!("[{id} cx {} cost {cost} loss {loss} limit {cur}] ", m.complexity) } else { format!("[{} cx {} cost {cost} loss {loss} limit {cur}] ", tree::show_o::<O>(&t, &vec![O::N::of(0.0); 40]), m.complexity) });
        if l.ok(&t, cur).is_ok() && m.complexity >= 1 && m.complexity <= maxsize {
            let slot = &mut model[m.complexity];
            match slot {
                Some(b) if !(cost < b.0) => {}
                _ => {
                    replaced += slot.is_some() as usize;
                    *slot = Some((cost, loss, id));
                }
            }
        }
        // through either entry point
        if cur == maxsize && s.bool() {
            pend.push(m);
        } else {
            hof.update_from_members(&pend, &o, maxsize);
            pend.clear();
            hof.consider(&m, &o, cur);
        }
        if !pend.is_empty() {
            if s.bool() {
                hof.update_from_members(&pend, &o, maxsize);
                pend.clear();
            } else {
                continue;
            }
        }
        if !vcommon::large() || id % 64 == 0 {
            compare_hof(&hof, &model, &log)?;
        }
    }
    hof.update_from_members(&pend, &o, maxsize);
    c.key(&log);
    c.nontrivial_if(replaced > 0);
    c.class_if(replaced > 0, "an entry was replaced");
    c.describe(|| format!("maxsize {maxsize}, {l:?}, offers {log}"));
    compare_hof(&hof, &model, &log)
}

fn compare_hof<N: Nf, O: TestOps<N = N> + OperatorSet<T = N>, const D: usize>(hof: &HallOfFame<N, O, D>, model: &[Option<(f64, f64, u64)>], log: &str) -> PropResult {
    ensure!(hof.best_by_complexity.len() == model.len(), "table size changed");
    for (i, w) in model.iter().enumerate() {
        let g = hof.best_by_complexity[i].as_ref().map(|m| (m.cost.f(), m.loss.f(), m.id.0));
        ensure!(g == *w, "complexity {i}: entry {g:?}, expected (cost, loss, offer) {w:?} after {log}");
    }
    let ids: Vec<u64> = hof.members().map(|m| m.id.0).collect();
    let want: Vec<u64> = model.iter().flatten().map(|m| m.2).collect();
    ensure!(ids == want, "members() lists {ids:?}, expected {want:?}");
    let front: Vec<u64> = hof.pareto_front().iter().map(|m| m.id.0).collect();
    let mut wf = vec![];
    for (i, m) in model.iter().enumerate() {
        if let Some(m) = m {
            if m.1.is_finite() && model[..i].iter().flatten().all(|b| m.1 < b.1) {
                wf.push(m.2);
            }
        }
    }
    ensure!(front == wf, "Pareto front {front:?}, expected {wf:?} after {log}");
    Ok(())
}

fn s05(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(3) {
        0 => s05_for::<B64, 3>(s, c),
        1 => s05_for::<B32, 3>(s, c),
        _ => s05_for::<Kit5, 5>(s, c),
    }
}

fn s05_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s05)
}

pub fn p_s05() -> Property {
    Property {
        id: "S05",
        rule: "an offer history in which at least one entry was replaced by a better candidate",
        assumptions: &["offered members carry the complexity of their expression; costs and losses are numbers (possibly infinite), not NaN"],
        subs: vec![Sub { name: "history", quick: 1_200_000, thorough: 24_000_000, tape: 900, shards: 0, f: s05 }, Sub { name: "large", quick: 800, thorough: 16_000, tape: 60, shards: 0, f: s05_large }],
    }
}

// ---------------------------------------------------------------- S09

type M = PopMember<f64, B64, 3>;

fn pop_of(costs: &[f64], sizes: &[usize]) -> Population<f64, B64, 3> {
    Population::new(
        costs
            .iter()
            .zip(sizes)
            .enumerate()
            .map(|(i, (c, z))| {
                let mut m: M = member(i as u64, i as u64, mk_expr::<B64, 3>(&Tree::Var(0), &[]), 1);
                m.cost = *c;
                m.loss = *c;
                m.complexity = *z;
                m
            })
            .collect(),
    )
}

fn gen_stats(s: &mut Source, maxsize: usize) -> RunningSearchStatistics {
    let mut st = RunningSearchStatistics::new(maxsize, *s.pick(&[100000, 1, 10, 100, 1000]));
    match s.below(4) {
        0 => {}
        1 => {
            for _ in 0..s.range(1, 200) {
                let z = s.below(maxsize + 3);
                st.update_frequencies(z);
            }
        }
        2 => {
            // concentrated
            let z = s.range(1, maxsize);
            for _ in 0..s.range(1, 3000) {
                st.update_frequencies(z);
            }
        }
        _ => {
            for z in 1..=maxsize {
                for _ in 0..s.below(20) {
                    st.update_frequencies(z);
                }
            }
        }
    }
    if s.bool() {
        st.move_window();
    }
    st.normalize();
    st
}

fn gen_cost(s: &mut Source) -> f64 {
    match s.below(8) {
        0 => 0.0,
        1 => f64::INFINITY,
        2 => s.range(1, 3) as f64,
        3 => s.wild().abs(),
        _ => s.uniform(0.0, 10.0),
    }
}

/// ln of the frequency-adjusted cost (a total order that cannot overflow).
fn ln_adjusted(cost: f64, size: usize, st: &RunningSearchStatistics, o: &Options<f64, 3>) -> f64 {
    let f = if o.use_frequency_in_tournament && size > 0 && size <= o.maxsize { st.normalized_frequencies[size - 1] } else { 0.0 };
    let e = o.adaptive_parsimony_scaling * f;
    if e.exp().is_infinite() && cost > 0.0 {
        return f64::INFINITY;
    }
    if cost > 0.0 {
        // products in the subnormal range are too coarse to tell apart
        (cost.ln() + e).max(1e-305f64.ln())
    } else {
        cost.ln() + e
    }
}

fn s09_best(s: &mut Source, c: &mut Case) -> PropResult {
    let maxsize = s.range(1, vcommon::up(30, 400));
    let n = s.range(1, vcommon::up(40, 1500));
    let costs: Vec<f64> = (0..n).map(|_| gen_cost(s)).collect();
    let sizes: Vec<usize> = (0..n).map(|_| s.range(0, maxsize + 2)).collect();
    let st = gen_stats(s, maxsize);
    let mut o: Options<f64, 3> = Options { maxsize, ..Default::default() };
    o.use_frequency_in_tournament = s.chance(2, 3);
    o.adaptive_parsimony_scaling = *s.pick(&[1040.0, 20.0, 0.0, 1.0, 100.0, 5000.0]);
    let whole = s.bool();
    o.tournament_selection_n = if whole { n + s.below(3) } else { s.range(1, n) };
    o.tournament_selection_p = if s.bool() { 1.0 } else { s.uniform(0.05, 1.0) as f32 };
    let pop = pop_of(&costs, &sizes);
    let mut r = rng(s);
    c.key(&format!("{costs:?}{sizes:?}{:?}{}{}", st.normalized_frequencies, o.tournament_selection_n, o.tournament_selection_p));
    c.nontrivial_if(n > 1);
    c.class_if(costs.contains(&f64::INFINITY), "infinite cost present");
    c.describe(|| {
        format!(
            "costs {costs:?} sizes {sizes:?} n {} p {} frequencies in tournament {} scaling {} normalised {:?}",
            o.tournament_selection_n, o.tournament_selection_p, o.use_frequency_in_tournament, o.adaptive_parsimony_scaling, st.normalized_frequencies
        )
    });
    let reps = if whole && o.tournament_selection_p == 1.0 { 1 } else { 8 };
    for _ in 0..reps {
        let m = best_of_sample(&mut r, &pop, &st, &o);
        let i = m.id.0 as usize;
        ensure!(i < n && m.cost == costs[i] && m.complexity == sizes[i], "returned a candidate that is not a member");
        if whole && o.tournament_selection_p == 1.0 {
            c.class("whole population, certain");
            let adj: Vec<f64> = (0..n).map(|i| ln_adjusted(costs[i], sizes[i], &st, &o)).collect();
            let min = adj.iter().copied().fold(f64::INFINITY, f64::min);
            // beyond the float range adjusted costs are all "huge"
            let cap = f64::MAX.ln() - 0.01;
            c.class_if(min > cap && min.is_finite(), "all finite adjusted costs beyond the float range");
            ensure!(adj[i].min(cap) <= min.min(cap) + 1e-9 * (1.0 + min.abs().min(1e4)), "returned member {i} with ln(adjusted cost) {} although the minimum is {min}", adj[i]);
            ensure!(costs[i].is_finite() || costs.iter().all(|c| !c.is_finite()), "a member with infinite cost beat one with finite cost");
        }
    }
    // with p = 1 and any sample size, the winner is the best of *some* sample: at most n - k members are strictly better
    if o.tournament_selection_p == 1.0 {
        let k = o.tournament_selection_n.min(n);
        let adj: Vec<f64> = (0..n).map(|i| ln_adjusted(costs[i], sizes[i], &st, &o)).collect();
        for _ in 0..4 {
            let i = best_of_sample(&mut r, &pop, &st, &o).id.0 as usize;
            let better = (0..n).filter(|&j| adj[j] + 1e-9 * (1.0 + adj[j].abs()) < adj[i] && adj[j] < f64::MAX.ln() - 0.01).count();
            ensure!(better <= n - k, "winner of a tournament among {k} of {n} distinct members is beaten by {better} of them");
            if costs[i].is_infinite() {
                let finite = costs.iter().filter(|c| c.is_finite()).count();
                ensure!(finite <= n - k, "a member with infinite cost won although the sample of {k} held a finite one");
            }
        }
    }
    Ok(())
}

/// Largest deviation of a Binomial(draws, p) count that has probability above 1e-13 (Bernstein).
fn bern(draws: f64, p: f64) -> f64 {
    let a = (2.0f64 / 1e-13).ln();
    let v = draws * p * (1.0 - p);
    a / 3.0 + (a * a / 9.0 + 2.0 * a * v).sqrt()
}

fn choose(n: usize, k: usize) -> f64 {
    if k > n {
        return 0.0;
    }
    (0..k).map(|i| (n - i) as f64 / (k - i) as f64).product()
}

fn s09_dist(s: &mut Source, c: &mut Case) -> PropResult {
    let n = s.range(2, vcommon::up(14, 400));
    let k = if s.bool() { s.range(1, n.min(60)) } else { s.range(1, 5.min(n)) };
    let p = s.uniform(0.1, 1.0) as f32;
    let mut o: Options<f64, 3> = Options::default();
    o.use_frequency_in_tournament = s.bool();
    o.adaptive_parsimony_scaling = 20.0;
    o.tournament_selection_n = k;
    o.tournament_selection_p = p;
    // costs that are distinct by construction, members in random order
    let sizes: Vec<usize> = (0..n).map(|_| s.range(1, 20)).collect();
    let st = gen_stats(s, 30);
    let mut target: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        target.swap(i, s.below(i + 1));
    }
    // member i has rank target[i]
    let costs: Vec<f64> = (0..n)
        .map(|i| {
            let f = if o.use_frequency_in_tournament { st.normalized_frequencies[sizes[i] - 1] } else { 0.0 };
            (1.0 + target[i] as f64) * (-20.0 * f).exp()
        })
        .collect();
    let pop = pop_of(&costs, &sizes);
    let mut r = rng(s);
    let draws = 12_000;
    c.key(&format!("{costs:?}{k}{p}"));
    c.nontrivial_if(k > 1);
    c.describe(|| format!("{n} members of ranks {target:?}, tournament of {k}, p {p}, {draws} draws"));
    let mut count = vec![0u32; n];
    for _ in 0..draws {
        let i = best_of_sample(&mut r, &pop, &st, &o).id.0 as usize;
        count[target[i]] += 1;
    }
    let q = 1.0 - p as f64;
    let norm: f64 = (0..k).map(|j| p as f64 * q.powi(j as i32)).sum();
    for rank in 0..n {
        // rank `rank` is the (j+1)-th best of the sample: j better and k-1-j worse members drawn
        let prob: f64 = (0..k)
            .map(|j| {
                let g = if q <= 0.0 { (j == 0) as u8 as f64 } else { p as f64 * q.powi(j as i32) / norm };
                g * choose(rank, j) * choose(n - 1 - rank, k - 1 - j) / choose(n, k)
            })
            .sum();
        let exp = prob * draws as f64;
        let dev = bern(draws as f64, prob) + 1e-6;
        ensure!((count[rank] as f64 - exp).abs() <= dev, "rank {rank} chosen {} times in {draws} draws, expected {exp:.1} +- {dev:.1} (chance below 1e-13)", count[rank]);
        if prob < 1e-15 {
            ensure!(count[rank] == 0, "rank {rank} cannot win but was chosen");
        }
    }
    Ok(())
}

fn s09_best_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s09_best)
}
fn s09_dist_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s09_dist)
}

pub fn p_s09() -> Property {
    Property {
        id: "S09",
        rule: "a tournament over at least two members; distribution cases draw 12000 winners from a population with known distinct ranks and compare with the exact probabilities",
        assumptions: &[
            "distribution deviations are flagged only beyond a Bernstein bound of probability 1e-13 per count",
            "costs are non-negative numbers, possibly infinite",
            "frequency-adjusted costs beyond the float range count as equal",
        ],
        subs: vec![Sub { name: "winner", quick: 3_200_000, thorough: 64_000_000, tape: 220, shards: 0, f: s09_best }, Sub { name: "distribution", quick: 24_000, thorough: 480_000, tape: 120, shards: 0, f: s09_dist }, Sub { name: "large", quick: 20_000, thorough: 400_000, tape: 40, shards: 0, f: s09_best_large }, Sub { name: "large-distribution", quick: 1_200, thorough: 24_000, tape: 40, shards: 0, f: s09_dist_large }],
    }
}

// ---------------------------------------------------------------- S10

fn s10(s: &mut Source, c: &mut Case) -> PropResult {
    let maxsize = s.range(1, vcommon::up(40, 700));
    let window = match s.below(vcommon::up(4, 6)) {
        4 => s.range(0, 5000),
        5 => s.range(0, 400_000),
        0 => s.range(0, maxsize + 2),
        1 => s.range(0, 60),
        2 => s.range(0, 500),
        _ => 100_000,
    };
    let mut st = RunningSearchStatistics::new(maxsize, window);
    let init: f64 = st.normalized_frequencies.iter().sum();
    ensure!(st.frequencies.len() == maxsize && (init - 1.0).abs() < 1e-9, "initial statistics");
    let mut log = format!("maxsize {maxsize} window {window}: ");
    let mut moved = 0;
    let mut todo = s.range(1, vcommon::up(14, 300));
    c.describe(|| format!("maxsize {maxsize} window {window}, {todo} steps"));
    while todo > 0 {
        todo -= 1;
        let before = st.frequencies.clone();
        match s.below(6) {
            0 | 1 => {
                let z = match s.below(6) {
                    0 => 0,
                    1 => maxsize + s.range(1, 3),
                    2 => usize::MAX,
                    _ => s.range(1, maxsize),
                };
                log.push_str(&format!("update({z}) "));
                st.update_frequencies(z);
                for i in 0..maxsize {
                    let w = before[i] + ((i + 1 == z) as u8) as f64;
                    ensure!(st.frequencies[i] == w, "count of {} is {} after {log}, expected {w}", i + 1, st.frequencies[i]);
                }
            }
            2 | 3 => {
                let n = s.range(0, vcommon::up(60, 900));
                let zs: Vec<usize> = if s.bool() { (0..n).map(|_| s.range(0, maxsize + 1)).collect() } else { vec![s.range(1, maxsize); n * 5] };
                log.push_str(&if vcommon::large() { format!("population({} of {:?}..) ", zs.len(), zs.first()) } else { format!("population({zs:?}) ") });
                st.update_from_population(zs.iter().copied());
                let mut hist = vec![0usize; maxsize + 2];
                zs.iter().for_each(|z| hist[*z] += 1);
                for i in 0..maxsize {
                    let w = before[i] + hist[i + 1] as f64;
                    ensure!((st.frequencies[i] - w).abs() <= 1e-9 * w, "count of {} is {} after {log}, expected {w}", i + 1, st.frequencies[i]);
                }
            }
            4 => {
                log.push_str("move ");
                st.move_window();
                for i in 0..maxsize {
                    ensure!(st.frequencies[i] <= before[i], "moving the window raised the count of {}: {} -> {}", i + 1, before[i], st.frequencies[i]);
                    ensure!(st.frequencies[i] >= 1.0 - 1e-9, "moving the window dropped the count of {} to {}", i + 1, st.frequencies[i]);
                }
                moved += (st.frequencies != before) as usize;
                let sum: f64 = st.frequencies.iter().sum();
                let at_min = st.frequencies.iter().all(|f| *f <= 1.0 + 1e-5);
                ensure!(sum <= window as f64 + 1e-5 * maxsize as f64 || at_min, "total {sum} after moving the window of {window}: {:?} ({log})", st.frequencies);
                if before.iter().sum::<f64>() <= window as f64 {
                    ensure!(st.frequencies == before, "a move within the window changed the counts");
                }
                // never takes more than needed
                let want = (before.iter().sum::<f64>()).min((window as f64).max(maxsize as f64));
                ensure!(sum >= want - 1e-5 * maxsize as f64 - 1e-9 * want, "total fell to {sum}, the window is {window}");
            }
            _ => {
                log.push_str("normalise ");
                st.normalize();
                let sum: f64 = st.frequencies.iter().sum();
                ensure!(st.frequencies == before, "normalising changed the counts");
                for i in 0..maxsize {
                    let w = before[i] / sum;
                    ensure!((st.normalized_frequencies[i] - w).abs() <= 1e-12, "normalised frequency of {} is {}, expected {w}", i + 1, st.normalized_frequencies[i]);
                    ensure!((st.freq(i + 1) - w.max(1e-6)).abs() <= 1e-12, "freq({}) = {}", i + 1, st.freq(i + 1));
                }
                for z in [0, maxsize + 1, usize::MAX] {
                    ensure!(st.freq(z) > 0.0 && st.freq(z) <= 1e-6, "freq({z}) = {} outside the range", st.freq(z));
                }
            }
        }
        ensure!(st.frequencies.len() == maxsize && st.frequencies.iter().all(|f| *f >= 1.0 - 1e-9), "negative or missing count after {log}: {:?}", st.frequencies);
    }
    c.key(&(maxsize, window, &log));
    c.nontrivial_if(moved > 0);
    c.class_if(moved > 0, "window moved");
    c.describe_more(|| log.chars().take(400).collect::<String>());
    Ok(())
}

fn s10_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s10)
}

pub fn p_s10() -> Property {
    Property {
        id: "S10",
        rule: "a history in which a window move actually lowered the total",
        assumptions: &["totals are compared with a tolerance of 1e-5 per complexity (the window move works to 1e-6)"],
        subs: vec![Sub { name: "history", quick: 4_800_000, thorough: 96_000_000, tape: 200, shards: 0, f: s10 }, Sub { name: "large", quick: 12_000, thorough: 240_000, tape: 40, shards: 0, f: s10_large }],
    }
}

// ---------------------------------------------------------------- S11

/// The same values in a different memory layout.
fn layout2<N: Nf>(s: &mut Source, x: &Array2<N>) -> (Array2<N>, &'static str) {
    let (a, b) = x.dim();
    match s.below(6) {
        0 => (x.clone(), "standard"),
        1 => {
            let mut y = Array2::<N>::zeros((a, b).f());
            y.assign(x);
            (y, "column-major")
        }
        2 => {
            // stored reversed, viewed back
            let mut y = x.slice(ndarray::s![.., ..;-1]).as_standard_layout().to_owned();
            y.invert_axis(ndarray::Axis(1));
            (y, "reversed rows")
        }
        3 => {
            let mut y = x.slice(ndarray::s![..;-1, ..]).as_standard_layout().to_owned();
            y.invert_axis(ndarray::Axis(0));
            (y, "reversed features")
        }
        4 => {
            let mut y = Array2::<N>::from_elem((2 * a + 1, 3 * b + 2), N::of(777.0));
            for i in 0..a {
                for j in 0..b {
                    y[(2 * i, 3 * j + 1)] = x[(i, j)];
                }
            }
            (y.slice_move(ndarray::s![0..2 * a;2, 1..3 * b + 1;3]), "strided")
        }
        _ => {
            let y = x.t().as_standard_layout().to_owned();
            (y.reversed_axes(), "transposed")
        }
    }
}
fn layout1<N: Nf>(s: &mut Source, x: &Array1<N>) -> (Array1<N>, &'static str) {
    let n = x.len();
    match s.below(4) {
        0 => (x.clone(), "standard"),
        1 => {
            let mut y = x.slice(ndarray::s![..;-1]).to_owned();
            y.invert_axis(ndarray::Axis(0));
            (y, "reversed")
        }
        2 => {
            let mut y = Array1::<N>::from_elem(2 * n + 1, N::of(-555.0));
            for i in 0..n {
                y[2 * i + 1] = x[i];
            }
            (y.slice_move(ndarray::s![1..2 * n + 1;2]), "strided")
        }
        _ => {
            // a column of a row-major table
            let mut y = Array2::<N>::from_elem((n, 3), N::of(99.0));
            for i in 0..n {
                y[(i, 1)] = x[i];
            }
            (y.index_axis_move(ndarray::Axis(1), 1), "column of a table")
        }
    }
}

fn s11_for<N: Nf, O: TestOps<N = N> + OperatorSet<T = N>>(s: &mut Source, c: &mut Case) -> PropResult {
    let nf = s.range(1, vcommon::up(4, 300));
    let rows = if s.chance(1, 15) { 0 } else { s.range(1, vcommon::up(12, 3000)) };
    // distinct values identify rows
    let mut x = Array2::<N>::zeros((nf, rows));
    for f in 0..nf {
        for r in 0..rows {
            x[(f, r)] = N::of((r * vcommon::up(10, 1000) + f + 1) as f64 + if s.bool() { 0.25 } else { 0.5 });
        }
    }
    let y: Array1<N> = (0..rows).map(|r| N::of(1000.0 + r as f64 + 0.5 * s.below(2) as f64)).collect();
    let weighted = s.bool();
    let w: Option<Array1<N>> = weighted.then(|| (0..rows).map(|r| N::of(0.5 + r as f64)).collect());
    let names: Vec<String> = if s.bool() { (0..nf).map(|i| format!("v{i}")).collect() } else { vec![] };
    let (lx, nx) = layout2(s, &x);
    let (ly, ny) = layout1(s, &y);
    let (lw, nw) = match &w {
        Some(w) => {
            let (a, n) = layout1(s, w);
            (Some(a), n)
        }
        None => (None, "none"),
    };
    ensure!(lx == x && ly == y, "harness: layouts differ");
    c.key(&(nx, ny, nw, nf, rows));
    c.nontrivial_if(rows > 0);
    c.class(nx);
    c.class_if(ny != "standard" || (nw != "standard" && nw != "none"), "non-standard target or weights");
    c.describe(|| format!("{nf} features x {rows} rows, x {nx}, y {ny}, weights {nw}"));
    let plain = !weighted && names.is_empty() && s.bool();
    let d = if plain { Dataset::new(lx, ly) } else { Dataset::with_weights_and_names(lx, ly, lw, names.clone()) };
    ensure!(d.n_features == nf && d.n_rows == rows, "dimensions {}x{}", d.n_features, d.n_rows);
    ensure!(d.x == x && d.y == y, "features or target differ from the given values");
    ensure!(d.y_slice() == y.to_vec().as_slice(), "target slice");
    ensure!(d.variable_names == if plain { vec![] } else { names.clone() }, "names");
    match (&w, d.weights_slice()) {
        (Some(w), Some(g)) => ensure!(g == w.to_vec().as_slice(), "weights {g:?}, given {w:?}"),
        (None, None) => {}
        (a, b) => return Err(format!("weights given: {}, seen: {}", a.is_some(), b.is_some())),
    }
    let (mut sy, mut sw) = (0.0, 0.0);
    for r in 0..rows {
        let wi = w.as_ref().map_or(1.0, |w| w[r].f());
        sy += wi * y[r].f();
        sw += wi;
    }
    let avg = if rows == 0 { 0.0 } else { sy / sw };
    ensure!((d.avg_y.f() - avg).abs() <= avg.abs() * N::EPS * (40.0 + 2.0 * rows as f64), "avg_y {} expected {avg}", d.avg_y);
    if rows == 0 {
        return Ok(());
    }
    // scoring a candidate on it gives what the standard layout gives
    let reference = Dataset::with_weights_and_names(x.clone(), y.clone(), w.clone(), vec![]);
    let o: Options<N, 3> = Options { operators: all_ops::<O, 3>(), ..Default::default() };
    let base = TaggedDataset::new(&d, None);
    let rbase = TaggedDataset::new(&reference, None);
    let (t, _k, e) = gen_expr::<O, 3>(s, &O::ids(), nf, 4, 0);
    let mut m1 = member(0, 0, e.clone(), nf);
    let mut m2 = member(0, 0, e, nf);
    let mut ev1 = Evaluator::<N, 3>::new(rows);
    let mut ev2 = Evaluator::<N, 3>::new(rows);
    let (a, b) = (m1.evaluate(&base, &o, &mut ev1), m2.evaluate(&rbase, &o, &mut ev2));
    ensure!(a == b && m1.loss.same(m2.loss) && m1.cost.same(m2.cost), "loss {} on this layout, {} on the standard one ({})", m1.loss, m2.loss, t.shape_key());
    // batches
    let bs = s.range(0, vcommon::up(20, 6000));
    let mut batch = Dataset::make_batch_buffer(&d, bs);
    ensure!(batch.n_rows == bs.max(1) && batch.x.dim() == (nf, bs.max(1)) && batch.y.len() == bs.max(1), "batch of {} rows for {bs}", batch.n_rows);
    ensure!(batch.weights.is_some() == d.weights.is_some(), "batch weights");
    ensure!(batch.variable_names == d.variable_names, "batch names");
    let mut r = rng(s);
    let rounds = vcommon::up(1500, 9000) / batch.n_rows + 2;
    let row_of = |v: f64| Some((v - 1000.0).floor()).filter(|i| *i >= 0.0 && *i < rows as f64).map(|i| i as usize).filter(|i| y[*i].f() == v);
    let mut hits = vec![0u32; rows];
    for _ in 0..rounds {
        batch.resample_from(&d, &mut r);
        ensure!(batch.n_rows == bs.max(1) && batch.y.len() == bs.max(1) && batch.x.dim() == (nf, bs.max(1)), "resampling changed the batch size");
        for j in 0..batch.n_rows {
            let src = row_of(batch.y[j].f());
            let Some(i) = src else { return Err(format!("batch target {} is not in the data", batch.y[j])) };
            hits[i] += 1;
            for f in 0..nf {
                ensure!(batch.x[(f, j)] == x[(f, i)], "batch row {j} mixes row {i}'s target with feature value {}", batch.x[(f, j)]);
            }
            if let Some(w) = &w {
                ensure!(batch.weights.as_ref().unwrap()[j] == w[i], "batch row {j} mixes row {i}'s target with weight {}", batch.weights.as_ref().unwrap()[j]);
            }
        }
    }
    let draws = (rounds * batch.n_rows) as f64;
    for (i, h) in hits.iter().enumerate() {
        let p = 1.0 / rows as f64;
        ensure!((*h as f64 - draws * p).abs() <= bern(draws, p), "row {i} of {rows} drawn {h} times in {draws} draws (chance below 1e-13)");
    }
    Ok(())
}

fn s11(s: &mut Source, c: &mut Case) -> PropResult {
    if s.bool() {
        s11_for::<f64, B64>(s, c)
    } else {
        s11_for::<f32, B32>(s, c)
    }
}

fn s11_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s11)
}

/// More rows than a short integer counts.
fn s11_huge(s: &mut Source, c: &mut Case) -> PropResult {
    let rows = match s.below(3) {
        0 => 65_536 + s.range(0, 3),
        1 => s.range(66_000, 140_000),
        _ => s.range(140_000, 400_000),
    };
    c.nontrivial();
    c.key(&rows);
    c.describe(|| format!("{rows} rows"));
    let x = Array2::from_shape_fn((2, rows), |(f, i)| if f == 0 { i as f64 } else { -(i as f64) });
    let y = Array1::from_shape_fn(rows, |i| 3.0 * i as f64);
    let w = s.bool().then(|| Array1::from_shape_fn(rows, |i| 1.0 + i as f64));
    let d = Dataset::with_weights_and_names(x, y, w.clone(), vec![]);
    ensure!(d.n_rows == rows && d.n_features == 2, "dimensions {}x{}", d.n_features, d.n_rows);
    // 3 * x0 predicts every row, x0 misses row i by 2i
    let o: Options<f64, 3> = Options { operators: all_ops::<B64, 3>(), ..Default::default() };
    let mut m: M = member(0, 0, mk_expr::<B64, 3>(&Tree::Var(0), &[]), 2);
    let mut ev = Evaluator::<f64, 3>::new(rows);
    ensure!(m.evaluate(&TaggedDataset::new(&d, None), &o, &mut ev), "not evaluated");
    let (mut num, mut den) = (0.0, 0.0);
    for i in 0..rows {
        let wi = w.as_ref().map_or(1.0, |w| w[i]);
        num += wi * 4.0 * (i as f64) * (i as f64);
        den += wi;
    }
    ensure!((m.loss - num / den).abs() <= 1e-9 * (num / den), "loss {} of a candidate on {rows} rows, it is {}", m.loss, num / den);
    let bs = s.range(1000, 5000);
    let mut b = Dataset::make_batch_buffer(&d, bs);
    let mut r = rng(s);
    const BINS: usize = 16;
    let mut hits = [0u32; BINS];
    let rounds = 8;
    for _ in 0..rounds {
        b.resample_from(&d, &mut r);
        for j in 0..bs {
            let i = b.x[(0, j)] as usize;
            ensure!(i < rows && b.x[(0, j)] == i as f64 && b.x[(1, j)] == -(i as f64) && b.y[j] == 3.0 * i as f64, "batch row {j} is no row of the data");
            ensure!(w.as_ref().is_none_or(|w| b.weights.as_ref().unwrap()[j] == w[i]), "batch row {j} has another row's weight");
            hits[i * BINS / rows] += 1;
        }
    }
    let draws = (rounds * bs) as f64;
    for (k, h) in hits.iter().enumerate() {
        let p = ((k + 1) * rows).div_ceil(BINS) as f64 / rows as f64 - (k * rows).div_ceil(BINS) as f64 / rows as f64;
        ensure!((*h as f64 - draws * p).abs() <= bern(draws, p), "rows of part {k}/{BINS} of {rows} were drawn {h} times in {draws} draws (chance below 1e-13)");
    }
    Ok(())
}

pub fn p_s11() -> Property {
    Property {
        id: "S11",
        rule: "a dataset with at least one row given in a generated memory layout (standard, column-major, reversed, strided, transposed), scored and resampled",
        assumptions: &["row frequencies are flagged only beyond a Bernstein bound of probability 1e-13"],
        subs: vec![Sub { name: "layouts", quick: 400_000, thorough: 8_000_000, tape: 160, shards: 0, f: s11 }, Sub { name: "large", quick: 600, thorough: 12_000, tape: 40, shards: 0, f: s11_large }, Sub { name: "huge", quick: 160, thorough: 3_000, tape: 12, shards: 0, f: s11_huge }],
    }
}

// ---------------------------------------------------------------- S15

macro_rules! shim_fields {
    ($m:ident) => {
        $m! {
            seed u64 0, niterations usize 100, populations usize 31, population_size usize 27, ncycles_per_iteration usize 380, batch_size usize 50,
            complexity_of_constants u16 1, complexity_of_variables u16 1, maxsize usize 30, maxdepth usize 30, warmup_maxsize_by f32 0.0, parsimony f64 0.0,
            adaptive_parsimony_scaling f64 1040.0, crossover_probability f64 0.0259, perturbation_factor f64 0.129, probability_negate_constant f64 0.00743,
            tournament_selection_n usize 15, tournament_selection_p f32 0.982, alpha f64 3.17, optimizer_nrestarts usize 2, optimizer_probability f64 0.14,
            optimizer_iterations usize 8, optimizer_f_calls_limit usize 10000, fraction_replaced f64 0.00036, fraction_replaced_hof f64 0.0614,
            fraction_replaced_guesses f64 0.001, topn usize 12, use_frequency bool true, use_frequency_in_tournament bool true, skip_mutation_failures bool true,
            annealing bool true, should_optimize_constants bool true, migration bool true, hof_migration bool true, use_baseline bool true, progress bool true,
            should_simplify bool true, batching bool false
        }
    };
}
macro_rules! weight_fields {
    ($m:ident) => {
        $m! {
            mutate_constant 0.0346, mutate_operator 0.293, mutate_feature 0.1, swap_operands 0.198, rotate_tree 4.26, add_node 2.47, insert_node 0.0112,
            delete_node 0.870, simplify 0.00209, randomize 0.000502, do_nothing 0.273, optimize 0.0, form_connection 0.5, break_connection 0.1
        }
    };
}

trait GenVal: Sized {
    fn gen(s: &mut Source) -> Self;
}
impl GenVal for u64 {
    fn gen(s: &mut Source) -> u64 {
        match s.below(3) {
            0 => s.below(100) as u64,
            1 => s.u64(),
            _ => u64::MAX,
        }
    }
}
impl GenVal for usize {
    fn gen(s: &mut Source) -> usize {
        match s.below(3) {
            0 => s.below(100),
            1 => s.u32() as usize,
            _ => s.u64() as usize,
        }
    }
}
impl GenVal for u16 {
    fn gen(s: &mut Source) -> u16 {
        s.u32() as u16
    }
}
impl GenVal for f32 {
    fn gen(s: &mut Source) -> f32 {
        s.wild().clamp(-1e30, 1e30) as f32
    }
}
impl GenVal for f64 {
    fn gen(s: &mut Source) -> f64 {
        s.wild()
    }
}
impl GenVal for bool {
    fn gen(s: &mut Source) -> bool {
        s.bool()
    }
}

fn s15(s: &mut Source, c: &mut Case) -> PropResult {
    use serde_json::{json, Map, Value};
    let present_all = s.chance(1, 4);
    let mut obj = Map::new();
    let mut want = WasmOptionsShim::default();
    let mut nset = 0;
    macro_rules! defaults { ($($f:ident $t:ident $d:tt),*) => { $( let v: $t = $d; ensure!(want.$f == v, "default of {} is {:?}, documented {:?}", stringify!($f), want.$f, v); )*
            { let o: Options<f64, 3> = Options::default(); $( let v: $t = $d; ensure!(o.$f == v, "default option {} is {:?}, documented {:?}", stringify!($f), o.$f, v); )* } } }
    shim_fields!(defaults);
    macro_rules! wdefaults { ($($f:ident $d:tt),*) => { $( let v: f64 = $d; ensure!(want.mutation_weights.$f == v, "default weight {}", stringify!($f)); )* } }
    weight_fields!(wdefaults);
    macro_rules! fill { ($($f:ident $t:ident $d:tt),*) => { $( if present_all || s.bool() { let v = <$t as GenVal>::gen(s); want.$f = v; obj.insert(stringify!($f).into(), json!(v)); nset += 1; } )* } }
    shim_fields!(fill);
    if present_all || s.bool() {
        let mut w = Map::new();
        macro_rules! wfill { ($($f:ident $d:tt),*) => { $( if present_all || s.bool() { let v = f64::gen(s); want.mutation_weights.$f = v; w.insert(stringify!($f).into(), json!(v)); nset += 1; } )* } }
        weight_fields!(wfill);
        obj.insert("mutation_weights".into(), Value::Object(w));
    }
    c.key(&serde_json::to_string(&obj).unwrap());
    c.nontrivial_if(nset > 0);
    c.describe(|| serde_json::to_string(&obj).unwrap());
    let via_text = s.bool();
    let got: WasmOptionsShim = serde_json::from_value(Value::Object(obj.clone())).map_err(|e| format!("reading back: {e}"))?;
    macro_rules! cmp { ($($f:ident $t:ident $d:tt),*) => { $( ensure!(got.$f == want.$f, "{}: read {:?}, written {:?}", stringify!($f), got.$f, want.$f); )* } }
    shim_fields!(cmp);
    macro_rules! wcmp { ($($f:ident $d:tt),*) => { $( ensure!(got.mutation_weights.$f == want.mutation_weights.$f, "weight {}: read {:?}, written {:?}", stringify!($f), got.mutation_weights.$f, want.mutation_weights.$f); )* } }
    weight_fields!(wcmp);
    // serialise: every field, under its own name, nothing else
    let ser = serde_json::to_value(&got).map_err(|e| e.to_string())?;
    let so = ser.as_object().ok_or("not an object")?;
    let mut keys: Vec<&str> = vec!["mutation_weights"];
    macro_rules! keys { ($($f:ident $t:ident $d:tt),*) => { $( keys.push(stringify!($f)); ensure!(so.get(stringify!($f)) == Some(&json!(want.$f)), "{} serialised as {:?}", stringify!($f), so.get(stringify!($f))); )* } }
    shim_fields!(keys);
    for k in so.keys() {
        ensure!(keys.contains(&k.as_str()), "unexpected field {k} in the serialised options");
    }
    let back: WasmOptionsShim = if via_text {
        let txt = serde_json::to_string(&got).unwrap();
        serde_json::from_str(&txt).map_err(|e| format!("{e}"))?
    } else {
        serde_json::from_value(ser.clone()).map_err(|e| format!("{e}"))?
    };
    macro_rules! cmp2 { ($($f:ident $t:ident $d:tt),*) => { $( ensure!(close(back.$f, want.$f, via_text), "{}: {:?} after the round trip of {:?}", stringify!($f), back.$f, want.$f); )* } }
    shim_fields!(cmp2);
    macro_rules! wcmp2 { ($($f:ident $d:tt),*) => { $( ensure!(close(back.mutation_weights.$f, want.mutation_weights.$f, via_text), "weight {} after the round trip", stringify!($f)); )* } }
    weight_fields!(wcmp2);
    // apply to a configuration with everything else set to marked values
    let ids = B64::ids();
    let l = gen_limits(s, &ids, 3, true);
    let mut o: Options<f64, 3> = Options { operators: pick_ops::<3>(&ids[..5]), loss: mae::<f64>(), output_style: OutputStyle::Plain, ..Default::default() };
    l.apply(&mut o);
    macro_rules! scramble { ($($f:ident $t:ident $d:tt),*) => { $( o.$f = <$t as GenVal>::gen(s); )* } }
    shim_fields!(scramble);
    let keep = o.clone();
    want.apply_to(&mut o);
    macro_rules! cmp3 { ($($f:ident $t:ident $d:tt),*) => { $( ensure!(o.$f == want.$f, "{} is {:?} after applying {:?}", stringify!($f), o.$f, want.$f); )* } }
    shim_fields!(cmp3);
    macro_rules! wcmp3 { ($($f:ident $d:tt),*) => { $( ensure!(o.mutation_weights.$f == want.mutation_weights.$f, "weight {} not applied", stringify!($f)); )* } }
    weight_fields!(wcmp3);
    ensure!(o.operators.ops_by_arity == keep.operators.ops_by_arity, "applying changed the operators");
    ensure!(o.output_style == keep.output_style, "applying changed the output style");
    ensure!(o.variable_complexities == keep.variable_complexities, "applying changed the variable complexities");
    ensure!(o.operator_complexity_overrides == keep.operator_complexity_overrides, "applying changed the operator complexities");
    ensure!(o.op_constraints.limits == keep.op_constraints.limits, "applying changed the argument limits");
    ensure!(o.nested_constraints.limits == keep.nested_constraints.limits, "applying changed the nesting limits");
    let (a, b) = (o.loss.loss(&[3.0], &[0.0], None), o.loss.loss(&[-5.0], &[0.0], None));
    ensure!(a == 3.0 && b == 5.0, "applying changed the loss");
    Ok(())
}

trait Close {
    fn close(a: Self, b: Self, text: bool) -> bool;
}
macro_rules! close_int { ($($t:ty),*) => { $(impl Close for $t { fn close(a: $t, b: $t, _: bool) -> bool { a == b } })* } }
close_int!(u64, usize, u16, bool);
impl Close for f64 {
    fn close(a: f64, b: f64, text: bool) -> bool {
        a == b || (text && (a - b).abs() <= 4.0 * f64::EPSILON * b.abs() + 1e-320)
    }
}
impl Close for f32 {
    fn close(a: f32, b: f32, text: bool) -> bool {
        a == b || (text && (a - b).abs() <= 2.0 * f32::EPSILON * b.abs() + 1e-44)
    }
}
fn close<T: Close>(a: T, b: T, text: bool) -> bool {
    T::close(a, b, text)
}

pub fn p_s15() -> Property {
    Property {
        id: "S15",
        rule: "an options object with at least one field present, with generated values over each field's range",
        assumptions: &["the JSON text reader's own last-digit rounding of floats (serde_json without float_roundtrip) is not attributed to the options"],
        subs: vec![Sub { name: "wire", quick: 800_000, thorough: 16_000_000, tape: 420, shards: 0, f: s15 }],
    }
}

// ---------------------------------------------------------------- S16 (population part)

pub fn s16_pop(s: &mut Source, c: &mut Case) -> PropResult {
    let n = s.range(1, 12);
    let births: Vec<u64> = (0..n)
        .map(|_| match s.below(4) {
            0 => s.below(4) as u64,
            1 => s.u64(),
            2 => *s.pick(&[0, u64::MAX, u64::MAX - 1, 1 << 32]),
            _ => s.below(40) as u64,
        })
        .collect();
    let two = n >= 2 && s.bool();
    let mk = |i: u64, b: u64| -> M {
        let mut m: M = member(i, b, mk_expr::<B64, 3>(&Tree::Var(0), &[]), 1);
        m.loss = i as f64;
        m
    };
    let mut pop: Population<f64, B64, 3> = Population::new(births.iter().enumerate().map(|(i, b)| mk(i as u64, *b)).collect());
    ensure!(pop.len() == n && !pop.is_empty(), "population size");
    let mut cur: Vec<(u64, u64)> = births.iter().enumerate().map(|(i, b)| (i as u64, *b)).collect();
    let rounds = s.range(1, 6);
    let mut next = 100;
    c.key(&(&births, two, rounds));
    c.nontrivial_if(n > 1);
    c.class_if(births.len() != births.iter().collect::<std::collections::HashSet<_>>().len(), "ties");
    c.describe(|| format!("births {births:?}, two at a time: {two}, {rounds} rounds"));
    for _ in 0..rounds {
        let mut sorted: Vec<u64> = cur.iter().map(|x| x.1).collect();
        sorted.sort();
        let nb = if s.bool() { s.below(50) as u64 } else { sorted[s.below(n)] };
        if two {
            let (i, j) = pop.two_oldest_indices();
            ensure!(i != j, "the two oldest are the same member {i}");
            let mut got = vec![pop.members[i].birth, pop.members[j].birth];
            got.sort();
            ensure!(got == sorted[..2], "two oldest have births {got:?}, population {sorted:?}");
            pop.replace_two_oldest(mk(next, nb), mk(next + 1, nb.saturating_add(1)));
        } else {
            ensure!(pop.members[pop.oldest_index()].birth == sorted[0], "oldest_index");
            pop.replace_oldest(mk(next, nb));
        }
        let k = if two { 2 } else { 1 };
        ensure!(pop.len() == n, "population size changed to {}", pop.len());
        let mut gone = vec![];
        let mut new = vec![];
        for (slot, old) in cur.iter_mut().enumerate() {
            let m = &pop.members[slot];
            if m.id.0 != old.0 {
                gone.push(old.1);
                new.push(m.id.0);
                *old = (m.id.0, m.birth);
            } else {
                ensure!(m.birth == old.1 && m.loss == old.0 as f64, "member {slot} was altered");
            }
        }
        gone.sort();
        new.sort();
        ensure!(gone == sorted[..k], "removed births {gone:?}, the oldest are {:?}", &sorted[..k]);
        ensure!(new == (next..next + k as u64).collect::<Vec<_>>(), "inserted {new:?}");
        next += 2;
    }
    Ok(())
}

#[allow(dead_code)]
fn unused() {
    let _ = guarded(|| ());
}
