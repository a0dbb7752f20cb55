//! S12, S13, S14, S16: whole searches.
use crate::evolve::*;
use crate::gen::*;
use crate::ops::{Ints, Kit24, Kit5, Num, TestOps};
use crate::tree::{self, Tree};
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{GradContext, OperatorSet};
use std::collections::HashMap;
use std::marker::PhantomData;
use symbolic_regression::*;
use vcommon::{ensure, guarded, Case, PropResult, Property, Source, Sub};

pub struct Conf<O: TestOps, const D: usize>
where
    O::N: Nf,
{
    pub ids: Vec<(u8, u16)>,
    pub nf: usize,
    pub data: Dataset<O::N>,
    pub opts: Options<O::N, D>,
    pub lim: Limits,
    pub kind: LossKind,
    pub txt: String,
}

#[derive(Copy, Clone)]
pub struct Scale {
    pub pops: usize,
    pub size: usize,
    pub iters: usize,
    pub cycles: usize,
    pub rows: usize,
    pub maxsize: usize,
}
const SMALL: Scale = Scale { pops: 4, size: 10, iters: 4, cycles: 6, rows: 3, maxsize: 24 };
/// At large scale: one dimension at a time.
fn scale(s: &mut Source) -> Scale {
    if !vcommon::large() {
        return SMALL;
    }
    match s.below(6) {
        0 => Scale { pops: 40, iters: 2, cycles: 4, ..SMALL },
        1 => Scale { size: 400, pops: 2, iters: 2, cycles: 3, ..SMALL },
        2 => Scale { iters: 60, pops: 2, ..SMALL },
        3 => Scale { cycles: 200, pops: 2, iters: 2, ..SMALL },
        4 => Scale { rows: 1200, ..SMALL },
        _ => Scale { maxsize: 120, cycles: 30, ..SMALL },
    }
}

/// Any valid configuration of a small search.
pub fn gen_conf<O: TestOps, const D: usize>(s: &mut Source, sc: Scale) -> Conf<O, D>
where
    O::N: Nf,
{
    let ids = if s.chance(1, 30) { vec![] } else { gen_ids::<O>(s) };
    let nf = s.range(1, vcommon::up(4, 300));
    let rows = match s.below(4) {
        0 => s.range(1, sc.rows),
        1 | 2 => s.range(2, 12),
        _ => s.range(10, 60),
    };
    let kind = gen_loss_kind(s);
    let xm = *s.pick(&[1, 1, 4, 0, 2]);
    let weighted = s.chance(1, 4);
    let data = gen_dataset::<O::N>(s, nf, rows, xm, weighted);
    let mut o = Options::<O::N, D> { operators: pick_ops::<D>(&ids), loss: make_loss(kind.clone()), ..Default::default() };
    o.output_style = OutputStyle::Plain;
    o.progress = false;
    o.seed = if s.chance(1, 8) { u64::MAX - s.below(6) as u64 } else { s.u64() };
    o.populations = s.range(1, sc.pops);
    o.population_size = if s.chance(1, 12) { 1 } else { s.range(2, sc.size) };
    o.niterations = s.range(0, sc.iters);
    o.ncycles_per_iteration = s.range(0, sc.cycles);
    o.maxsize = match s.below(5) {
        0 => s.range(1, 4),
        _ => s.range(3, sc.maxsize),
    };
    let lim = if s.chance(2, 5) { gen_limits(s, &ids, nf, false) } else { Limits { cx: Cx { consts: 1, vars: 1, ..Default::default() }, maxdepth: 30, ..Default::default() } };
    lim.apply(&mut o);
    o.warmup_maxsize_by = if s.chance(1, 3) { *s.pick(&[0.1, 0.3, 0.5, 0.9, 1.0, 2.0]) } else { 0.0 };
    o.parsimony = *s.pick(&[0.0, 0.0, 0.01, 1.0]);
    o.adaptive_parsimony_scaling = *s.pick(&[1040.0, 20.0, 0.0]);
    o.crossover_probability = *s.pick(&[0.0259, 0.0, 0.5, 1.0]);
    o.perturbation_factor = *s.pick(&[0.129, 0.0, 2.0]);
    o.probability_negate_constant = *s.pick(&[0.00743, 0.5, 1.0]);
    o.tournament_selection_n = *s.pick(&[2, 1, 3, vcommon::up(15, 50)]);
    o.tournament_selection_p = *s.pick(&[0.982, 1.0, 0.5]);
    o.alpha = *s.pick(&[3.17, 0.1]);
    o.optimizer_nrestarts = s.below(3);
    o.optimizer_probability = *s.pick(&[0.14, 0.0, 1.0]);
    o.optimizer_iterations = s.range(1, 6);
    o.optimizer_f_calls_limit = *s.pick(&[10_000, 10, 0]);
    o.fraction_replaced = *s.pick(&[0.00036, 0.0, 0.3]);
    o.fraction_replaced_hof = *s.pick(&[0.0614, 0.0, 0.5]);
    o.topn = *s.pick(&[vcommon::up(12, 60), 0, 1, 3]);
    o.use_frequency = s.chance(2, 3);
    o.use_frequency_in_tournament = s.chance(2, 3);
    o.skip_mutation_failures = s.chance(2, 3);
    o.annealing = s.bool();
    o.should_optimize_constants = s.chance(3, 4);
    o.should_simplify = s.chance(3, 4);
    o.migration = s.chance(2, 3);
    o.hof_migration = s.chance(2, 3);
    o.use_baseline = s.chance(2, 3);
    o.batching = s.chance(1, 3);
    o.batch_size = match s.below(3) {
        0 => rows,
        1 => s.range(1, rows + 4),
        _ => s.range(1, 8),
    };
    if s.bool() {
        let mut w = MutationWeights::default();
        if s.chance(1, 3) {
            // few kinds of change, or none
            w = zero_weights();
            for _ in 0..s.below(4) {
                *weight_of(&mut w, *s.pick(&MS)) = s.uniform(0.01, 2.0);
            }
        } else {
            for m in MS {
                if s.bool() {
                    *weight_of(&mut w, m) = s.uniform(0.0, 2.0);
                }
            }
        }
        o.mutation_weights = w;
    }
    let w = &o.mutation_weights;
    let txt = format!(
        "{} ops, {nf} features, {rows} rows{}, {kind:?}, seed {:#x}, {}x{} members, {} iterations of {} cycles, size {} (warm-up {}), batching {} of {}, crossover {}, migration {}/{} of {}/{}, simplify {} ({}), optimize {} (p {}), annealing {}, frequency {}/{}, skip failures {}, baseline {}, {lim:?}",
        ids.len(),
        if weighted { " weighted" } else { "" },
        o.seed,
        o.populations,
        o.population_size,
        o.niterations,
        o.ncycles_per_iteration,
        o.maxsize,
        o.warmup_maxsize_by,
        o.batching,
        o.batch_size,
        o.crossover_probability,
        o.migration,
        o.hof_migration,
        o.fraction_replaced,
        o.fraction_replaced_hof,
        o.should_simplify,
        w.simplify,
        o.should_optimize_constants,
        o.optimizer_probability,
        o.annealing,
        o.use_frequency,
        o.use_frequency_in_tournament,
        o.skip_mutation_failures,
        o.use_baseline
    );
    Conf { ids, nf, data, opts: o, lim, kind, txt }
}

fn baseline<O: TestOps, const D: usize>(k: &Conf<O, D>) -> Option<f64>
where
    O::N: Nf,
{
    // the loss of always predicting zero, when it is usable
    if !k.opts.use_baseline {
        return None;
    }
    let z = vec![O::N::of(0.0); k.data.n_rows];
    Some(kind_loss::<O::N>(&k.kind, &z, &k.data).0)
}

/// One reported candidate: well-formed, legal (when asked), truly scored. Returns whether it is legal.
fn check_reported<O: TestOps, const D: usize>(m: &PopMember<O::N, O, D>, k: &Conf<O, D>) -> Result<bool, String>
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let t = read::<O, D>(&m.expr, &k.ids, k.nf)?;
    let txt = || tree::show_o::<O>(&t, &m.expr.consts);
    ensure!(m.complexity == k.lim.cx.of(&t), "{} recorded with complexity {}, it has {}", txt(), m.complexity, k.lim.cx.of(&t));
    // the loss is that of the expression on the full data: bit for bit by a fresh evaluation, and
    // within rounding by the reference
    let mut again = member::<O::N, O, D>(0, 0, m.expr.clone(), k.nf);
    let mut ev = Evaluator::<O::N, D>::new(k.data.n_rows);
    again.evaluate(&TaggedDataset::new(&k.data, None), &k.opts, &mut ev);
    ensure!(again.loss.same(m.loss), "{} is reported with loss {:?}; on the full data its loss is {:?}", txt(), m.loss, again.loss);
    let base = baseline(k);
    let ml = Num::f(m.loss);
    if ml.is_finite() {
        // the baseline itself is only known within rounding
        let d = match base {
            Some(b) if b.is_finite() => b.max(0.01),
            _ => 0.01,
        };
        let c = ml / d + k.opts.parsimony * m.complexity as f64;
        let tol = (64.0 + 8.0 * k.data.n_rows as f64) * O::N::EPS * c.abs() + 1e-40;
        let max = if O::N::BITS == 32 { f32::MAX as f64 } else { f64::MAX };
        if c < max / 4.0 && base.is_none_or(|b| b.is_finite() && b < max / 1e6) {
            ensure!((Num::f(m.cost) - c).abs() <= tol, "{} is reported with cost {:?}; loss {ml}, baseline {base:?}, complexity {} give {c}", txt(), m.cost, m.complexity);
        }
    } else {
        ensure!(ml == f64::INFINITY && Num::f(m.cost) == f64::INFINITY, "{} is reported with loss {ml} cost {:?}", txt(), m.cost);
    }
    let mut with_ref = m.clone();
    with_ref.cost = again.cost;
    true_scores::<O, D>(&with_ref, &t, &k.data, &k.kind, &k.lim.cx, &k.opts, None)?;
    Ok(k.lim.ok(&t, k.opts.maxsize).is_ok())
}

fn check_hall<O: TestOps, const D: usize>(hall: &HallOfFame<O::N, O, D>, best: &PopMember<O::N, O, D>, k: &Conf<O, D>) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let mut any_legal = false;
    for (cx, m) in hall.best_by_complexity.iter().enumerate() {
        let Some(m) = m else { continue };
        ensure!(m.complexity == cx, "an entry of complexity {} is filed under {cx}", m.complexity);
        let legal = check_reported::<O, D>(m, k).map_err(|e| format!("hall of fame, complexity {cx}: {e}"))?;
        ensure!(legal, "hall of fame, complexity {cx}: the entry {:?} breaks the limits", tree::parse(&m.expr.nodes).map(|t| tree::show_o::<O>(&t, &m.expr.consts)));
        any_legal = true;
        ensure!(!(m.loss < best.loss), "the best candidate has loss {:?}, the entry of complexity {cx} has {:?}", best.loss, m.loss);
    }
    let legal = check_reported::<O, D>(best, k).map_err(|e| format!("best candidate: {e}"))?;
    ensure!(legal || !any_legal, "the best candidate breaks the limits though legal candidates are reported");
    for m in hall.pareto_front() {
        check_reported::<O, D>(&m, k).map_err(|e| format!("Pareto front: {e}"))?;
    }
    Ok(())
}

type Sig = Vec<(usize, u64, u64, String)>;
/// Everything visible of a result, bit for bit.
fn signature<O: TestOps, const D: usize>(hall: &HallOfFame<O::N, O, D>, best: &PopMember<O::N, O, D>) -> Sig
where
    O::N: Nf,
{
    let one = |m: &PopMember<O::N, O, D>| {
        (
            m.complexity,
            Num::f(m.loss).to_bits(),
            Num::f(m.cost).to_bits(),
            format!("{:?} {:?} id {:?} parent {:?} birth {}", m.expr.nodes, m.expr.consts.iter().map(|v| Num::f(*v).to_bits()).collect::<Vec<_>>(), m.id, m.parent, m.birth),
        )
    };
    let mut v: Sig = hall.members().map(one).collect();
    v.push(one(best));
    v
}

fn classes<O: TestOps, const D: usize>(k: &Conf<O, D>, c: &mut Case)
where
    O::N: Nf,
{
    let o = &k.opts;
    c.class_if(o.batching, "batching");
    c.class_if(o.batching && o.batch_size != k.data.n_rows, "batch size differs from row count");
    c.class_if(o.warmup_maxsize_by > 0.0, "warm-up");
    c.class_if(k.data.weights.is_some(), "weighted");
    c.class_if(!k.lim.args.is_empty() || !k.lim.nested.is_empty(), "operator limits");
    c.class_if(!k.lim.cx.is_default(), "custom complexities");
    c.class_if(o.niterations * o.populations > 1, "several cycles");
    c.class_if(o.population_size == 1, "population of one");
    c.class_if(k.ids.is_empty(), "no operators");
}

/// Gives the process-wide pool this many threads (the first call decides; a check uses one number).
fn global_pool(threads: usize) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = rayon::ThreadPoolBuilder::new().num_threads(threads).build_global();
    });
}

// ---------------------------------------------------------------- S12

fn s12_engine<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let sc = scale(s);
    let k = gen_conf::<O, D>(s, sc);
    c.key(&k.txt);
    c.describe(|| k.txt.clone());
    classes(&k, c);
    c.nontrivial_if(k.opts.niterations > 0 && k.opts.ncycles_per_iteration > 0);
    let r = SearchEngine::<O::N, O, D>::new(k.data.clone(), k.opts.clone()).run_to_completion();
    check_hall::<O, D>(&r.hall_of_fame, &r.best, &k)
}

fn s12_threads<O: TestOps + Send + Sync, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let threads = s.range(1, vcommon::up(5, 12));
    let mut sc = scale(s);
    sc.pops = sc.pops.max(6);
    let mut k = gen_conf::<O, D>(s, sc);
    k.opts.progress = s.chance(1, 8);
    c.key(&(&k.txt, threads));
    c.describe(|| format!("{threads} threads, {}", k.txt));
    classes(&k, c);
    c.nontrivial_if(k.opts.niterations > 0 && threads > 1 && k.opts.populations > 1);
    let r = if s.chance(2, 3) {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads + 1).build().map_err(|e| format!("harness: {e}"))?;
        pool.install(|| equation_search::<O::N, O, D>(&k.data, &k.opts))
    } else {
        c.class("called outside the pool");
        global_pool(2);
        equation_search::<O::N, O, D>(&k.data, &k.opts)
    };
    check_hall::<O, D>(&r.hall_of_fame, &r.best, &k)
}

fn s12_large_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(3) {
        0 => s12_engine::<BuiltinOpsF64, 3>(s, c),
        1 => s12_engine::<Ints, 3>(s, c),
        _ => s12_threads::<Kit24, 4>(s, c),
    }
}
fn s12_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s12_large_case)
}

pub fn p_s12() -> Property {
    Property {
        id: "S12",
        rule: "a search with at least one evolution cycle (engine) / several workers and populations (threads)",
        assumptions: &[
            "valid configuration: at least one population, member, feature and row, tournament of at least one",
            "thread schedules are those the OS produces for 1 to 5 workers",
            "losses are compared bit for bit with a fresh evaluation and within a rounding bound with the reference interpreter",
        ],
        subs: vec![
            Sub { name: "engine-builtin", quick: 48_000, thorough: 960_000, tape: 700, shards: 0, f: s12_engine::<BuiltinOpsF64, 3> },
            Sub { name: "engine-f32", quick: 32_000, thorough: 640_000, tape: 700, shards: 0, f: s12_engine::<BuiltinOpsF32, 3> },
            Sub { name: "engine-kit5", quick: 32_000, thorough: 640_000, tape: 700, shards: 0, f: s12_engine::<Kit5, 5> },
            Sub { name: "engine-kit24", quick: 24_000, thorough: 480_000, tape: 700, shards: 0, f: s12_engine::<Kit24, 4> },
            Sub { name: "engine-ints", quick: 24_000, thorough: 480_000, tape: 700, shards: 0, f: s12_engine::<Ints, 3> },
            Sub { name: "threads-builtin", quick: 12_000, thorough: 240_000, tape: 700, shards: 4, f: s12_threads::<BuiltinOpsF64, 3> },
            Sub { name: "threads-kit24", quick: 8_000, thorough: 160_000, tape: 700, shards: 4, f: s12_threads::<Kit24, 4> },
            Sub { name: "large", quick: 5_000, thorough: 150_000, tape: 120, shards: 4, f: s12_large },
        ],
    }
}

// ---------------------------------------------------------------- S13

fn s13<O: TestOps + Send + Sync, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let mode = s.below(4);
    let sc = scale(s);
    let k = gen_conf::<O, D>(s, sc);
    let total = k.opts.niterations * k.opts.populations;
    let r = SearchEngine::<O::N, O, D>::new(k.data.clone(), k.opts.clone()).run_to_completion();
    let want = signature::<O, D>(&r.hall_of_fame, &r.best);
    c.key(&(&k.txt, mode));
    classes(&k, c);
    c.nontrivial_if(total > 0);
    let (got, what) = match mode {
        0 => {
            c.class("twice");
            let r = SearchEngine::<O::N, O, D>::new(k.data.clone(), k.opts.clone()).run_to_completion();
            (signature::<O, D>(&r.hall_of_fame, &r.best), "a second identical run".to_string())
        }
        1 => {
            c.class("stepped");
            let mut e = SearchEngine::<O::N, O, D>::new(k.data.clone(), k.opts.clone());
            let mut pat = vec![];
            let mut done = 0;
            while !e.is_finished() && pat.len() < 200 {
                let n = match s.below(4) {
                    0 => 0,
                    1 | 2 => 1,
                    _ => s.range(1, total + 3),
                };
                pat.push(n);
                done += e.step(n);
                // observing must not matter
                if s.bool() {
                    let _ = (e.hall_of_fame().pareto_front().len(), e.best().clone().loss, e.total_evals(), e.cycles_completed());
                }
            }
            let by_run = s.bool();
            let sig = if by_run {
                let r = e.run_to_completion();
                signature::<O, D>(&r.hall_of_fame, &r.best)
            } else {
                while !e.is_finished() {
                    done += e.step(1);
                }
                signature::<O, D>(e.hall_of_fame(), e.best())
            };
            ensure!(done <= total, "stepped {done} cycles of {total}");
            (sig, format!("stepping by {pat:?}"))
        }
        2 => {
            let r = if s.bool() {
                c.class("one worker, called inside its pool");
                let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().map_err(|e| format!("harness: {e}"))?;
                pool.install(|| equation_search::<O::N, O, D>(&k.data, &k.opts))
            } else {
                c.class("one worker, called outside the pool");
                global_pool(1);
                equation_search::<O::N, O, D>(&k.data, &k.opts)
            };
            (signature::<O, D>(&r.hall_of_fame, &r.best), "the one-worker parallel search".to_string())
        }
        _ => {
            c.class("display");
            let mut o = k.opts.clone();
            o.progress = true;
            o.output_style = *s.pick(&[OutputStyle::Plain, OutputStyle::Ansi, OutputStyle::Auto]);
            let r = SearchEngine::<O::N, O, D>::new(k.data.clone(), o.clone()).run_to_completion();
            (signature::<O, D>(&r.hall_of_fame, &r.best), format!("progress shown with {:?}", o.output_style))
        }
    };
    c.describe(|| format!("{what}: {}", k.txt));
    if got != want {
        let i = (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)).unwrap();
        return Err(format!("{what} gave a different result; first difference at entry {i}: {:?} instead of {:?}", got.get(i), want.get(i)));
    }
    Ok(())
}

fn s13_large_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(2) {
        0 => s13::<BuiltinOpsF64, 3>(s, c),
        _ => s13::<Kit5, 5>(s, c),
    }
}
fn s13_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s13_large_case)
}

pub fn p_s13() -> Property {
    Property {
        id: "S13",
        rule: "a search of at least one cycle, run a second way",
        assumptions: &["results are compared bit for bit, including identifiers, parents and births", "one worker: a two-thread pool from inside, whose other thread orchestrates"],
        subs: vec![
            Sub { name: "builtin", quick: 40_000, thorough: 800_000, tape: 900, shards: 0, f: s13::<BuiltinOpsF64, 3> },
            Sub { name: "builtin-f32", quick: 24_000, thorough: 480_000, tape: 900, shards: 0, f: s13::<BuiltinOpsF32, 3> },
            Sub { name: "kit5", quick: 24_000, thorough: 480_000, tape: 900, shards: 0, f: s13::<Kit5, 5> },
            Sub { name: "large", quick: 5_000, thorough: 150_000, tape: 120, shards: 4, f: s13_large },
        ],
    }
}

// ---------------------------------------------------------------- S14

fn s14<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let sc = scale(s);
    let mut k = gen_conf::<O, D>(s, sc);
    if s.bool() {
        k.opts.warmup_maxsize_by = *s.pick(&[0.2, 0.5, 1.0]);
        k.opts.maxsize = s.range(3, sc.maxsize);
        k.opts.niterations = s.range(1, sc.iters + 2);
    }
    let o = &k.opts;
    let total = o.niterations * o.populations;
    c.key(&(&k.txt, o.maxsize, o.niterations, o.warmup_maxsize_by.to_bits()));
    c.describe(|| format!("maxsize {} warm-up {} iterations {}: {}", o.maxsize, o.warmup_maxsize_by, o.niterations, k.txt));
    classes(&k, c);
    c.nontrivial_if(total > 1);
    let mut e = SearchEngine::<O::N, O, D>::new(k.data.clone(), o.clone());
    ensure!(e.total_cycles() == total && e.cycles_completed() == 0, "starts with {}/{} cycles, expected 0/{total}", e.cycles_completed(), e.total_cycles());
    ensure!(e.is_finished() == (total == 0), "finished before the first cycle");
    ensure!(e.total_evals() == (o.populations * o.population_size) as u64, "{} initial evaluations, {} candidates", e.total_evals(), o.populations * o.population_size);
    let snap = |e: &SearchEngine<O::N, O, D>| -> Vec<Option<PopMember<O::N, O, D>>> { e.hall_of_fame().best_by_complexity.clone() };
    let mut hall = snap(&e);
    let mut best = e.best().clone();
    let mut evals = e.total_evals();
    let mut done = 0usize;
    let mut last_limit = 0usize;
    for _ in 0..total + 6 {
        let n = match s.below(6) {
            0 => 0,
            1 => s.range(2, 5),
            2 => total + 5,
            _ => 1,
        };
        let n = if total > 1 && n > total && s.bool() { 1 } else { n };
        let got = e.step(n);
        ensure!(got == n.min(total - done), "step({n}) reported {got} cycles with {} left", total - done);
        done += got;
        ensure!(e.cycles_completed() == done, "{} cycles completed, {done} reported", e.cycles_completed());
        ensure!(e.is_finished() == (done == total), "finished {} after {done} of {total}", e.is_finished());
        ensure!(e.total_cycles() == total, "total cycles changed");
        ensure!(e.total_evals() >= evals && (got > 0 || e.total_evals() == evals), "evaluations went from {evals} to {} in {got} cycles", e.total_evals());
        evals = e.total_evals();
        let now = snap(&e);
        ensure!(now.len() == hall.len(), "hall size changed");
        // size limit of the latest cycle of this step: rises linearly from 3 over the warm-up
        let limit = |elapsed: usize| -> usize {
            let f = elapsed as f64 / total as f64;
            let w = o.warmup_maxsize_by as f64;
            let start = o.maxsize.min(3);
            if w > 0.0 && f <= w * (1.0 + 1e-6) {
                start + ((o.maxsize - start) as f64 * f / w + 1e-4).floor() as usize
            } else {
                o.maxsize
            }
        };
        let lim_now = if done > 0 { limit(done - 1).min(o.maxsize) } else { o.maxsize };
        for cx in 0..now.len() {
            match (&hall[cx], &now[cx]) {
                (Some(_), None) => return Err(format!("the entry of complexity {cx} disappeared")),
                (Some(a), Some(b)) => {
                    ensure!(b.cost <= a.cost, "the cost of the entry of complexity {cx} went from {:?} to {:?}", a.cost, b.cost);
                    if got == 0 {
                        ensure!(a.id == b.id && same_expr::<O, D>(&a.expr, &b.expr), "an entry changed without a cycle");
                    }
                    if !same_expr::<O, D>(&a.expr, &b.expr) && cx > lim_now {
                        return Err(format!("an entry of complexity {cx} replaced one during warm-up, limit {lim_now}"));
                    }
                }
                (None, Some(_)) => {
                    ensure!(got > 0, "an entry appeared without a cycle");
                    ensure!(cx <= lim_now, "an entry of complexity {cx} entered by cycle {} of {total}, whose limit is {lim_now} (maximum {}, warm-up {})", done - 1, o.maxsize, o.warmup_maxsize_by);
                }
                _ => {}
            }
        }
        if done > 0 {
            c.class_if(lim_now < o.maxsize, "limited cycle");
            c.class_if(lim_now > last_limit && last_limit > 0, "limit rose");
            last_limit = lim_now;
        }
        let legal = tree::parse(&best.expr.nodes).map(|t| k.lim.ok(&t, o.maxsize).is_ok()).unwrap_or(false);
        if legal {
            ensure!(!(e.best().loss > best.loss), "best loss went from {:?} to {:?}", best.loss, e.best().loss);
        }
        if got == 0 {
            ensure!(same_expr::<O, D>(&e.best().expr, &best.expr) && e.best().loss.same(best.loss), "best changed without a cycle");
        }
        best = e.best().clone();
        hall = now;
    }
    Ok(())
}

/// The size limit of each cycle, through the function the search uses.
fn s14_limit(s: &mut Source, c: &mut Case) -> PropResult {
    let o = Options::<f64, 3> { maxsize: s.range(1, 60), warmup_maxsize_by: if s.bool() { s.uniform(0.0, 1.2) as f32 } else { *s.pick(&[0.0, 0.25, 0.5, 1.0, 2.0]) }, ..Default::default() };
    let total = if s.bool() { s.range(1, 40) } else { s.range(1, 5000) };
    c.key(&(o.maxsize, o.warmup_maxsize_by.to_bits(), total));
    c.nontrivial_if(o.warmup_maxsize_by > 0.0 && o.maxsize > 3);
    c.describe(|| format!("maxsize {} warm-up {} over {total} cycles", o.maxsize, o.warmup_maxsize_by));
    let start = o.maxsize.min(3) as f64;
    let mut last = 0;
    let w = o.warmup_maxsize_by as f64;
    for step in 0..=total.min(60) {
        let elapsed = step * total / total.min(60);
        let got = get_cur_maxsize(&o, total, total - elapsed);
        let f = elapsed as f64 / total as f64;
        ensure!(got >= last, "the limit fell from {last} to {got} at cycle {elapsed}");
        ensure!(got <= o.maxsize && got >= start as usize, "limit {got} at cycle {elapsed}");
        last = got;
        if w == 0.0 || f > w * (1.0 + 1e-5) + 1e-9 {
            ensure!(got == o.maxsize, "limit {got} after warm-up, at cycle {elapsed}");
        } else if f < w * (1.0 - 1e-5) {
            let exact = start + (o.maxsize as f64 - start) * f / w;
            let (lo, hi) = ((exact - 1e-4).floor(), (exact + 1e-4).floor());
            ensure!(got as f64 >= lo && got as f64 <= hi, "limit {got} at cycle {elapsed}, expected {exact}");
        }
    }
    Ok(())
}

fn s14_large_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(2) {
        0 => s14::<BuiltinOpsF64, 3>(s, c),
        _ => s14::<Kit5, 5>(s, c),
    }
}
fn s14_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s14_large_case)
}

pub fn p_s14() -> Property {
    Property {
        id: "S14",
        rule: "a search of more than one cycle, stepped in generated increments",
        assumptions: &["the size limit of a cycle rises linearly from 3 (or the maximum, if smaller) to the maximum over the warm-up fraction of the cycles; initial candidates are limited by the maximum only"],
        subs: vec![
            Sub { name: "builtin", quick: 40_000, thorough: 800_000, tape: 900, shards: 0, f: s14::<BuiltinOpsF64, 3> },
            Sub { name: "kit5", quick: 32_000, thorough: 640_000, tape: 900, shards: 0, f: s14::<Kit5, 5> },
            Sub { name: "kit24-f32", quick: 32_000, thorough: 640_000, tape: 900, shards: 0, f: s14::<Kit24, 4> },
            Sub { name: "warm-up", quick: 160_000, thorough: 3_200_000, tape: 20, shards: 0, f: s14_limit },
            Sub { name: "large", quick: 5_000, thorough: 150_000, tape: 120, shards: 0, f: s14_large },
        ],
    }
}

// ---------------------------------------------------------------- S16

fn s16_engine<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let sc = scale(s);
    let k = gen_conf::<O, D>(s, sc);
    s16_run(k, c)
}

fn s16_run<O: TestOps, const D: usize>(k: Conf<O, D>, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let total = k.opts.niterations * k.opts.populations;
    c.key(&k.txt);
    c.describe(|| k.txt.clone());
    classes(&k, c);
    c.nontrivial_if(total > 0);
    let mut e = SearchEngine::<O::N, O, D>::new(k.data.clone(), k.opts.clone());
    let mut seen: HashMap<u64, (Vec<_>, Vec<u64>)> = HashMap::new();
    loop {
        for m in e.populations().flat_map(|p| &p.members).chain(e.hall_of_fame().members()).chain(std::iter::once(e.best())) {
            let sig = (m.expr.nodes.clone(), m.expr.consts.iter().map(|v| Num::f(*v).to_bits()).collect::<Vec<_>>());
            match seen.get(&m.id.0) {
                Some(old) => ensure!(*old == sig, "identifier {:?} was carried by {old:?} and by {sig:?} (cycle {} of {total})", m.id, e.cycles_completed()),
                None => {
                    seen.insert(m.id.0, sig);
                }
            }
            if let Some(p) = m.parent {
                ensure!(p != m.id, "a candidate is its own parent");
            }
        }
        if e.step(1) == 0 {
            break;
        }
    }
    Ok(())
}

/// One population through evolution cycles, optimisation and migration.
fn s16_life<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let sc = scale(s);
    let mut k = gen_conf::<O, D>(s, sc);
    k.opts.batching = false;
    k.opts.population_size = s.range(2, vcommon::up(12, 300));
    // rejected crossovers re-insert their parents (same identifier, same birth); keep them out of the
    // age bookkeeping
    if !k.opts.skip_mutation_failures {
        k.opts.crossover_probability = 0.0;
    }
    let o = &k.opts;
    let n = o.population_size;
    let mut r = rng(s);
    let mut ev = Evaluator::<O::N, D>::new(k.data.n_rows);
    let mut gc = GradContext::<O::N, D>::new(k.data.n_rows);
    let tag = TaggedDataset::new(&k.data, None);
    let (mut id, mut birth) = (*s.pick(&[10u64, u32::MAX as u64 - 5, 1 << 39, 1 << 52]), *s.pick(&[10u64, u32::MAX as u64 - 5, 1 << 53, 1 << 60]));
    let mut members = vec![];
    for _ in 0..n {
        let e = random_expr_append_ops(&mut r, &o.operators, k.nf, 3, o.maxsize);
        let mut m = member::<O::N, O, D>(id, birth, e, k.nf);
        m.evaluate(&tag, o, &mut ev);
        id += 1;
        birth += 1;
        members.push(m);
    }
    // shuffled ages
    for i in (1..n).rev() {
        let j = s.below(i + 1);
        members.swap(i, j);
    }
    let mut pop = Population::new(members);
    let stats = RunningSearchStatistics::new(o.maxsize, 100_000);
    let phases = s.range(1, vcommon::up(6, 14));
    c.key(&(&k.txt, phases));
    c.describe(|| format!("{phases} phases: {}", k.txt));
    c.nontrivial_if(phases > 1);
    let mut named: HashMap<u64, String> = HashMap::new();
    let name = |pop: &Population<O::N, O, D>, named: &mut HashMap<u64, String>, when: &str| -> PropResult {
        for m in &pop.members {
            let sig = format!("{:?} {:?}", m.expr.nodes, m.expr.consts);
            if let Some(old) = named.get(&m.id.0) {
                ensure!(*old == sig, "{when}: identifier {:?} was carried by {old} and now by {sig}", m.id);
            }
            named.insert(m.id.0, sig);
        }
        Ok(())
    };
    name(&pop, &mut named, "initially")?;
    for _ in 0..phases {
        let before: Vec<(u64, u64, String)> = pop.members.iter().map(|m| (m.id.0, m.birth, format!("{:?} {:?} {:?} {:?} {:?} {}", m.expr.nodes, m.expr.consts, m.loss, m.cost, m.parent, m.complexity))).collect();
        let (id0, birth0) = (id, birth);
        match s.below(4) {
            0 => {
                c.class("optimise and simplify");
                let mut ctx = IterationCtx { rng: &mut r, full_dataset: tag, curmaxsize: o.maxsize, stats: &stats, options: o, evaluator: &mut ev, grad_ctx: &mut gc, next_id: &mut id, next_birth: &mut birth, _ops: PhantomData::<O> };
                let evals = optimize_and_simplify_population(&mut pop, &mut ctx, tag);
                ensure!(evals >= 0.0 && pop.len() == n, "population of {} after optimisation", pop.len());
                name(&pop, &mut named, "after optimisation")?;
                for m in &pop.members {
                    let t = read::<O, D>(&m.expr, &k.ids, k.nf)?;
                    true_scores::<O, D>(m, &t, &k.data, &k.kind, &k.lim.cx, o, None).map_err(|e| format!("after optimisation: {e}"))?;
                }
            }
            1 => {
                c.class("migration");
                // migrants from elsewhere, with identifiers of their own
                let nm = s.range(0, 4);
                let mig: Vec<PopMember<O::N, O, D>> = (0..nm)
                    .map(|i| {
                        let (_, _, e) = if k.ids.is_empty() { let t = Tree::Var(0); (t.clone(), vec![], mk_expr::<O, D>(&t, &[])) } else { gen_expr::<O, D>(s, &k.ids, k.nf, 4, 1) };
                        let mut m = member::<O::N, O, D>((1 << 40) + i as u64, s.u64() >> 40, e, k.nf);
                        m.evaluate(&tag, o, &mut ev);
                        m
                    })
                    .collect();
                let frac = *s.pick(&[0.0, 0.2, 1.0, 5.0]);
                migrate_into(&mut pop, &mig, frac, &mut r, &mut id, &mut birth);
                ensure!(pop.len() == n, "population of {} after migration", pop.len());
                let mut fresh = 0;
                for (m, b) in pop.members.iter().zip(&before) {
                    let sig = format!("{:?} {:?} {:?} {:?} {:?} {}", m.expr.nodes, m.expr.consts, m.loss, m.cost, m.parent, m.complexity);
                    if m.id.0 == b.0 {
                        ensure!(m.birth == b.1 && sig == b.2, "migration altered a member it did not replace");
                        continue;
                    }
                    fresh += 1;
                    let Some(src) = mig.iter().find(|x| Some(x.id) == m.parent) else {
                        return Err(format!("after migration a member has parent {:?}, not one of the migrants", m.parent));
                    };
                    ensure!(same_expr::<O, D>(&src.expr, &m.expr) && same_scores::<O, D>(src, m), "a migrant changed on the way");
                    ensure!(m.id.0 >= id0 && m.id.0 < id && m.birth >= birth0 && m.birth < birth, "a migrant has id {:?} birth {}; fresh ones start at {id0} and {birth0}", m.id, m.birth);
                }
                ensure!(fresh as u64 <= id - id0 && (id - id0) as usize <= nm.min(n) && id - id0 == birth - birth0, "{fresh} migrants arrived, identifiers advanced by {}", id - id0);
                ensure!(frac > 0.0 || fresh == 0, "migration of fraction 0 replaced {fresh}");
                name(&pop, &mut named, "after migration")?;
            }
            _ => {
                c.class("evolution cycle");
                let cur = s.range(3.min(o.maxsize), o.maxsize);
                reg_evol_cycle(&mut pop, RegEvolCtx { rng: &mut r, dataset: tag, temperature: 1.0, curmaxsize: cur, stats: &stats, options: o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: PhantomData::<O> });
                ensure!(pop.len() == n, "population of {} after a cycle", pop.len());
                let new = pop.members.iter().filter(|m| m.birth >= birth0).count();
                // the survivors are the youngest of the old, untouched
                let mut ages: Vec<u64> = before.iter().map(|b| b.1).collect();
                ages.sort();
                let mut left: Vec<u64> = pop.members.iter().filter(|m| m.birth < birth0).map(|m| m.birth).collect();
                left.sort();
                ensure!(left == ages[new..], "births {ages:?} before; {new} new members, survivors {left:?}");
                for m in pop.members.iter().filter(|m| m.birth < birth0) {
                    let sig = format!("{:?} {:?} {:?} {:?} {:?} {}", m.expr.nodes, m.expr.consts, m.loss, m.cost, m.parent, m.complexity);
                    ensure!(before.iter().any(|b| b.0 == m.id.0 && b.1 == m.birth && b.2 == sig), "a surviving member was altered");
                }
                let mut fresh: Vec<u64> = pop.members.iter().filter(|m| m.birth >= birth0).map(|m| m.id.0).collect();
                fresh.sort();
                ensure!(fresh.windows(2).all(|w| w[0] != w[1]) && fresh.iter().all(|i| *i >= id0 && *i < id), "new members have identifiers {fresh:?}, expected {id0}..{id}");
                name(&pop, &mut named, "after a cycle")?;
            }
        }
        let mut b: Vec<u64> = pop.members.iter().map(|m| m.birth).collect();
        b.sort();
        ensure!(b.windows(2).all(|w| w[0] != w[1]) || b.iter().all(|x| *x < birth), "births {b:?}");
        ensure!(b.iter().all(|x| *x < birth), "a birth is not below the counter {birth}: {b:?}");
    }
    Ok(())
}

/// Many identifiers are handed out.
fn s16_long(s: &mut Source, c: &mut Case) -> PropResult {
    s.tail();
    let mut k = gen_conf::<BuiltinOpsF64, 3>(s, Scale { pops: 4, size: 80, iters: 4, cycles: 2, rows: 2, maxsize: 12 });
    let o = &mut k.opts;
    o.population_size = s.range(30, 90);
    o.tournament_selection_n = s.range(1, 3);
    o.niterations = s.range(100, 400);
    o.populations = s.range(2, 4);
    o.ncycles_per_iteration = s.range(0, 2);
    o.optimizer_probability = o.optimizer_probability.min(0.1);
    k.txt = format!("{} members, {} iterations of {} cycles in {} populations: {}", o.population_size, o.niterations, o.ncycles_per_iteration, o.populations, k.txt);
    s16_run(k, c)
}

fn s16_large_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(3) {
        0 => s16_engine::<Ints, 3>(s, c),
        1 => s16_life::<BuiltinOpsF64, 3>(s, c),
        _ => s16_life::<Kit5, 5>(s, c),
    }
}
fn s16_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s16_large_case)
}

pub fn p_s16() -> Property {
    Property {
        id: "S16",
        rule: "a population of at least two members / a search of at least one cycle / a life of at least two phases",
        assumptions: &["identifiers are followed over everything a stepped search reports, and over all members of a population driven through its phases"],
        subs: vec![
            Sub { name: "replace", quick: 1_600_000, thorough: 32_000_000, tape: 80, shards: 0, f: crate::unit::s16_pop },
            Sub { name: "engine-builtin", quick: 40_000, thorough: 800_000, tape: 700, shards: 0, f: s16_engine::<BuiltinOpsF64, 3> },
            Sub { name: "engine-ints", quick: 24_000, thorough: 480_000, tape: 700, shards: 0, f: s16_engine::<Ints, 3> },
            Sub { name: "life-builtin", quick: 80_000, thorough: 1_600_000, tape: 700, shards: 0, f: s16_life::<BuiltinOpsF64, 3> },
            Sub { name: "life-ints", quick: 80_000, thorough: 1_600_000, tape: 700, shards: 0, f: s16_life::<Ints, 3> },
            Sub { name: "life-kit5", quick: 64_000, thorough: 1_280_000, tape: 700, shards: 0, f: s16_life::<Kit5, 5> },
            Sub { name: "large", quick: 5_000, thorough: 150_000, tape: 120, shards: 0, f: s16_large },
            Sub { name: "long", quick: 160, thorough: 4_000, tape: 60, shards: 0, f: s16_long },
        ],
    }
}

// ---------------------------------------------------------------- S17

fn s17<O: TestOps, const D: usize>(s: &mut Source, c: &mut Case) -> PropResult
where
    O::N: Nf,
    O: OperatorSet<T = <O as TestOps>::N>,
{
    let sc = scale(s);
    let k = gen_conf::<O, D>(s, sc);
    let o = &k.opts;
    let total = o.niterations * o.populations;
    c.key(&k.txt);
    c.describe(|| k.txt.clone());
    classes(&k, c);
    c.nontrivial_if(total > 0);
    let quiet = |on: bool, f: f64| !on || f == 0.0;
    let closed = quiet(o.migration, o.fraction_replaced) && quiet(o.hof_migration, o.fraction_replaced_hof);
    c.class_if(closed, "no migration");
    let mut e = SearchEngine::<O::N, O, D>::new(k.data.clone(), o.clone());
    let snap = |e: &SearchEngine<O::N, O, D>| -> Vec<Vec<PopMember<O::N, O, D>>> { e.populations().map(|p| p.members.clone()).collect() };
    let alike = |a: &PopMember<O::N, O, D>, b: &PopMember<O::N, O, D>| {
        a.id == b.id && a.parent == b.parent && a.birth == b.birth && a.complexity == b.complexity && a.loss.same(b.loss) && a.cost.same(b.cost) && same_expr::<O, D>(&a.expr, &b.expr)
    };
    let mut pops = snap(&e);
    ensure!(pops.len() == o.populations, "{} populations, {} asked for", pops.len(), o.populations);
    let mut freq = e.statistics().frequencies.clone();
    ensure!(freq.len() == o.maxsize && freq.iter().all(|f| *f == 1.0), "size frequencies start as {freq:?}");
    let mut turns: Vec<usize> = vec![];
    let start = o.maxsize.min(3);
    let mut ev = Evaluator::<O::N, D>::new(k.data.n_rows);
    for cycle in 0..=total {
        let changed: Vec<usize> = if cycle == 0 {
            (0..pops.len()).collect()
        } else {
            ensure!(e.step(1) == 1, "no cycle {cycle} of {total}");
            let now = snap(&e);
            ensure!(now.len() == pops.len(), "a population is missing after cycle {cycle}");
            let ch: Vec<usize> = (0..now.len()).filter(|i| now[*i].len() != pops[*i].len() || now[*i].iter().zip(&pops[*i]).any(|(a, b)| !alike(a, b))).collect();
            ensure!(ch.len() == 1, "populations {ch:?} changed in cycle {cycle}, one has its turn");
            turns.push(ch[0]);
            let it = turns.len() - (turns.len() - 1) % o.populations - 1;
            ensure!(!turns[it..turns.len() - 1].contains(&ch[0]), "population {} has two turns in one iteration: {:?}", ch[0], &turns[it..]);
            // sizes seen
            let f2 = e.statistics().frequencies.clone();
            ensure!(f2.len() == freq.len(), "size frequencies change their length");
            let mut due = freq.clone();
            for m in &now[ch[0]] {
                if (1..=due.len()).contains(&m.complexity) {
                    due[m.complexity - 1] += 1.0;
                }
            }
            if closed {
                ensure!(f2 == due, "size frequencies after cycle {cycle}: {f2:?}, {due:?} expected");
            } else {
                let more: f64 = f2.iter().sum::<f64>() - freq.iter().sum::<f64>();
                ensure!(f2.iter().zip(&freq).all(|(a, b)| a >= b) && more <= o.population_size as f64, "size frequencies go from {freq:?} to {f2:?} in a cycle of {} members", o.population_size);
            }
            freq = f2;
            pops = now;
            ch
        };
        for i in changed {
            let p = &pops[i];
            ensure!(p.len() == o.population_size, "population {i} has {} members after cycle {cycle}", p.len());
            for (j, m) in p.iter().enumerate() {
                let at = |e: String| format!("population {i}, cycle {cycle}, member {j}: {e}");
                check_reported::<O, D>(m, &k).map_err(at)?;
                // with the evaluation plan it carries
                let mut own = m.clone();
                ev.ensure_n_rows(k.data.n_rows);
                own.evaluate(&TaggedDataset::new(&k.data, None), o, &mut ev);
                ensure!(own.loss.same(m.loss), "{}", at(format!("its plan gives loss {:?}, its expression {:?}", own.loss, m.loss)));
                // (a crossover that fails may put copies of its parents back)
                for q in p[..j].iter().filter(|_| o.skip_mutation_failures || o.crossover_probability == 0.0) {
                    ensure!(q.id != m.id && q.birth != m.birth, "{}", at(format!("shares identifier {:?} or birth {} with another", m.id, m.birth)));
                }
                // nothing is lost
                let t = read::<O, D>(&m.expr, &k.ids, k.nf)?;
                if m.complexity >= 1 && k.lim.ok(&t, if o.warmup_maxsize_by > 0.0 && cycle > 0 { start } else { o.maxsize }).is_ok() {
                    c.class("covered members");
                    let h = e.hall_of_fame().best_by_complexity.get(m.complexity).and_then(|h| h.as_ref());
                    let Some(h) = h else { return Err(at(format!("legal, and the hall of fame has no entry of complexity {}", m.complexity))) };
                    ensure!(h.cost <= m.cost, "{}", at(format!("costs {:?}, less than the hall of fame's {:?}", m.cost, h.cost)));
                    ensure!(!(m.loss < e.best().loss), "{}", at(format!("has loss {:?}, less than the best's {:?}", m.loss, e.best().loss)));
                }
            }
        }
    }
    Ok(())
}

fn s17_large_case(s: &mut Source, c: &mut Case) -> PropResult {
    match s.below(3) {
        0 => s17::<Ints, 3>(s, c),
        1 => s17::<BuiltinOpsF64, 3>(s, c),
        _ => s17::<Kit5, 5>(s, c),
    }
}
fn s17_large(s: &mut Source, c: &mut Case) -> PropResult {
    vcommon::at_large(s, c, s17_large_case)
}

pub fn p_s17() -> Property {
    Property {
        id: "S17",
        rule: "a stepped search of at least one cycle",
        assumptions: &["valid configuration as in S12", "under a size warm-up only members within the smallest limit are required to be covered by the hall of fame"],
        subs: vec![
            Sub { name: "builtin", quick: 48_000, thorough: 480_000, tape: 700, shards: 0, f: s17::<BuiltinOpsF64, 3> },
            Sub { name: "builtin-f32", quick: 32_000, thorough: 320_000, tape: 700, shards: 0, f: s17::<BuiltinOpsF32, 3> },
            Sub { name: "ints", quick: 32_000, thorough: 320_000, tape: 700, shards: 0, f: s17::<Ints, 3> },
            Sub { name: "kit5", quick: 32_000, thorough: 320_000, tape: 700, shards: 0, f: s17::<Kit5, 5> },
            Sub { name: "large", quick: 4_000, thorough: 80_000, tape: 120, shards: 0, f: s17_large },
        ],
    }
}

#[allow(dead_code)]
fn unused() {
    let _ = guarded(|| ());
}
