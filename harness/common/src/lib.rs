//! Runner shared by all harness crates: proptest generates "choice tapes" (vectors of u32), a
//! property decodes a tape into structured inputs, proptest shrinks failing tapes, and the runner
//! writes evidence / replay files and reports violations.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

use proptest::collection::vec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A stream of choices decoded from a tape. Exhausted tapes yield zeros, and all decoders are
/// arranged so that zero is the simplest choice: shrinking the tape shrinks the decoded value.
pub struct Source<'a> {
    tape: &'a [u32],
    pos: usize,
    tail: u64,
}

impl<'a> Source<'a> {
    pub fn new(tape: &'a [u32]) -> Self {
        Self { tape, pos: 0, tail: 0 }
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.tape.len()
    }
    pub fn u32(&mut self) -> u32 {
        let v = match self.tape.get(self.pos) {
            Some(v) => *v,
            None if self.tail != 0 => {
                self.tail = self.tail.wrapping_add(0x9e3779b97f4a7c15);
                let mut z = self.tail;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                ((z ^ (z >> 31)) >> 16) as u32
            }
            None => 0,
        };
        self.pos += 1;
        v
    }
    /// Continue an exhausted tape with pseudo-random words seeded from the tape, instead of zeros
    /// (a zero seed keeps zeros, so that shrinking still ends at the simplest case).
    pub fn tail(&mut self) {
        self.tail = self.u32() as u64;
    }
    pub fn u64(&mut self) -> u64 {
        ((self.u32() as u64) << 32) | self.u32() as u64
    }
    /// Uniform in 0..n, monotone in the tape value.
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.u32() as u64 * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        // zig-zag around the value closest to zero, so that shrinking goes there
        let n = (hi - lo + 1) as usize;
        let k = self.below(n) as i64;
        let z = 0i64.clamp(lo, hi);
        let (left, right) = (z - lo, hi - z);
        let m = left.min(right);
        if k <= 2 * m {
            if k % 2 == 1 {
                z + (k + 1) / 2
            } else {
                z - k / 2
            }
        } else if right > left {
            z + (k - m)
        } else {
            z - (k - m)
        }
    }
    /// True with probability num/den; zero tape means false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        let k = self.below(den as usize) as u32;
        k >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut k = self.below(tot as usize) as u32;
        for (i, &wi) in w.iter().enumerate() {
            if k < wi {
                return i;
            }
            k -= wi;
        }
        unreachable!()
    }
    /// Uniform in [0,1).
    pub fn unit(&mut self) -> f64 {
        (self.u32() as f64) / 4294967296.0
    }
    pub fn uniform(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * ((self.u32() as f64 + (self.u32() as f64) / 4294967296.0) / 4294967296.0)
    }
    /// A "tame" finite number: small integers, dyadics, or uniform reals.
    pub fn tame(&mut self, mag: f64) -> f64 {
        match self.below(4) {
            0 => self.int(-4, 4) as f64,
            1 => self.int(-40, 40) as f64 / 8.0,
            _ => self.uniform(-mag, mag),
        }
    }
    /// A finite number over the whole scale, including special ones.
    pub fn wild(&mut self) -> f64 {
        match self.below(8) {
            0 | 1 => self.tame(3.0),
            2 => *self.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 1e-300, -1e-300, 1e300, -1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 710.0, -710.0, 1e-8, 88.0, 1e38]),
            3 => {
                let e = self.int(-60, 60) as f64;
                self.uniform(-1.0, 1.0) * e.exp2()
            }
            4 => {
                let e = self.int(-1000, 1000) as f64;
                self.uniform(-1.0, 1.0) * e.exp2()
            }
            _ => self.uniform(-10.0, 10.0),
        }
    }
}

thread_local! {
    static LARGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Is a large-scale case being generated?
pub fn large() -> bool {
    LARGE.with(|l| l.get())
}
/// A bound for the ordinary cases and one for the large-scale ones.
pub fn up<T>(normal: T, big: T) -> T {
    if large() {
        big
    } else {
        normal
    }
}
/// Run a case function at large scale: its bounds are the large ones, and its bulk comes from the tail.
pub fn at_large(s: &mut Source, c: &mut Case, f: fn(&mut Source, &mut Case) -> PropResult) -> PropResult {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            LARGE.with(|l| l.set(false));
        }
    }
    let _r = Reset;
    s.tail();
    LARGE.with(|l| l.set(true));
    f(s, c)
}

/// Per-case recorder.
#[derive(Default)]
pub struct Case {
    nontrivial: bool,
    discarded: bool,
    classes: Vec<&'static str>,
    desc: Option<String>,
    want_desc: bool,
    hash: u64,
}

impl Case {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true;
        }
    }
    /// The decoded case fell outside the property's domain (counted, never hidden).
    pub fn discard(&mut self) {
        self.discarded = true;
    }
    pub fn class(&mut self, name: &'static str) {
        self.classes.push(name);
    }
    pub fn class_if(&mut self, b: bool, name: &'static str) {
        if b {
            self.classes.push(name);
        }
    }
    /// Human-readable rendition of the decoded input (evaluated only when it will be shown).
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc = Some(f());
        }
    }
    pub fn describe_more(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            match &mut self.desc {
                Some(d) => {
                    d.push_str(" | ");
                    d.push_str(&s);
                }
                None => self.desc = Some(s),
            }
        }
    }
    /// Distinctness key: feed the decoded structure (not the raw tape).
    pub fn key(&mut self, k: &impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash.hash(&mut h);
        k.hash(&mut h);
        self.hash = h.finish();
    }
}

pub type PropResult = Result<(), String>;

#[derive(Default, Clone)]
struct Stats {
    evals: u64,
    discarded: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.discarded += o.discarded;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub tape: usize,
    /// 0 = one shard per core
    pub shards: usize,
    pub f: fn(&mut Source, &mut Case) -> PropResult,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}

fn install_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_case = IN_CASE.with(|c| *c.borrow());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if in_case {
            PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
        } else {
            prev(info);
        }
    }));
}

/// Run a closure that may panic; Err carries the panic message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = IN_CASE.with(|c| std::mem::replace(&mut *c.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| *c.borrow_mut() = was);
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".into()))
}

fn run_case(f: fn(&mut Source, &mut Case) -> PropResult, tape: &[u32], want_desc: bool) -> (PropResult, Case) {
    let mut case = Case { want_desc, ..Default::default() };
    let r = guarded(|| {
        let mut src = Source::new(tape);
        f(&mut src, &mut case)
    });
    let r = match r {
        Ok(r) => r,
        Err(m) => Err(m),
    };
    (r, case)
}

fn seed_bytes(seed: u64, id: &str, sub: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    // SplitMix64 over an FNV hash of the identity
    let mut h: u64 = 0xcbf29ce484222325;
    for b in id.bytes().chain([0]).chain(sub.bytes()).chain([0]).chain(seed.to_le_bytes()).chain((shard as u64).to_le_bytes()) {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    for c in out.chunks_mut(8) {
        h = h.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = h;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

struct Failure {
    sub: &'static str,
    tape: Vec<u32>,
    msg: String,
    desc: String,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// What each worker thread is running, for the watchdog.
static RUNNING: Mutex<Vec<Option<(Instant, &'static str, Vec<u32>)>>> = Mutex::new(Vec::new());

fn write_replay(id: &str, sub: &str, tape: &[u32], desc: &str, msg: &str) -> PathBuf {
    let rdir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&rdir);
    let path = rdir.join(format!("{id}.txt"));
    let tape: Vec<String> = tape.iter().map(|t| t.to_string()).collect();
    std::fs::write(
        &path,
        format!("property {id}\nsub {sub}\ntape {}\n# input: {}\n# failure: {}\n# replay: /verif/check.sh --replay {}\n", tape.join(" "), desc.replace('\n', " "), msg.replace('\n', " "), path.display()),
    )
    .expect("write replay");
    path
}

/// A case normally takes milliseconds; one that runs this long does not terminate.
fn spawn_watchdog(id: &'static str, tier: Tier) {
    let hang: u64 = std::env::var("VERIF_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(200);
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let stuck = RUNNING.lock().unwrap().iter().flatten().find(|r| r.0.elapsed().as_secs() > hang).cloned();
        if let Some((_, sub, tape)) = stuck {
            let msg = format!("the case did not terminate within {hang} s");
            let path = write_replay(id, sub, &tape, "", &msg);
            println!("FAILED {id} / {sub}: {msg}");
            println!("VIOLATION property={id} replay={}", path.display());
            std::process::exit(1);
        }
        if tier == Tier::Quick && t0.elapsed().as_secs() > 800 {
            eprintln!("{id}: out of time");
            std::process::exit(2);
        }
    });
}

struct Known {
    property: String,
    pattern: String,
    what: String,
}

/// known_findings.txt: lines `KNOWN <property> <substring of the failure message> :: <what fails>`,
/// and `fixed: property=<id> <commit> <what>` (informational, suppresses nothing).
fn load_known() -> Vec<Known> {
    let p = verif_dir().join("known_findings.txt");
    let Ok(txt) = std::fs::read_to_string(p) else { return vec![] };
    txt.lines()
        .filter_map(|l| {
            let l = l.trim();
            let rest = l.strip_prefix("KNOWN ")?;
            let (prop, rest) = rest.split_once(' ')?;
            let (pat, what) = rest.split_once(" :: ")?;
            Some(Known { property: prop.into(), pattern: pat.into(), what: what.into() })
        })
        .collect()
}

pub fn main_with(props: Vec<Property>) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("replay") => replay(&props, &args[2]),
        Some(id) => match props.iter().find(|p| p.id == id) {
            Some(p) => run_property(p),
            None => {
                eprintln!("unknown property {id}");
                2
            }
        },
        None => {
            eprintln!("usage: BIN <ID> | list | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn replay(props: &[Property], file: &str) -> i32 {
    let txt = std::fs::read_to_string(file).expect("replay file");
    let mut prop = "";
    let mut sub = "";
    let mut tape: Vec<u32> = vec![];
    for l in txt.lines() {
        if let Some(v) = l.strip_prefix("property ") {
            prop = v.trim();
        } else if let Some(v) = l.strip_prefix("sub ") {
            sub = v.trim();
        } else if let Some(v) = l.strip_prefix("tape") {
            tape = v.split_whitespace().map(|t| t.parse().unwrap()).collect();
        }
    }
    let p = props.iter().find(|p| p.id == prop).expect("property");
    let s = p.subs.iter().find(|s| s.name == sub).expect("sub-check");
    let (r, case) = run_case(s.f, &tape, true);
    println!("input: {}", case.desc.unwrap_or_default());
    match r {
        Ok(()) => {
            println!("replay passes");
            0
        }
        Err(m) => {
            println!("replay fails: {m}");
            println!("VIOLATION property={prop} replay={file}");
            1
        }
    }
}

fn run_property(p: &Property) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_SUB").ok();
    let known: Vec<Known> = load_known().into_iter().filter(|k| k.property == p.id).collect();
    let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

    let mut total = Stats::default();
    let mut per_sub: Vec<(String, Stats, f64)> = vec![];
    let mut failures: Vec<Failure> = vec![];

    spawn_watchdog(p.id, tier);
    let soft: u64 = std::env::var("VERIF_SOFT").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 420 } else { u64::MAX });
    for sub in &p.subs {
        if let Some(o) = &only {
            if o != sub.name {
                continue;
            }
        }
        let ts = Instant::now();
        let cases = ((match tier {
            Tier::Quick => sub.quick,
            Tier::Thorough => sub.thorough,
        }) as f64
            * scale)
            .ceil() as u32;
        // The number of shards is fixed (not the core count), so a run is a function of the seed.
        let shards = if sub.shards == 0 { 8 } else { sub.shards }.min(cases.max(1) as usize);
        let results: Vec<(Stats, Option<Failure>)> = std::thread::scope(|sc| {
            let handles: Vec<_> = (0..shards)
                .map(|sh| {
                    let n = cases / shards as u32 + u32::from((sh as u32) < cases % shards as u32);
                    let known = &known;
                    let known_hits = &known_hits;
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(sc, move || run_shard(p.id, sub, seed, sh, n, known, known_hits, t0, soft))
                        .unwrap()
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut st = Stats::default();
        for (s, f) in results {
            st.merge(s);
            if let Some(f) = f {
                failures.push(f);
            }
        }
        per_sub.push((sub.name.to_string(), st.clone(), ts.elapsed().as_secs_f64()));
        total.merge(st);
        if !failures.is_empty() {
            break;
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    // evidence
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"discarded_outside_domain\": {},\n",
        json_str(p.id),
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed,
        total.evals,
        total.nontrivial.len(),
        json_str(p.rule),
        total.discarded
    );
    j.push_str("  \"samples\": [");
    let mut first = true;
    for (n, s, _) in &per_sub {
        for x in s.samples.iter().take(2) {
            if !first {
                j.push_str(", ");
            }
            first = false;
            j.push_str(&json_str(&format!("[{n}] {x}")));
        }
    }
    j.push_str("],\n  \"subchecks\": [");
    for (i, (n, s, w)) in per_sub.iter().enumerate() {
        if i > 0 {
            j.push_str(",");
        }
        let _ = write!(j, "\n   {{\"name\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"discarded\": {}, \"wall_s\": {:.2}, \"classes\": {{", json_str(n), s.evals, s.nontrivial.len(), s.discarded, w);
        for (k, (c, v)) in s.classes.iter().enumerate() {
            if k > 0 {
                j.push_str(", ");
            }
            let _ = write!(j, "{}: {}", json_str(c), v);
        }
        j.push_str("}}");
    }
    j.push_str("],\n  \"known_finding_hits\": {");
    let kh = known_hits.lock().unwrap();
    for (i, (k, v)) in kh.iter().enumerate() {
        if i > 0 {
            j.push_str(", ");
        }
        let _ = write!(j, "{}: {}", json_str(k), v);
    }
    j.push_str("}\n },\n \"assumptions\": [");
    for (i, a) in p.assumptions.iter().enumerate() {
        if i > 0 {
            j.push_str(", ");
        }
        j.push_str(&json_str(a));
    }
    let _ = write!(j, "],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n", wall, failures.len());
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", p.id)), j).expect("write evidence");

    for (n, s, w) in &per_sub {
        println!("{} {}: {} cases, {} distinct non-trivial, {} discarded, {:.1}s {:?}", p.id, n, s.evals, s.nontrivial.len(), s.discarded, w, s.classes);
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    if failures.is_empty() {
        println!("{}: held on everything explored ({} cases, {:.1}s)", p.id, total.evals, wall);
        return 0;
    }
    let f = &failures[0];
    let path = write_replay(p.id, f.sub, &f.tape, &f.desc, &f.msg);
    println!("FAILED {} / {}: {}", p.id, f.sub, f.msg);
    println!("minimal input: {}", f.desc);
    println!("VIOLATION property={} replay={}", p.id, path.display());
    1
}

fn run_shard(id: &str, sub: &Sub, seed: u64, shard: usize, cases: u32, known: &[Known], known_hits: &Mutex<BTreeMap<String, u64>>, t0: Instant, soft: u64) -> (Stats, Option<Failure>) {
    let slot = {
        let mut r = RUNNING.lock().unwrap();
        r.push(None);
        r.len() - 1
    };
    let stats = RefCell::new(Stats::default());
    let failed = RefCell::new(false);
    if cases == 0 {
        return (Stats::default(), None);
    }
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 20_000,
        max_shrink_time: 45_000,
        source_file: None,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, sub.name, shard));
    let mut runner = TestRunner::new_with_rng(config, rng);
    let strat = vec(any::<u32>(), sub.tape / 2..=sub.tape);
    let res = runner.run(&strat, |tape| {
        let shrinking = *failed.borrow();
        if !shrinking && t0.elapsed().as_secs() > soft {
            // an overloaded machine: stop generating, the evidence counts what was run
            return Ok(());
        }
        let want = !shrinking && stats.borrow().samples.len() < 2;
        RUNNING.lock().unwrap()[slot] = Some((Instant::now(), sub.name, tape.clone()));
        let (r, case) = run_case(sub.f, &tape, want);
        RUNNING.lock().unwrap()[slot] = None;
        if !shrinking {
            let mut st = stats.borrow_mut();
            st.evals += 1;
            if case.discarded {
                st.discarded += 1;
            } else {
                for c in &case.classes {
                    *st.classes.entry(c).or_default() += 1;
                }
                if case.nontrivial {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    if case.hash != 0 {
                        case.hash.hash(&mut h);
                    } else {
                        tape.hash(&mut h);
                    }
                    // beyond 4M per shard the count is a lower bound
                    if st.nontrivial.len() < 4_000_000 {
                        st.nontrivial.insert(h.finish());
                    }
                    if want {
                        if let Some(d) = case.desc {
                            let d: String = d.chars().take(600).collect();
                            st.samples.push(d);
                        }
                    }
                }
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(m) => {
                if let Some(k) = known.iter().find(|k| m.contains(&k.pattern)) {
                    *known_hits.lock().unwrap().entry(k.what.clone()).or_default() += 1;
                    return Ok(());
                }
                *failed.borrow_mut() = true;
                Err(TestCaseError::fail(m))
            }
        }
    });
    let failure = match res {
        Ok(()) => None,
        Err(TestError::Fail(reason, tape)) => {
            let (r, case) = run_case(sub.f, &tape, true);
            let msg = match r {
                Err(m) => m,
                Ok(()) => format!("(not reproduced on re-run) {}", reason.message()),
            };
            let mut tape = tape;
            while tape.last() == Some(&0) {
                tape.pop();
            }
            Some(Failure { sub: sub.name, tape, msg, desc: case.desc.unwrap_or_default() })
        }
        Err(TestError::Abort(r)) => {
            eprintln!("generator aborted: {}", r.message());
            std::process::exit(2);
        }
    };
    (stats.into_inner(), failure)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}

/// Bitwise equality with all NaNs equal.
pub fn same64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn same32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
