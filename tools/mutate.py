#!/usr/bin/env python3
"""Mutation campaign (development aid; no check uses it).

  mutate.py list                       print how many one-token mutants there are per file
  mutate.py run N WORKERS OUT [SEED] [PREFIX]
                                       sample N mutants (of files starting with PREFIX), keep those that build
                                       and pass the existing tests, and record which check (at 15 % of the
                                       quick counts) reports each. Works in scratch copies under /tmp/mut.
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
REPO, VERIF, SCR = "/repo", "/verif", "/tmp/mut"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-12-19", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           PROPTEST_RNG_SEED="20251219", PROPTEST_DISABLE_FAILURE_PERSISTENCE="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
SKIP = ("progress_bars", "/tests/", "/benches/", "/examples/", "proptest_utils", "/bin/", "bench")
RULES = [(r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "),
  (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
  (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " /= "), (r"\b0\b(?![.\w])", "1"), (r"(?<![.\w])1\b(?![.\w])", "2"), (r"(?<![.\w])1\b(?![.\w])", "0"),
  (r"\b1\.0\b", "2.0"), (r"\b0\.0\b", "1.0"), (r"\b0\.5\b", "0.25"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
  (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.is_finite\(\)", ".is_nan()"), (r"\.rev\(\)", ""), (r"T::one\(\)", "T::zero()"), (r"T::zero\(\)", "T::one()"),
  (r"\.abs\(\)", ""), (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r"\.lhs\b", ".rhs"), (r"\.\.=", ".."), (r"\bbreak;", ""), (r"\bcontinue;", ""), (r"\.saturating_sub\(", ".saturating_add("),
  (r"\.filter\(\|", ".skip_while(|"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.powi\(2\)", ".powi(3)"), (r"\.skip\(", ".take(")]

def mutants():
    out = []
    files = subprocess.check_output(["git", "-C", REPO, "ls-files", "*.rs"], text=True).split()
    for f in files:
        if any(s in "/" + f for s in SKIP):
            continue
        lines = open(os.path.join(REPO, f)).read().split("\n")
        for i, l in enumerate(lines):
            if l.startswith("#[cfg(test)]"):
                break
            st = l.strip()
            if not st or st.startswith(("//", "use ", "#[", "#!", "pub use", "impl", "where", "fn ", "pub fn", "pub(crate) fn", "mod ", "pub mod")) or "panic!(" in st or "assert" in st or "format!(" in st:
                continue
            for pat, new in RULES:
                for m in re.finditer(pat, l):
                    if l[:m.start()].count('"') % 2 or "//" in l[:m.start()]:
                        continue
                    if new in (" <= ", " >= ") and re.search(r"\b(impl|where|fn)\b", l):
                        continue
                    out.append((f, i, l[:m.start()] + new + l[m.end():]))
            m = re.match(r"(\s*(?:\} else )?if )((?!let ).*) \{$", l)
            if m and " let " not in l:
                out.append((f, i, f"{m[1]}!({m[2]}) {{"))
            if st.endswith(";") and not st.startswith(("let ", "return", "break", "continue", "}", "pub ", "type ", "const ", "static ", ")", "]")) and st.count("(") == st.count(")") and st.count("{") == st.count("}"):
                prev = lines[i - 1].strip() if i else ""
                if prev.endswith((";", "{", "}", ",")) or not prev:
                    out.append((f, i, re.match(r"\s*", l)[0] + "{}"))
    return sorted(set(out))

ORDER = {"dynamic_expressions": ["E02", "E04", "E01", "E03", "E06", "E09", "E07", "E08", "E05", "E10", "E11"],
  "adaptive": ["S10", "S09", "S07"], "check_con": ["S04"], "complexity": ["S03"], "constant_opt": ["S08"], "dataset": ["S11", "S02"], "hall": ["S05"],
  "loss": ["S01", "S02"], "migration": ["S16"], "mutate.rs": ["S07", "S06"], "mutation_f": ["S06"], "operator": ["E11"], "optim": ["S08"], "options": ["S15"],
  "pop_member": ["S02", "S07"], "population": ["S16"], "random": ["S06"], "regular": ["S07", "S16"], "search_utils": ["S12", "S13", "S14", "S16"], "selection": ["S09"],
  "single": ["S12", "S16"], "warmup": ["S14"]}
ALLS = ["S12", "S13", "S14", "S16", "S02", "S07", "S06", "S08", "S01", "S03", "S04", "S05", "S09", "S10", "S11", "S15", "E11"]

def checks_for(f):
    if f.startswith("dynamic"):
        return ORDER["dynamic_expressions"]
    if f.startswith("web"):
        return ["W01", "W02", "W03", "W04"]
    b = os.path.basename(f)
    for k, v in ORDER.items():
        if b.startswith(k) or (k.endswith(".rs") and b == k):
            return v + [x for x in ["S12", "S07", "S16", "S13"] if x not in v]
    return ["S12", "S07", "S16", "S13"]

def crate(i):
    return "sr" if i == "E11" or i[0] == "S" else "de" if i[0] == "E" else "wasm"

def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"

def setup(k):
    d = f"{SCR}/{k}"
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", REPO, d + "/repo"])
        os.makedirs(d + "/verif")
    subprocess.check_call(["git", "-C", d + "/repo", "fetch", "-q", REPO, "HEAD"])
    subprocess.check_call(["git", "-C", d + "/repo", "reset", "-q", "--hard", "FETCH_HEAD"])
    if os.path.exists(d + "/verif/harness"):
        shutil.rmtree(d + "/verif/harness")
    shutil.copytree(VERIF + "/harness", d + "/verif/harness")
    shutil.copy(VERIF + "/known_findings.txt", d + "/verif/")
    for r, _, fs in os.walk(d + "/verif/harness"):
        for x in fs:
            if x == "Cargo.toml":
                p = os.path.join(r, x)
                t = open(p).read()
                open(p, "w").write(t.replace('"/repo/', f'"{d}/repo/'))
    return d

def run_checks(d, ids, jobs, scale):
    """First check that reports, or None."""
    built = set()
    env = dict(ENV, VERIF_DIR=d + "/verif", VERIF_SEED="1", VERIF_TIER="quick", VERIF_SCALE=str(scale), VERIF_HANG="100", VERIF_SOFT="200", CARGO_INCREMENTAL="0")
    for i in ids:
        c = crate(i)
        if c not in built:
            rc, o = sh(["cargo", "build", "-j", str(jobs), "--offline", "--manifest-path", f"{d}/verif/harness/{c}/Cargo.toml", "--target-dir", f"{d}/verif/target/{c}"], d, 900, env)
            if rc:
                return f"BUILD-{c}"
            built.add(c)
        rc, o = sh([f"{d}/verif/target/{c}/debug/v{c}", i], d, 900, env)
        if rc:
            return f"{i}" if rc == 1 else f"{i}:rc{rc}"
    return None

def work(k, q, out, lock, jobs):
    d = setup(k)
    while True:
        try:
            f, i, new = q.get_nowait()
        except queue.Empty:
            return
        p = f"{d}/repo/{f}"
        orig = open(p).read()
        ls = orig.split("\n")
        old = ls[i]
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        pk = ["-p", "symbolic_regression_wasm"] if False else ["--workspace"]
        rc, o = sh(["cargo", "test", "-j", str(jobs), *pk, "--all-features", "--offline", "--lib", "--tests", "--no-run"], d + "/repo", 600)
        if rc:
            r["result"] = "no build"
        else:
            rc, o = sh(["cargo", "test", "-j", str(jobs), *pk, "--all-features", "--offline", "--lib", "--tests", "--", "--test-threads", "4"], d + "/repo", 120)
            if rc:
                r["result"] = "tests"
            else:
                c = run_checks(d, checks_for(f), jobs, 0.15)
                r["result"] = c or "SURVIVED"
        open(p, "w").write(orig)
        with lock:
            open(out, "a").write(json.dumps(r) + "\n")

if __name__ == "__main__":
    ms = mutants()
    if sys.argv[1] == "list":
        from collections import Counter
        for f, n in Counter(m[0] for m in ms).most_common():
            print(n, f)
        print(len(ms))
    else:
        n, w, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
        pre = sys.argv[6] if len(sys.argv) > 6 else ""
        ms = [m for m in ms if m[0].startswith(pre)]
        random.Random(seed).shuffle(ms)
        done = set()
        if os.path.exists(out):
            done = {(r["file"], r["line"], r["new"]) for r in map(json.loads, open(out))}
        q = queue.Queue()
        for m in ms[:n]:
            if (m[0], m[1] + 1, m[2].strip()) not in done:
                q.put(m)
        lock = threading.Lock()
        ts = [threading.Thread(target=work, args=(k, q, out, lock, max(1, 8 // w))) for k in range(w)]
        [t.start() for t in ts]
        [t.join() for t in ts]
