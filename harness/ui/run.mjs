// run.mjs ID            generated histories for one property of the web client; writes the evidence file
// run.mjs replay FILE   one recorded history
import fs from "node:fs";
import path from "node:path";
import { load, exists, fc } from "./world.mjs";
import { U01, U02 } from "./props.mjs";
import { U03 } from "./page.mjs";

const DIR = process.env.VERIF_DIR ?? "/verif";
const seed = Number(process.env.VERIF_SEED ?? 1) || 1;
const tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const scale = Number(process.env.VERIF_SCALE ?? 1);
const PROPS = { U01, U02, U03 };

const known = (id) => {
  const f = path.join(DIR, "known_findings.txt");
  return !fs.existsSync(f) ? [] : fs.readFileSync(f, "utf8").split("\n").filter((l) => l.startsWith(`KNOWN ${id} `))
    .map((l) => l.slice(`KNOWN ${id} `.length).split(" :: ")).map(([k, what]) => ({ k: k.trim(), what: (what ?? "").trim() }));
};

async function one(sub, c, stats) {
  const info = { classes: {}, nontrivial: false, key: null, text: null };
  let err = null;
  try { await sub.run(c, info); } catch (e) { err = e; }
  if (stats) {
    stats.n++;
    if (info.nontrivial) stats.keys.add(info.key ?? JSON.stringify(c));
    for (const k in info.classes) stats.classes[k] = (stats.classes[k] ?? 0) + info.classes[k];
    if (info.nontrivial && info.text && stats.samples.length < 3 && stats.n % 7 === 1) stats.samples.push(`[${sub.name}] ${info.text}`);
  }
  return err;
}

async function main() {
  if (!exists()) throw new Error("web/ui/src is missing");
  await load();
  if (process.argv[2] === "replay") {
    const t = fs.readFileSync(process.argv[3], "utf8").split("\n");
    const get = (k) => t.find((l) => l.startsWith(k + " ")).slice(k.length + 1);
    const id = get("property"), sub = PROPS[id].subs.find((s) => s.name === get("sub"));
    const err = await one(sub, JSON.parse(get("case")));
    if (err) { console.log(`${err.message}\nVIOLATION property=${id} replay=${path.resolve(process.argv[3])}`); return 1; }
    console.log(`held: ${id}`);
    return 0;
  }
  const id = process.argv[2], prop = PROPS[id], t0 = Date.now(), reports = [], hits = {}, skip = known(id);
  let failed = null;
  for (const sub of prop.subs) {
    const s0 = Date.now(), stats = { n: 0, keys: new Set(), classes: {}, samples: [] };
    const runs = Math.max(1, Math.round(sub.quick * scale * (tier === "thorough" ? sub.deep : 1)));
    const check = fc.asyncProperty(sub.arb, async (c) => {
      const err = await one(sub, c, stats);
      if (!err) return true;
      const k = skip.find((x) => err.message.includes(x.k));
      if (k) { hits[k.k] = (hits[k.k] ?? 0) + 1; return true; }
      throw err;
    });
    const r = await fc.check(check, { seed: seed * 1000003 + prop.subs.indexOf(sub), numRuns: runs, endOnFailure: false, interruptAfterTimeLimit: tier === "quick" ? 240000 : 6 * 3600000 });
    reports.push({ name: sub.name, evaluations: stats.n, distinct_nontrivial: stats.keys.size, discarded: 0, wall_s: (Date.now() - s0) / 1000, classes: stats.classes, samples: stats.samples });
    if (r.failed && r.counterexample) { failed = { sub, c: r.counterexample[0], err: r.errorInstance ?? new Error(r.error) }; break; }
  }
  const ev = { property: id, tier, seed, level: "exploration", coverage: {
    evaluations: reports.reduce((a, r) => a + r.evaluations, 0), distinct_nontrivial: reports.reduce((a, r) => a + r.distinct_nontrivial, 0),
    rule: prop.rule, samples: reports.flatMap((r) => r.samples), subchecks: reports.map(({ samples, ...r }) => r), known_finding_hits: hits },
    assumptions: prop.assumptions, wall_s: (Date.now() - t0) / 1000, violations: failed ? 1 : 0 };
  fs.mkdirSync(path.join(DIR, "evidence", "replay"), { recursive: true });
  fs.writeFileSync(path.join(DIR, "evidence", `${id}.json`), JSON.stringify(ev, null, 1) + "\n");
  for (const k of skip) if (hits[k.k]) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  if (!failed) { console.log(`held: ${id}: ${ev.coverage.evaluations} cases, ${ev.coverage.distinct_nontrivial} distinct non-trivial, ${ev.wall_s} s`); return 0; }
  const f = path.join(DIR, "evidence", "replay", `${id}.txt`);
  const info = { classes: {} };
  let shown = "";
  try { await failed.sub.run(failed.c, info); } catch (e) { shown = e.message; }
  fs.writeFileSync(f, `property ${id}\nsub ${failed.sub.name}\ncase ${JSON.stringify(failed.c)}\n# ${(shown || failed.err.message).split("\n").join("\n# ")}\n# ${info.text ?? ""}\n`);
  console.log(`${shown || failed.err.message}\n${info.text ?? ""}\nVIOLATION property=${id} replay=${f}`);
  return 1;
}
main().then((c) => process.exit(c), (e) => { console.error(e); process.exit(2); });
