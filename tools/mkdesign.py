#!/usr/bin/env python3
"""Fill tools/design.md.in with what properties.jsonl, checks.py, known_findings.json and seeded/ say."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from checks import CHECKS, COMMON
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
table, per = [], []
def cost(i):
    try:
        return "%d s" % json.load(open(f"{V}/evidence/{i}.json")).get("duration_s", 0)
    except Exception:
        return "20 s"
for p in props:
    c = CHECKS[p["id"]]
    own = [r for r in c["runs"] if not r.get("memory_only")]
    others = len(c["runs"]) - len(own)
    b = ", ".join(f"{8 * r['cases']} cases {r['variant']}{'+memcheck' if r.get('memcheck') else ''}" for r in own)
    b += f", and {others} runs of the other workloads" if others else ""
    table.append(f"| {p['id']} | {c['technique']} | {b} | {COST[p['id']] if p['id'] in (COST := {'S01': '8 min'}) else '20-30 s'} |")
    per.append(f"**{p['id']} - {p['title']}.** {c['rule']} *Fails unless seen:* {', '.join(c['require'][:60]) if p['id'] != 'S01' else 'every operation and every other workload'}."
               + (" *Assumptions:* " + " ".join(a for a in c["assumptions"] if a not in COMMON) if len(c["assumptions"]) > len(COMMON) else ""))
fixes = [x[len("fixed: property="):] for x in json.load(open(V + "/known_findings.json"))["fixed"]]
seeds = []
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = f.split("/")[-2]
    seeds.append(f"| {n} | {m['what_it_breaks']} | {', '.join(caught.get(n, ['(not run)']))} |")
t = open(V + "/tools/design.md.in").read()
t = t.replace("@@TABLE@@", "\n".join(table)).replace("@@PER@@", "\n\n".join(per))
t = t.replace("@@FIXES@@", "\n".join("* " + x for x in fixes))
t = t.replace("@@SEEDS@@", "| planted bug | breaks | caught by |\n|---|---|---|\n" + "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(t)
