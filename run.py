#!/usr/bin/env python3
"""Builds /repo's current sources with instrumentation, runs the monitors of one
property under generated workloads, and reports.

  run.py check <ID>        one property (VERIF_SEED, VERIF_TIER from the environment)
  run.py replay <FILE>     re-run the case of a replay file
  run.py setup             sanity check of the tool chain
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "harness"))
from checks import CHECKS  # noqa: E402

JOBS = 8
GEN = ["gen_pool2", "gen_pool1", "gen_pool3", "gen_source", "gen"]
BASE = ["-std=c++17", "-g1", "-w", "-pthread", "-DCODE_GENERATION", '-DGEGELATI_VERSION="1.3.1"',
        f"-I{REPO}/gegelatilib/include", f"-I{REPO}/lib/JsonCpp", f"-I{VERIF}/harness"]
VARIANTS = {
    "plain": ["-O1", "-DNDEBUG"],
    "dbg": ["-O1"],
    "asan": ["-O1", "-D_GLIBCXX_DEBUG", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-DNDEBUG", "-fsanitize=thread"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=1:abort_on_error=0:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "LSAN_OPTIONS": "exitcode=99",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:history_size=4:second_deadlock_stack=1",
}
VALGRIND = ["valgrind", "-q", "--error-exitcode=98", "--leak-check=no", "--num-callers=24"]


class Infra(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def lib_sources():
    out = []
    for d, _, fs in os.walk(f"{REPO}/gegelatilib/src"):
        out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".cc", ".cxx", ".c"))]
    out.sort(key=lambda p: -os.path.getsize(p))
    return out + [f"{REPO}/lib/JsonCpp/jsoncpp.cpp"]


def build(variant, harness, extra=()):
    """Compile the library and the harnesses; returns {harness: binary}."""
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    flags = BASE + VARIANTS[variant] + list(extra)
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="2G",
               CCACHE_SLOPPINESS="pch_defines,time_macros", CCACHE_NOHASHDIR="1")
    ccache = [shutil.which("ccache")] if shutil.which("ccache") else []
    # Precompiled standard headers
    pch = os.path.join(d, "pch.hpp")
    src = open(f"{VERIF}/harness/pch.hpp").read()
    if not (os.path.exists(pch) and open(pch).read() == src and os.path.exists(pch + ".gch")):
        open(pch, "w").write(src)
        r = subprocess.run(["g++"] + flags + ["-x", "c++-header", pch, "-o", pch + ".gch"],
                           capture_output=True, text=True)
        if r.returncode:
            raise Infra("precompiled header: " + r.stderr[-2000:])
    jobs = [(f"{VERIF}/harness/{h}.cpp", h) for h in harness] + [(f"{VERIF}/harness/{g}.cpp", g)
                                                                for g in GEN]
    jobs += [(s, "lib_" + os.path.relpath(s, REPO).replace("/", "_")) for s in lib_sources()]

    def cc(job):
        s, name = job
        o = os.path.join(d, name + ".o")
        r = subprocess.run(ccache + ["g++"] + flags + ["-include", pch, "-c", s, "-o", o],
                           capture_output=True, text=True, env=env)
        return (o, r.returncode, r.stderr)

    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(cc, jobs))
    for (s, _), (o, rc, err) in zip(jobs, res):
        if rc:
            raise Infra(f"compiling {s} failed:\n{err[-3000:]}")
    libs = [o for (o, _, _) in res[len(harness):]]
    bins = {}
    for h, (o, _, _) in zip(harness, res):
        b = os.path.join(d, h + ".bin")
        tmp = b + ".tmp"
        san = [f for f in flags if f.startswith(("-fsanitize", "-fno-sanitize"))]
        r = subprocess.run(["g++", "-g1", "-pthread"] + san + [o] + libs + ["-ldl", "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            raise Infra("link failed:\n" + r.stderr[-3000:])
        os.replace(tmp, b)
        bins[h] = b
    return bins


# ------------------------------------------------------------------- running
def launch(cmd, work, tag, wall, env):
    out = open(f"{work}/{tag}.stdout", "wb")
    err = open(f"{work}/{tag}.stderr", "wb")
    p = subprocess.Popen(cmd, stdout=out, stderr=err, env=env, cwd=work,
                         start_new_session=True, stdin=subprocess.DEVNULL)
    out.close()
    err.close()
    p.deadline = time.time() + wall
    return p


def wait(p):
    """Returns (rc, timed_out)."""
    try:
        p.wait(max(0.1, p.deadline - time.time()))
        return p.returncode, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        return p.returncode, True


def tail(path, n=6000):
    try:
        b = open(path, "rb").read()
        return (b if len(b) <= n else b[:n // 2] + b"\n...\n" + b[-n // 2:]).decode(errors="replace")
    except OSError:
        return ""


def read_progress(path):
    try:
        s = open(path, "rb").read().split(b"\0")[0].decode().split()
        return s[0], int(s[1])
    except (OSError, IndexError, ValueError):
        return "?", 0


FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (?:\(|/|<null>)")


def frames(text):
    """First frames that belong to the library, without arguments."""
    out = []
    for m in FRAME.finditer(text):
        f = re.sub(r"\(.*", "", m.group(1)).strip()
        if re.match(r"^(.*\s)?(Learn|TPG|Program|Data|Mutator|Archive|Environment|CodeGen|File|Log|"
                    r"Instructions|Selector|Util|Json|std::|Program::)", f) and "::" in f and not f.startswith("std::") \
                and not f.startswith("void std::"):
            out.append(re.sub(r"<.*", "", f))
    return out


def san_key(text):
    m = re.search(r"^==\d+== ((?:Conditional|Use of|Invalid|Syscall|Source and|Mismatched|Jump|Process term)[^\n]*)", text, re.M)
    if m:
        # Frames of memcheck, in the form of the other tools.
        stack = re.sub(r"==\d+==\s+(?:at|by) (0x[0-9A-F]+): ", r"#1 \1 in ", text[m.end():])
        fs = frames(re.sub(r"0x[0-9A-F]+", lambda x: x.group(0).lower(), stack))
        return f"memcheck:{re.sub(r'[0-9]+', 'N', m.group(1))[:70]}:{fs[0] if fs else '?'}"
    if "LeakSanitizer: detected memory leaks" in text:
        fs = frames(text[text.index("LeakSanitizer"):])
        return "leak:" + (fs[0] if fs else "?")
    m = re.search(r"runtime error: ([^\n]+)", text)
    if m:
        fs = frames(text[m.end():])
        what = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:80]
        return f"ubsan:{what}:{fs[0] if fs else '?'}"
    m = re.search(r"AddressSanitizer:? ([a-zA-Z-]+)", text)
    if m:
        fs = frames(text[m.end():])
        return f"asan:{m.group(1)}:{fs[0] if fs else '?'}"
    m = re.search(r"^Error: ([^\n]{0,100})", text, re.M)
    if m and "In function:" in text:
        return "container:" + m.group(1)
    m = re.search(r"Assertion '?`?([^\n]{0,100})", text)
    if m:
        return "assert:" + m.group(1)
    return None


def tsan_reports(text):
    out = []
    for blk in re.split(r"={18,}", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", blk)
        if not m:
            continue
        parts = re.split(r"\n\s*\n", blk)
        two = []
        for p in parts[:2]:
            fs = frames(p)
            two.append(fs[0] if fs else "?")
        two.sort()
        out.append((f"tsan:{m.group(1).strip()}:{'|'.join(two)}", blk[:5000]))
    return out


class Result:
    def __init__(self):
        self.evaluations = 0
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.violations = []  # dict(key, detail, unit, seed, variant, harness)

    def merge(self, j, variant, harness, memory_only=False):
        self.evaluations += j["evaluations"]
        if memory_only:
            # Workload of another property: only what the sanitizers say counts here.
            k = f"evaluations_of_{harness}"
            self.counters[k] = self.counters.get(k, 0) + j["evaluations"]
            self.distinct.update(f"{harness}:{d}" for d in j["distinct"])
            return
        for k, v in j["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.distinct.update(j["distinct"])
        if len(self.samples) < 6:
            self.samples += j["samples"][:2]
        for v in j["violations"]:
            self.violations.append(dict(v, variant=variant, harness=harness))


def process_end(res, rc, timed_out, work, tag, run, binary, env, seed, tier):
    variant, harness = run["variant"], run["harness"]
    err = tail(f"{work}/{tag}.stderr", 200000)
    jpath = f"{work}/{tag}.json"
    done = False
    if os.path.exists(jpath):
        try:
            res.merge(json.load(open(jpath)), variant, harness, run.get("memory_only"))
            done = True
        except ValueError:
            pass
    unit, useed = read_progress(f"{work}/{tag}.progress")

    def add(key, detail, unit=unit, useed=useed):
        res.violations.append(dict(key=key, detail=detail[:6000], unit=unit, seed=useed,
                                   variant=variant, harness=harness))
    for key, blk in tsan_reports(err):
        add(key, blk)
    if timed_out and run.get("memory_only"):
        res.counters["slow_shards"] = res.counters.get("slow_shards", 0) + 1
        return
    if timed_out:
        # Alone, with a generous limit: does this case end at all?
        lim = run.get("alone", 150)
        p = launch([binary, "--replay", unit, str(useed), "--tier", tier, "--scratch", work] + run.get("args", []),
                   work, tag + ".alone", lim, env)
        rc2, to2 = wait(p)
        if to2:
            add("hang:" + unit, f"the case did not end within {lim} s when run alone")
        else:
            res.counters["slow_shards"] = res.counters.get("slow_shards", 0) + 1
        return
    if rc == 66 and tsan_reports(err):
        return
    if rc != 0 or not done:
        key = san_key(err)
        if key is None and run.get("memory_only") and rc not in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
            k = "ended_early_for_another_reason"
            res.counters[k] = res.counters.get(k, 0) + 1
            return
        if key is None:
            if rc < 0:
                try:
                    key = f"crash:{unit}:{signal.Signals(-rc).name}"
                except ValueError:
                    key = f"crash:{unit}:{-rc}"
            else:
                key = f"exit:{unit}:{rc}"
        add(key, f"process ended with {rc}\n" + tail(f"{work}/{tag}.stderr"))


def run_all(cid, chk, seed, tier, res, work):
    thorough = tier == "thorough"
    runs = [dict(r) for r in chk["runs"]]
    for r in runs:
        r.setdefault("harness", cid)
    variants = []
    for r in runs:
        if r["variant"] not in variants:
            variants.append(r["variant"])
    bins = {}
    t0 = time.time()
    for v in variants:
        hs = sorted({r["harness"] for r in runs if r["variant"] == v})
        for h, b in build(v, hs).items():
            bins[(v, h)] = b
    res.counters["build_s"] = int(time.time() - t0)
    budget = 420 if not thorough else 3600
    for i, r in enumerate(runs):
        binary = bins[(r["variant"], r["harness"])]
        shards = r.get("shards", JOBS)
        cases = r["thorough"] if thorough else r["cases"]
        env = dict(os.environ, **SAN_ENV)
        env.update(r.get("env", {}))
        procs = []
        wall = r.get("wall", 300 if not thorough else 3000)
        wall = max(30, min(wall, budget))
        t1 = time.time()
        for s in range(shards):
            tag = f"r{i}s{s}"
            cmd = (VALGRIND if r.get("memcheck") else []) + [binary, "--seed", str(seed), "--shard", str(s), "--cases", str(cases), "--tier", tier,
                   "--out", f"{work}/{tag}.json", "--progress", f"{work}/{tag}.progress",
                   "--scratch", work] + r.get("args", [])
            procs.append((launch(cmd, work, tag, wall, env), tag))
        for p, tag in procs:
            rc, to = wait(p)
            if to and any(v["key"].startswith("hang") for v in res.violations):
                continue
            process_end(res, rc, to, work, tag, r, binary, env, seed, tier)
        budget -= time.time() - t1
        key = f"run_s_{r['variant']}{'_memcheck' if r.get('memcheck') else ''}_{r['harness']}"
        res.counters[key] = int(time.time() - t1)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def check(cid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    chk = CHECKS[cid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    os.makedirs(f"{VERIF}/replay", exist_ok=True)
    epath = f"{VERIF}/evidence/{cid}.json"
    if os.path.exists(epath):
        os.remove(epath)
    work = tempfile.mkdtemp(prefix=f"work_{cid}_", dir=BUILD)
    res = Result()
    try:
        run_all(cid, chk, seed, tier, res, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # Expected observations that did not happen make the run void.
    missing = [k for k in chk.get("require", []) if res.counters.get(k, 0) == 0]
    known = [k for k in load_known() if k["property"] == cid and k.get("status") == "open"]
    fresh, seen = [], {}
    for v in res.violations:
        for k in known:
            if re.search(k["match"], v["key"]) and re.search(k.get("match_detail", ""), v["detail"], re.S):
                seen.setdefault(k["what"], 0)
                seen[k["what"]] += 1
                break
        else:
            fresh.append(v)
    for k in known:
        log(f"KNOWN-FINDING: property={cid} {k['what']} (seen {seen.get(k['what'], 0)} times in this run)")
    groups = {}
    for v in fresh:
        groups.setdefault(v["key"], []).append(v)
    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res.evaluations,
            "distinct_nontrivial": len(res.distinct),
            "rule": chk["rule"],
            "samples": res.samples or ["(none)"],
            "observed": dict(sorted(res.counters.items())),
            "variants": [f"{r['variant']}: {' '.join(VARIANTS[r['variant']])}" for r in chk["runs"]],
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(groups),
    }
    json.dump(ev, open(epath, "w"), indent=1)
    if groups:
        for key, vs in list(groups.items())[:8]:
            v = vs[0]
            h = hashlib.sha1(f"{cid}{key}{v['unit']}{v['seed']}".encode()).hexdigest()[:12]
            rp = f"{VERIF}/replay/{cid}-{h}.json"
            json.dump(dict(v, property=cid, tier=tier, run_seed=seed,
                           command=f"python3 {VERIF}/run.py replay {rp}"), open(rp, "w"), indent=1)
            log(f"--- {key}  ({len(vs)}x) unit={v['unit']} seed={v['seed']} variant={v['variant']}")
            log(v["detail"][:2500])
            log(f"VIOLATION property={cid} replay={rp}")
        return 1
    if missing:
        log(f"INFRA: monitors of {cid} observed nothing of: {missing}")
        return 3
    log(f"OK property={cid} evaluations={res.evaluations} distinct={len(res.distinct)} "
        f"wall={ev['wall_s']}s build={res.counters.get('build_s')}s")
    return 0


def replay(path):
    v = json.load(open(path))
    binary = build(v["variant"], [v["harness"]])[v["harness"]]
    work = tempfile.mkdtemp(prefix="replay_", dir=BUILD)
    args, wrap = [], []
    for r in CHECKS[v["property"]]["runs"]:
        if r["variant"] == v["variant"] and r.get("harness", v["property"]) == v["harness"]:
            args = r.get("args", [])
            wrap = VALGRIND if r.get("memcheck") else []
    try:
        return subprocess.run(wrap + [binary, "--replay", v["unit"], str(v["seed"]), "--tier", v["tier"],
                               "--scratch", work] + args, env=dict(os.environ, **SAN_ENV), cwd=work).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        try:
            sys.exit(check(sys.argv[2]))
        except Infra as e:
            log("INFRA:", e)
            sys.exit(2)
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        for t in ("g++", "gcc"):
            if not shutil.which(t):
                log("missing", t)
                sys.exit(1)
        log("ok")
        sys.exit(0)
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    main()
