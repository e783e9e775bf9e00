#!/usr/bin/env python3
"""Runs the check of one property.

    check.py C01            (VERIF_SEED, VERIF_TIER=quick|thorough)
    check.py C01 --replay F run one recorded case again and judge it

What it does (see DESIGN.md):
  1. builds the harness from /repo's working tree;
  2. model checks the design specifications of the property with TLC, and lets
     TLC enumerate input histories where the property has a generator module;
  3. lets the harness run the real code on generated inputs and on the
     TLC-enumerated histories, and record what it did;
  4. validates every record against the trace specification with TLC;
  5. runs a deviating case once more before it is reported.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NSHARD = 8          # processes at a time
BUDGET = {"quick": 240, "thorough": 660}    # seconds; no further shard is started after it
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN  # noqa: E402


class Infra(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env_go(extra=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
    e.setdefault("HOME", "/root")
    e.update(extra or {})
    return e


def build(work, race=False):
    """Build the harness against /repo's working tree."""
    src = os.path.join(work, "src")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(HERE, "harness"), src)
    out = os.path.join(work, "harness-race" if race else "harness")
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
    p = subprocess.run(cmd, cwd=src, env=env_go(), capture_output=True, text=True)
    if p.returncode != 0:
        raise Infra("harness does not build against /repo:\n" + p.stderr[-3000:])
    return out


def tlc(work, module, cfg, env=None, timeout=800, heap="2g", workers="1", extra=()):
    meta = tempfile.mkdtemp(dir=work, prefix="meta")
    e = dict(os.environ)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-workers", workers,
           "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"rc": p.returncode, "out": out, "err": p.stderr, "states": dist, "transitions": gen}


DEV = re.compile(r'^"DEV (\d+) (.*)"$')
GEN = re.compile(r'^"GEN (.*)"$')


def unquote(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def judge(work, prop, path, timeout):
    """Validate the records of a file; returns (TLC stats, [(line, deviations)])."""
    n = sum(1 for _ in open(path))
    if n == 0:
        return {"states": 0, "transitions": 0}, []
    mod = PLAN[prop].get("trace", "Trace" + prop)
    r = tlc(work, mod + ".tla", mod + ".cfg", env={"TRACE": path}, timeout=timeout)
    if r["rc"] != 0:
        n = unevaluable(work, mod, path, r, timeout)
        if n:
            return r, [(n, "outputs of a form that the specification does not know")]
        raise Infra("TLC failed on the records of %s\n%s\n%s" % (path, r["out"][-3000:], r["err"][-500:]))
    devs = []
    for ln in r["out"].splitlines():
        m = DEV.match(ln)
        if m:
            devs.append((int(m.group(1)), unquote(m.group(2))))
    return r, devs


def unevaluable(work, mod, path, r, timeout):
    """The record on which the evaluation of the trace specification failed."""
    m = re.findall(r"^/?\\?/? ?l = (\d+)", r["out"], re.M)
    if not m:
        return 0
    for n in (int(m[-1]), int(m[-1]) + 1):
        one = os.path.join(work, "one-%d-%s" % (n, os.path.basename(path)))
        with open(path) as f, open(one, "w") as g:
            g.writelines(ln for i, ln in enumerate(f, 1) if i == n)
        if os.path.getsize(one) and tlc(work, mod + ".tla", mod + ".cfg", env={"TRACE": one},
                                        timeout=timeout)["rc"] != 0:
            return n
    return 0


def run_harness(exe, args, timeout):
    p = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout,
                       env=env_go({"GORACE": "halt_on_error=1 exitcode=66", "GOMEMLIMIT": "3GiB"}))
    return p


def crash_record(exe, args, out, work, tag, tries):
    """A run died (fatal error, data race): find the case with a journal."""
    j = os.path.join(work, "journal-" + tag)
    for _ in range(tries):
        p = run_harness(exe, args + ["-journal", j], 600)
        if p.returncode == 0:
            continue
        try:
            c = json.loads(open(j, "rb").read())
        except (OSError, ValueError):
            continue
        why = [x for x in p.stderr.splitlines() if "fatal error" in x or "DATA RACE" in x or x.startswith("panic")]
        c["x"] = "crash: " + (why[0][:120] if why else "exit %d" % p.returncode)
        return c
    return None


def shard(work, exe, prop, k, n, seed, tier, cap, tmo, t0):
    if k >= NSHARD and time.time() - t0 > BUDGET[tier]:
        return None
    out = os.path.join(work, "shard%d.json" % k)
    args = ["gen", "-prop", prop, "-seed", str(seed), "-tier", tier,
            "-shard", "%d/%d" % (k, n), "-max", str(cap), "-out", out]
    return execute(work, exe, prop, args, out, "s%d" % k, tmo)


def execute(work, exe, prop, args, out, tag, tmo):
    try:
        p = run_harness(exe, args, tmo)
    except subprocess.TimeoutExpired:
        raise Infra("harness timed out: " + " ".join(args))
    stats = {"cases": 0, "nontrivial": 0}
    if p.returncode == 0:
        stats = json.loads(p.stdout.splitlines()[-1])
    elif p.returncode == 3:
        raise Infra("harness: " + p.stderr[-2000:])
    else:
        c = crash_record(exe, args, out, work, tag, 3)
        if c is None:
            raise Infra("harness died and the case could not be found: rc=%d\n%s" % (p.returncode, p.stderr[-2000:]))
        with open(out, "w") as f:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
        stats = {"cases": 1, "nontrivial": 0}
    r, devs = judge(work, prop, out, tmo)
    return out, stats, r, devs


def line(path, n):
    with open(path) as f:
        for i, ln in enumerate(f, 1):
            if i == n:
                return json.loads(ln)


def key_of(c):
    return hashlib.sha256(json.dumps(c["i"], sort_keys=True).encode()).hexdigest()[:16]


def known_findings(prop):
    """finding: property=<id> case=<key> <what fails>"""
    out = {}
    try:
        for ln in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\w+) case=(\w+) (.*)", ln)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


def confirm(work, exe, prop, c, tries, tmo):
    """Run the inputs again on the real code; deviations if they show again."""
    src = os.path.join(work, "again.in")
    out = os.path.join(work, "again.json")
    with open(src, "w") as f:
        f.write(json.dumps(c, separators=(",", ":")) + "\n")
    for _ in range(tries):
        _, _, _, devs = execute(work, exe, prop, ["redo", "-prop", prop, "-in", src, "-out", out], out, "again", tmo)
        if devs:
            return devs[0][1], line(out, devs[0][0])
    return None, None


def text_of(v):
    """Readable form of a case (code point arrays as text)."""
    if isinstance(v, list) and v and all(isinstance(x, int) and x >= 0 for x in v):
        return "".join(chr(x) if x < 0x110000 else "\\x%02x" % (x - 0x110000) for x in v)
    if isinstance(v, list):
        return [text_of(x) for x in v]
    if isinstance(v, dict):
        return {k: text_of(x) for k, x in v.items()}
    return v


def report(prop, c, devs):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, key_of(c)))
    with open(path, "w") as f:
        json.dump({"property": prop, "deviations": devs, "i": c["i"], "o": c["o"], "x": c["x"],
                   "readable": text_of({"i": c["i"], "o": c["o"]})}, f, ensure_ascii=False, indent=1)
    log("deviation %s: %s" % (prop, devs[:400]))
    log(json.dumps(text_of(c), ensure_ascii=False)[:1500])
    log("VIOLATION property=%s replay=%s" % (prop, path))


def replay_file(prop, path):
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        exe = build(work, PLAN[prop].get("race", False))
        c = json.load(open(path))
        devs, again = confirm(work, exe, prop, {"i": c["i"], "o": c["o"], "x": ""},
                              PLAN[prop].get("tries", 1), 600)
        if devs:
            report(prop, again, devs)
            return 1
        log("no deviation")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_mc(work, m, tier):
    """Exhaustive checking of a design specification."""
    cfg = m["cfg"] if isinstance(m["cfg"], str) else m["cfg"][tier]
    r = tlc(work, m["module"] + ".tla", cfg + ".cfg", timeout=m.get("timeout", 700), heap=m.get("heap", "4g"),
            workers=m.get("workers", "2"), extra=m.get("extra", ()))
    if m.get("fails"):
        # a design with a planted mistake: the invariants must notice it
        v = re.search(r"Invariant (\w+) is violated", r["out"])
        if r["rc"] != 12 or not v:
            raise Infra("the specification %s/%s does not notice its mistake\n%s" % (m["module"], cfg, r["out"][-3000:]))
        return {"module": m["module"], "config": cfg, "states": r["states"], "transitions": r["transitions"],
                "must_fail": v.group(1)}
    if r["rc"] != 0:
        raise Infra("TLC rejects the specification %s/%s\n%s" % (m["module"], cfg, r["out"][-3000:]))
    if r["states"] < m.get("min_states", 2):
        raise Infra("vacuous model %s/%s: %d states" % (m["module"], cfg, r["states"]))
    return {"module": m["module"], "config": cfg, "states": r["states"], "transitions": r["transitions"]}


def run_gen(work, exe, prop, g, tier, tmo):
    """TLC enumerates inputs, the harness runs them, TLC validates the records."""
    cfg = g["cfg"] if isinstance(g["cfg"], str) else g["cfg"][tier]
    r = tlc(work, g["module"] + ".tla", cfg + ".cfg", timeout=tmo, workers="1", heap="4g", extra=g.get("extra", ()))
    if r["rc"] != 0:
        raise Infra("TLC rejects the generator %s/%s\n%s" % (g["module"], cfg, r["out"][-3000:]))
    seen = set()
    files = [os.path.join(work, "gen-%s-%d.in" % (cfg, k)) for k in range(4)]
    fs = [open(f, "w") for f in files]
    for ln in r["out"].splitlines():
        m = GEN.match(ln)
        if m and m.group(1) not in seen:
            seen.add(m.group(1))
            fs[len(seen) % 4].write('{"i":%s}\n' % unquote(m.group(1)))
    for f in fs:
        f.close()
    if len(seen) < g.get("min", 10):
        raise Infra("generator %s yields only %d histories" % (cfg, len(seen)))
    res = []
    for k, f in enumerate(files):
        out = os.path.join(work, "gen-%s-%d.json" % (cfg, k))
        if os.path.getsize(f) == 0:
            continue
        res.append(execute(work, exe, prop, ["redo", "-prop", prop, "-in", f, "-out", out], out,
                           "g%s%d" % (cfg, k), tmo))
    return {"module": g["module"], "config": cfg, "states": r["states"], "transitions": r["transitions"],
            "histories": len(seen)}, res


def main():
    prop = sys.argv[1]
    if "--replay" in sys.argv:
        return replay_file(prop, sys.argv[sys.argv.index("--replay") + 1])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    plan = PLAN[prop]
    t0 = time.time()
    tmo = 840
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        exe = build(work, plan.get("race", False))
        cap = plan["max"]
        n = NSHARD * (plan.get("rounds", 12) if tier == "thorough" else 1)
        with cf.ThreadPoolExecutor(NSHARD) as ex:
            gens = [ex.submit(run_gen, work, exe, prop, g, tier, tmo) for g in plan.get("gen", [])
                    if tier in g.get("tiers", ("quick", "thorough"))]
            mcs = [ex.submit(run_mc, work, m, tier) for m in plan.get("mc", [])
                   if tier in m.get("tiers", ("quick", "thorough"))]
            jobs = [ex.submit(shard, work, exe, prop, k, n, seed, tier, cap, tmo, t0) for k in range(n)]
            results, models, hist = [], [], []
            for g in gens:
                info, res = g.result()
                hist.append(info)
                results += res
            results += [r for r in (j.result() for j in jobs) if r]
            models = [m.result() for m in mcs]
        cases = sum(s["cases"] for _, s, _, _ in results)
        nontriv = sum(s["nontrivial"] for _, s, _, _ in results)
        bad = [(out, n, d) for out, _, _, devs in results for n, d in devs]
        known = known_findings(prop)
        log("%s %s seed=%d: %d records validated (%d non-trivial), %d deviating; models: %s; %.1fs" % (
            prop, tier, seed, cases, nontriv, len(bad),
            ", ".join("%s %d states" % (m["config"], m["states"]) for m in models + hist) or "-", time.time() - t0))
        violation = None
        met = set()
        unconfirmed = 0
        for out, n, d in bad[:40]:
            c = line(out, n)
            k = key_of(c)
            if k in known:
                met.add(k)
                continue
            if plan.get("recorded", False):
                violation = (c, d)      # random by itself: the record is the evidence
                break
            again, c2 = confirm(work, exe, prop, c, plan.get("tries", 2), tmo)
            if again:
                violation = (c2, again)
                break
            unconfirmed += 1
            if unconfirmed > 5:
                break
        for k, what in known.items():
            log("KNOWN-FINDING: property=%s %s" % (prop, what))
        samples = []
        for out, _, _, _ in results[:3] + results[-2:]:
            with open(out) as f:
                ls = [x for _, x in zip(range(400), f)]
            for x in (ls[len(ls) // 2:len(ls) // 2 + 1] + ls[-1:]):
                samples.append(text_of(json.loads(x)))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": plan.get("level", "model_checking"),
            "coverage": {
                "states": sum(m["states"] for m in models + hist) + sum(r["states"] for _, _, r, _ in results),
                "transitions": sum(m["transitions"] for m in models + hist)
                + sum(r["transitions"] for _, _, r, _ in results),
                "traces_validated_against_impl": cases,
                "nontrivial_traces": nontriv,
                "rule": plan["rule"],
                "models": models,
                "tlc_generated_histories": hist,
                "samples": samples[:6],
            },
            "assumptions": plan["assumptions"],
            "wall_s": round(time.time() - t0, 1),
            "violations": 1 if violation else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        if violation:
            report(prop, *violation)
            return 1
        if unconfirmed:
            log("a deviation was recorded but did not show again: %s" % (bad[0],))
            return 2
        if nontriv < plan.get("min_nontrivial", 100):
            log("too few non-trivial records: %d" % nontriv)
            return 2
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Infra as e:
        log("ERROR", e)
        sys.exit(2)
