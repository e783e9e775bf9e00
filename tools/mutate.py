#!/usr/bin/env python3
"""Mutation testing of the checks (not used by any check).

    mutate.py tests MUTS.json OUT.json [workers]   keep the mutants that pass the existing tests
    mutate.py checks IN.json OUT.json [workers] [shards] [part]   run the properties of the file on each

MUTS.json comes from tools/mutgen.  Works on copies of /repo under /tmp/mut.
"""
import json, os, shutil, subprocess, sys, tempfile, threading, queue, time
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, ".."))
import check
from plan import PLAN

ENV = check.env_go()
PROPS = [
    ("pkg/items/tree.go", "C04 C06 C17"),
    ("pkg/items/items.go", "C01 C22 C04 C20 C03 C21 C05 C18"),
    ("pkg/items/stringlist.go", "C01 C20 C04 C03 C21 C18"),
    ("pkg/items/group.go", "C01 C20 C04 C03 C21 C18"),
    ("pkg/items/store.go", "C16 C22 C04 C06 C10"),
    ("pkg/items/utils.go", "C19 C21 C01 C04"),
    ("pkg/items/wildcard.go", "C19 C01 C02 C03 C20 C08"),
    ("pkg/items/", "C20 C22 C01 C04 C03 C21 C18"),
    ("pkg/utils/runesranges.go", "C15 C02 C01 C20 C03"),
    ("pkg/utils/asciiset.go", "C15 C20 C01 C19"),
    ("pkg/utils/", "C19 C15 C01 C16 C12"),
    ("pkg/escape/", "C12 C11"),
    ("expand/", "C13 C14"),
    ("glob/tree.go", "C07 C04 C03"),
    ("glob/", "C01 C02 C03 C21 C18 C04 C07"),
    ("gglob/gtree.go", "C06 C07"),
    ("gglob/utils.go", "C19 C05"),
    ("gglob/", "C05 C02 C03 C21 C06"),
    ("gtags/tagged_term.go", "C08 C11 C09 C10"),
    ("gtags/items.go", "C10 C09"),
    ("gtags/tree.go", "C10 C07"),
    ("gtags/", "C11 C09 C10 C08"),
]


def props_of(f):
    for p, c in PROPS:
        if f.startswith(p):
            return c.split()
    return []


def copy(k):
    d = "/tmp/mut/w%d" % k
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git"))
    shutil.copytree(os.path.join(H, "..", "harness"), d + "/harness")
    m = open(d + "/harness/go.mod").read().replace("=> /repo", "=> ../repo")
    open(d + "/harness/go.mod", "w").write(m)
    return d


def mutated(d, m):
    src = open("/repo/" + m["file"], "rb").read()
    open(d + "/repo/" + m["file"], "wb").write(src[:m["from"]] + m["text"].encode() + src[m["to"]:])


def restore(d, m):
    shutil.copyfile("/repo/" + m["file"], d + "/repo/" + m["file"])


def run(cmd, cwd, tmo):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         start_new_session=True)
    try:
        return p.wait(tmo)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -1


def tests(d, m):
    if run(["go", "build", "./..."], d + "/repo", 60) != 0:
        return False
    return run(["go", "test", "-vet=off", "-timeout", "30s", "./..."], d + "/repo", 90) == 0


def checks(d, m, shards, part):
    exe = d + "/h"
    race = False
    if run(["go", "build", "-o", exe, "."], d + "/harness", 90) != 0:
        return "build"
    for p in props_of(m["file"]):
        if PLAN[p].get("race"):
            continue
        for k in range(shards):
            work = tempfile.mkdtemp(dir=d, prefix="work")
            try:
                out = work + "/o.json"
                cap = max(200, int(PLAN[p]["max"] * part))
                args = ["gen", "-prop", p, "-seed", "1", "-tier", "quick", "-shard", "%d/8" % k, "-max", str(cap), "-out", out]
                _, _, _, devs = check.execute(work, exe, p, args, out, "m", 300)
                if devs:
                    return p
            except (check.Infra, subprocess.TimeoutExpired) as e:
                return p + " infra " + str(e)[:200]
            finally:
                shutil.rmtree(work, ignore_errors=True)
    return None


def main():
    mode, src, dst = sys.argv[1:4]
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 8
    shards = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    part = float(sys.argv[6]) if len(sys.argv) > 6 else 0.4
    ms = [json.loads(x) for x in open(src)]
    done = set()
    if os.path.exists(dst):
        done = {json.dumps([x["file"], x["from"], x["to"], x["text"]]) for x in map(json.loads, open(dst))}
    q = queue.Queue()
    for m in ms:
        if json.dumps([m["file"], m["from"], m["to"], m["text"]]) not in done:
            q.put(m)
    lock = threading.Lock()
    f = open(dst, "a")

    def work(k):
        d = copy(k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            mutated(d, m)
            if mode == "tests":
                m["survives"] = tests(d, m)
            else:
                m["caught"] = checks(d, m, shards, part)
            restore(d, m)
            with lock:
                f.write(json.dumps(m) + "\n")
                f.flush()
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
