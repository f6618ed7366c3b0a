#!/usr/bin/env python3
"""Mutation campaign: which small changes of go-dc pass its tests and are not seen by the checks?

usage: mutate.py WORKDIR MUTANTS.jsonl OUT.jsonl WORKERS [sample-size [seed [file-regexp]]]

WORKDIR gets copies of /repo and the harness, the recorded cases of the unchanged code and, per worker, a
copy that is mutated. A mutant that builds and passes the tests is recorded with the same cases; cases that come out
differently are validated by TLC. OUT gets one line per mutant: stillborn, tests, caught, accepted (traces differ but
the specification allows it) or same (no trace differs).
"""
import json, os, random, re, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import check
from plan import PLAN

WORK, MUTS, OUT, NW = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
SAMPLE = int(sys.argv[5]) if len(sys.argv) > 5 else 0
SEED = int(sys.argv[6]) if len(sys.argv) > 6 else 1
FILES = re.compile(sys.argv[7]) if len(sys.argv) > 7 else None
SCALE = float(os.environ.get("SCALE", "0.25"))
ENV = check.go_env()

WHERE = [  # properties whose suites look at a file
    (r"^lineproto/reader", ["C01", "C02", "C03", "C07"]),
    (r"^lineproto/", ["C01", "C03", "C04", "C05", "C06", "C07"]),
    (r"^nmdc/conn|^adc/conn|^conn.go", ["C23"]),
    (r"^nmdc/msg_lock", ["C20", "C11", "C12", "C13"]),
    (r"^nmdc/extensions", ["C18", "C11", "C12", "C25"]),
    (r"^nmdc/(reader|writer|message)", ["C07", "C08", "C09", "C13", "C24", "C11", "C25"]),
    (r"^nmdc/", ["C09", "C10", "C11", "C12", "C13", "C24", "C25"]),
    (r"^adc/types/", ["C21", "C14", "C15", "C16", "C13"]),
    (r"^adc/extensions", ["C18", "C14", "C25"]),
    (r"^adc/(reader|writer)", ["C17", "C24", "C13"]),
    (r"^adc/packets", ["C16", "C17", "C24", "C13"]),
    (r"^adc/", ["C14", "C15", "C16", "C17", "C18", "C13", "C24", "C25"]),
    (r"^tiger/tth", ["C19"]),
    (r"^tiger/", ["C21", "C19"]),
    (r"^keyprint/", ["C22"]),
    (r"", ["C13", "C21"]),
]


def props(f):
    return next(p for r, p in WHERE if re.search(r, f))


def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
    shutil.copytree(check.ROOT + "/harness", d + "/harness")
    p = d + "/harness/go.mod"
    s = open(p).read()
    s = re.sub(r"=> /repo\b|=> \.\./\.\./repo\b", "=> " + d + "/repo", s)
    open(p, "w").write(s)
    if d + "/repo" not in s:
        raise SystemExit("no replace in " + p)


def build(d):
    return subprocess.run(["go", "build", "-o", d + "/h", "."], cwd=d + "/harness", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode == 0


def record(d, j, out, timeout):
    cmd = [d + "/h", "-suite", j["suite"], "-profile", j["prop"], "-seed", "1", "-n", str(j["n"]), "-out", out]
    if j.get("in"):
        cmd += ["-in", j["in"]]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=d, preexec_fn=check.limits)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode:
        return None
    with open(out) as f:
        return [l for l in f if l.strip()]


def jobs():
    js, seen = [], set()
    for p, plan in sorted(PLAN.items()):
        for s in plan.get("suites", []):
            js.append({"prop": p, "suite": s["suite"], "trace": s["trace"], "n": int(s["quick"] * SCALE)})
        for i, s in enumerate(plan.get("scenarios", [])):
            if s["quick"] is None:
                continue
            key = json.dumps([s["spec"], s["cfg"], s.get("const")])
            path = "%s/scen-%s.txt" % (WORK, re.sub(r"\W+", "_", key))
            if not os.path.exists(path):
                c = check.Check(p, "quick")
                if s.get("all"):
                    out = c.model("s", s["spec"], s["cfg"], dict(s.get("const", {}), Emit="TRUE"), 4)
                    sc = sorted(check.printed(out, "SCEN"))
                    n = int((s["quick"] or 6000) * SCALE)
                    sc = random.Random(1).sample(sc, n) if n < len(sc) else sc
                else:
                    cfg = check.make_cfg(s["cfg"], {}, c.scratch, "sim")
                    rc, out = check.tlc(s["spec"], cfg, c.scratch, "sim", extra=("-simulate", "num=%d" % int(s["quick"] * SCALE), "-depth", str(s.get("depth", 200)), "-seed", "1"))
                    sc = check.printed(out, "SCEN")
                shutil.rmtree(c.scratch)
                open(path, "w").write("\n".join(sc) + "\n")
            js.append({"prop": p, "suite": s["suite"], "trace": s["trace"], "n": sum(1 for _ in open(path)), "in": path})
    return js


def rejected(d, spec, lines):
    path = d + "/diff.ndjson"
    open(path, "w").writelines(lines)
    try:
        rc, out = check.tlc(spec, os.path.join(check.SPEC, spec + ".cfg"), d, "v", env={"TRACE": path}, timeout=300)
    except check.CheckError:
        return "tlc-timeout"
    r = check.printed(out, "REJECT")
    if r:
        return "reject"
    return None if '"DONE %d"' % len(lines) in out else "tlc-failed: " + out[-500:]


def run(d, m, js, base):
    f = d + "/repo/" + m["file"]
    src = open(f, "rb").read()
    open(f, "wb").write(src[:m["from"]] + m["new"].encode() + src[m["to"]:])
    try:
        if not build(d):
            return "stillborn", ""
        try:
            t = subprocess.run(["go", "test", "./..."], cwd=d + "/repo", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90).returncode
        except subprocess.TimeoutExpired:
            t = 1
        if t:
            return "tests", ""
        diffs = 0
        for k, j in enumerate(js):
            if j["prop"] not in props(m["file"]):
                continue
            b, slow = base[k]
            lines = record(d, j, d + "/out.ndjson", 10 + 5 * slow)
            if lines is None:
                return "caught", "crash %s/%s" % (j["prop"], j["suite"])
            new = [l for l in lines if l not in b]
            if not new:
                continue
            diffs += len(new)
            if len(new) > 60:
                new = random.Random(1).sample(new, 60)
            r = rejected(d, j["trace"], new)
            if r:
                return "caught", "%s %s/%s" % (r, j["prop"], j["suite"])
        return ("accepted" if diffs else "same"), str(diffs)
    finally:
        open(f, "wb").write(src)


def main():
    os.makedirs(WORK, exist_ok=True)
    js = jobs()
    d0 = WORK + "/base"
    copy(d0)
    assert build(d0)
    base = []
    import time
    for k, j in enumerate(js):
        b = set()
        t = time.time()
        for _ in range(3):
            ls = record(d0, j, d0 + "/out.ndjson", 600)
            assert ls is not None, j
            b.update(ls)
        base.append((b, (time.time() - t) / 3))
        print(j["prop"], j["suite"], j["n"], len(b) / len(ls), "%.1fs" % base[-1][1], flush=True)
    ms = [json.loads(l) for l in open(MUTS)]
    for i, m in enumerate(ms):
        m["id"] = i
    done = set()
    if os.path.exists(OUT):
        done = {json.loads(l)["id"] for l in open(OUT)}
    if FILES:
        ms = [m for m in ms if FILES.search(m["file"])]
    if SAMPLE and SAMPLE < len(ms):
        ms = random.Random(SEED).sample(ms, SAMPLE)
    ms = [m for m in ms if m["id"] not in done]
    random.Random(2).shuffle(ms)
    lock = threading.Lock()
    out = open(OUT, "a")

    def worker(w):
        d = "%s/w%d" % (WORK, w)
        copy(d)
        while True:
            with lock:
                if not ms:
                    return
                m = ms.pop()
            try:
                r, why = run(d, m, js, base)
            except Exception as e:
                r, why = "error", repr(e)
            with lock:
                out.write(json.dumps(dict(m, result=r, why=why)) + "\n")
                out.flush()
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(NW)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
