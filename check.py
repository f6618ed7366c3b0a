#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property.

Builds the harness against /repo, model-checks the specification's own configurations,
records what the real code does (random and model-generated sessions), and has TLC validate
every recorded case against the specification.

exit 0: held on everything explored; 1: VIOLATION (with a replay file); 2: error of the check.
"""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PARTS = 8
DEADLINE = {"quick": 780, "thorough": 6 * 3600}


class CheckError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    for d in ("/opt/veriftools/go1.26.10/bin",):
        if os.path.isdir(d):
            env["PATH"] = d + ":" + env.get("PATH", "")
            env["GOROOT"] = os.path.dirname(d)
    env.setdefault("HOME", "/root")
    env.update(GO111MODULE="on", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
    return env


def build(scratch, race=False):
    exe = os.path.join(scratch, "harness" + ("-race" if race else ""))
    env = go_env()
    if race:
        env["CGO_ENABLED"] = "1"
    p = subprocess.run(["go", "build", *(["-race"] if race else []), "-o", exe, "."], cwd=os.path.join(ROOT, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("cannot build the harness:\n" + p.stdout)
    return exe


def tlc(module, cfg, scratch, name, workers=1, env=None, extra=(), heap="3g", timeout=700):
    meta = os.path.join(scratch, "meta-" + name)
    e = dict(os.environ)
    e.update(env or {})
    gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
    cmd = ["java", gc, "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + scratch, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not finish on %s in %d s" % (name, timeout))
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))


def make_cfg(cfg, over, scratch, name):
    """A copy of a configuration with some constants replaced."""
    text = open(os.path.join(SPEC, cfg)).read()
    for k, v in (over or {}).items():
        text, n = re.subn(r"(?m)^(\s*%s\s*(?:=|<-)).*$" % re.escape(k), lambda m: m.group(1) + " " + str(v), text)
        if n != 1:
            raise CheckError("no constant %s in %s" % (k, cfg))
    path = os.path.join(scratch, name + ".cfg")
    with open(path, "w") as f:
        f.write(text)
    return path


def printed(out, tag):
    """Lines printed by the specification as "TAG json"."""
    res = []
    for l in out.splitlines():
        if l.startswith('"' + tag + " "):
            res.append(json.loads(l)[len(tag) + 1:])
    return list(dict.fromkeys(res))


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.plan = PLAN[prop]
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = 0
        self.models, self.suites, self.samples = [], {}, []
        self.rejects = []
        self.multi = {}  # recorded sessions by the specification that validates them
        self.lock = threading.Lock()
        self.race_exe = None

    def race(self):
        """The harness that reports accesses of several goroutines to the same memory."""
        with self.lock:
            if self.race_exe is None:
                self.race_exe = build(self.scratch, race=True)
            return self.race_exe

    def left(self):
        t = DEADLINE[self.tier] - (time.time() - self.t0)
        if t <= 0:
            raise CheckError("out of time")
        return t

    def model(self, i, spec, cfg, over, workers):
        """Checks a model; returns TLC's output."""
        name = "mc-%s-%s" % (i, cfg.replace(".cfg", ""))
        path = make_cfg(cfg, over, self.scratch, name)
        t = time.time()
        rc, out = tlc(spec, path, self.scratch, name, workers=workers, heap="8g", timeout=self.left())
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("the specification itself fails: %s %s\n%s" % (spec, cfg, out[-6000:]))
        d, g = counts(out)
        self.states += d
        self.transitions += g
        self.models.append({"spec": spec, "config": cfg, "constants": over, "distinct_states": d,
                            "states_generated": g, "seconds": round(time.time() - t, 1)})
        return out

    def scenarios(self, i, s):
        """Behaviours generated by TLC from a model, for the harness to replay."""
        name = "sim%d" % i
        n = s[self.tier]
        if s.get("all"):
            # every value of the model's domain, of which n are replayed
            out = self.model("all%d" % i, s["spec"], s["cfg"], dict(s.get("const", {}), Emit="TRUE"), s.get("workers", 8))
            sc = sorted(printed(out, "SCEN"))
            if n and n < len(sc):
                sc = random.Random(self.seed).sample(sc, n)
            path = os.path.join(self.scratch, name + ".scen")
            with open(path, "w") as f:
                f.write("\n".join(sc) + "\n")
            self.suite(s.get("name", "%s-model" % s["suite"]), dict(s, n=len(sc)), ["-in", path], len(sc))
            return
        cfg = make_cfg(s["cfg"], {}, self.scratch, name)
        rc, out = tlc(s["spec"], cfg, self.scratch, name, timeout=self.left(),
                      extra=("-simulate", "num=%d" % n, "-depth", str(s.get("depth", 200)), "-seed", str(self.seed)))
        sc = printed(out, "SCEN")
        if rc != 0 or not sc:
            raise CheckError("no scenarios from %s:\n%s" % (s["spec"], out[-3000:]))
        path = os.path.join(self.scratch, name + ".scen")
        with open(path, "w") as f:
            f.write("\n".join(sc) + "\n")
        self.suite("%s-model" % s["suite"], dict(s, n=len(sc)), ["-in", path], len(sc))

    def suite(self, name, s, extra, n):
        trace = os.path.join(self.scratch, name + ".ndjson")
        env, pre, races = dict(os.environ), limits, os.path.join(self.scratch, name + ".races")
        exe = self.exe
        if s.get("race"):
            exe, pre = self.race(), None
            env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=" + races
        cmd = [exe, "-suite", s["suite"], "-profile", s.get("profile", self.prop), "-seed", str(self.seed),
               "-n", str(n), "-out", trace, *extra]
        if self.tier == "thorough":
            cmd.append("-deep")
        if s.get("par"):
            cmd += ["-par", str(s["par"])]
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               timeout=self.left(), cwd=self.scratch, preexec_fn=pre, env=env)
        except subprocess.TimeoutExpired:
            raise CheckError("the harness did not finish: " + " ".join(cmd))
        if p.returncode != 0:
            if p.returncode != 3 and "github.com/direct-connect/go-dc" in p.stderr:
                # the code under test took the process down or never came back
                self.rejects.append((name, {"crash": p.returncode}, {"id": "process", "cmd": cmd[1:], "stderr": crash_text(p.stderr)}))
                self.suites[name] = {"crash": p.returncode}
                return
            raise CheckError("the harness failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stderr[-4000:]))
        stats = json.loads(p.stdout.strip().splitlines()[-1])
        stats["record_s"] = round(time.time() - t, 1)
        self.suites[name] = stats
        if s.get("race"):
            stats["races"] = self.races(name, races, cmd)
        if s.get("multi"):
            with self.lock:
                for kind, spec in s["multi"].items():
                    path = trace + "." + kind
                    if os.path.getsize(path):
                        self.multi.setdefault((kind, spec), []).append(path)
            return
        self.validate(name, s["trace"], trace, s)

    def races(self, name, prefix, cmd):
        """Reports of memory that several sessions use without synchronization."""
        seen = {}
        for f in sorted(os.listdir(self.scratch)):
            if not f.startswith(os.path.basename(prefix)):
                continue
            for blk in open(os.path.join(self.scratch, f), errors="replace").read().split("=================="):
                if "WARNING: DATA RACE" not in blk:
                    continue
                where = tuple(re.findall(r"(github\.com/direct-connect/go-dc\S*)\(", blk))
                if not where:
                    raise CheckError("data race in the harness:\n" + blk[:4000])
                seen.setdefault(where, blk)
        for where, blk in list(seen.items())[:5]:
            self.rejects.append((name, {"race": where[0]}, {"id": "race", "cmd": cmd[1:], "report": blk[:6000]}))
        return len(seen)

    def validate_multi(self):
        jobs = []
        with ThreadPoolExecutor(4) as ex:
            for (kind, spec), paths in sorted(self.multi.items()):
                path = os.path.join(self.scratch, "sessions-" + kind + ".ndjson")
                with open(path, "w") as out:
                    for p in paths:
                        with open(p) as f:
                            shutil.copyfileobj(f, out)
                self.suites["sessions-" + kind] = {}
                jobs.append(ex.submit(self.validate, "sessions-" + kind, spec, path, {}, 500000))
        for j in jobs:
            j.result()

    def validate(self, name, spec, trace, s, chunk=0):
        with open(trace) as f:
            lines = [l for l in f if l.strip()]
        if not lines:
            raise CheckError("no cases recorded by " + name)
        # equal parts by size
        k = min(PARTS, len(lines))
        if chunk:
            k = min(k, 1 + sum(map(len, lines)) // chunk)
        parts, sizes = [[] for _ in range(k)], [0] * k
        for l in sorted(lines, key=len, reverse=True):
            j = sizes.index(min(sizes))
            parts[j].append(l)
            sizes[j] += len(l) + 300
        t = time.time()

        def run(j):
            path = os.path.join(self.scratch, "%s.%d" % (name, j))
            with open(path, "w") as f:
                f.writelines(parts[j])
            rc, out = tlc(spec, os.path.join(SPEC, spec + ".cfg"), self.scratch, "%s-%d" % (name, j),
                          env={"TRACE": path}, timeout=self.left())
            return j, rc, out

        with ThreadPoolExecutor(PARTS) as ex:
            res = list(ex.map(run, range(k)))
        skipped = 0
        for j, rc, out in res:
            if rc != 0 or '"DONE %d"' % len(parts[j]) not in out or "No error has been found" not in out:
                keep = os.path.join(ROOT, "evidence", "failed-%s.txt" % name)
                with open(keep, "w") as f:
                    f.write(out)
                raise CheckError("TLC failed on recorded cases of %s (%s):\n%s" % (name, keep, out[-3000:]))
            d, g = counts(out)
            self.states += d
            self.transitions += g
            skipped += len(printed(out, "UNSPEC"))
            for r in printed(out, "REJECT"):
                r = json.loads(r)
                case = json.loads(parts[j][r["case"] - 1])
                self.rejects.append((name, r, case))
        self.traces += len(lines)
        self.suites[name]["cases_unspecified_from_some_point"] = skipped
        self.suites[name]["validate_s"] = round(time.time() - t, 1)
        for l in (lines[len(lines) // 3], lines[2 * len(lines) // 3]):
            self.samples.append({"suite": name, "case": shorten(json.loads(l))})

    def run(self):
        self.exe = build(self.scratch)
        jobs = []
        with ThreadPoolExecutor(3) as ex:
            for i, m in enumerate(self.plan.get("models", [])):
                over = m.get(self.tier) or {}
                if over != "skip":
                    jobs.append(ex.submit(self.model, i, m["spec"], m["cfg"], over, m.get("workers", 4)))
            for s in self.plan.get("suites", []):
                n = s[self.tier]
                if n:
                    jobs.append(ex.submit(self.suite, s.get("name", s["suite"]), s, [], n))
            for i, s in enumerate(self.plan.get("scenarios", [])):
                if s[self.tier] is None:
                    continue
                jobs.append(ex.submit(self.scenarios, i, s))
            err = None
            for j in jobs:
                try:
                    j.result()
                except Exception as e:  # report after all are done
                    err = err or e
        try:
            self.validate_multi()
        except Exception as e:
            err = err or e
        new = self.report()
        if err is not None and not new:
            raise err
        if not new and not self.traces:
            raise CheckError("nothing was validated")
        self.evidence(len(new))
        return 1 if new else 0

    def report(self):
        known = []
        for l in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) suite=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == self.prop:
                known.append(m.groups())
        new, seen = [], set()
        for name, r, case in self.rejects:
            blob = json.dumps(case, separators=(",", ":"))
            hit = [kf for kf in known if kf[1] in (name, "*") and re.search(kf[2], blob)]
            if hit:
                seen.add(hit[0])
            else:
                new.append((name, r, case))
        for kf in seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kf[3]))
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        for i, (name, r, case) in enumerate(new[:5]):
            path = os.path.join(ROOT, "replay", "%s-%d.json" % (self.prop, i))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "suite": name, "seed": self.seed, "tier": self.tier,
                           "rejected": r, "case": case}, f, indent=1)
            e = r.get("event")
            what = ""
            if isinstance(e, int) and "ev" in case and 0 < e <= len(case["ev"]):
                what = " event=%s" % json.dumps(shorten(case["ev"][e - 1]))[:300]
            print("# %s case %s%s" % (name, case.get("id"), what or " " + json.dumps(shorten(r))[:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if len(new) > 5:
            print("# and %d more rejected cases" % (len(new) - 5))
        return new

    def evidence(self, violations):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "models": self.models, "suites": self.suites, "samples": self.samples[:6],
                "explanation": self.plan["note"],
            },
            "assumptions": self.plan.get("assumes", []),
            "wall_s": round(time.time() - self.t0, 1), "violations": violations,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))


def crash_text(err):
    """The message and the stack of the goroutine that failed."""
    m = re.search(r"(?m)^(panic:|fatal error:|runtime: |HANG:)", err)
    return err[m.start() if m else 0:][:6000]


def shorten(v, depth=0):
    """Byte strings as text, long ones cut."""
    if isinstance(v, list):
        if len(v) > 3 and all(isinstance(x, int) and 0 <= x < 256 for x in v):
            s = bytes(v)
            t = s[:60].decode("latin-1")
            return t if len(s) <= 60 else t + "... (%d bytes)" % len(s)
        return [shorten(x, depth + 1) for x in v[:8]] + (["... %d more" % (len(v) - 8)] if len(v) > 8 else [])
    if isinstance(v, dict):
        return {k: shorten(x, depth + 1) for k, x in v.items()}
    return v


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop == "setup":
        d = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print("ok")
        return 0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    c = Check(prop, tier)
    try:
        rc = c.run()
        print("property=%s tier=%s states=%d traces=%d wall=%.1fs %s" % (
            prop, tier, c.states, c.traces, time.time() - c.t0, "held" if rc == 0 else "VIOLATED"))
        return rc
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.scratch, ignore_errors=True)
        else:
            print("kept", c.scratch)


if __name__ == "__main__":
    sys.exit(main())
