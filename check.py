#!/usr/bin/env python3
"""Decides one property: check.py <id> [--tier quick|thorough] [--seed N] [--replay FILE]

1. builds the harness against /repo's working tree;
2. model checks what the property means on the specification (TLC, small worlds; thorough
   also has TLAPS go through the proofs that it holds there of everything);
3. records traces of the real library and checks them against the specification (TLC);
4. has TLC generate behaviours of the specification and does them with the real library.

Exit 0: held on everything explored; 1: VIOLATION line; 2: could not tell.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import leaptable  # noqa: E402
import plan  # noqa: E402
import tzif  # noqa: E402

SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
OUT = os.path.join(ROOT, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GUARD = "momentous_verif"


class Trouble(Exception):
    """The check itself could not be done."""


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = plan.PROPERTIES[prop]
        self.thorough = tier == "thorough"
        self.dir = tempfile.mkdtemp(prefix="check-%s-" % prop, dir=self.scratch())
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.events = self.behaviours = self.steps = 0
        self.samples, self.notes, self.models = [], [], []
        self.unlike = 0  # runs of threads that were judged on their own
        self.found, self.known, self.beside = [], [], {}
        self.hung = False
        self.started = time.time()

    @staticmethod
    def scratch():
        d = os.path.join(BUILD, "scratch")
        os.makedirs(d, exist_ok=True)
        return d

    # ---- building ----
    def build(self, bins, profile="release"):
        features = "hooked" in bins
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target-hooked" if features else "target"))
        env.pop("RUSTFLAGS", None)
        if features:
            env["RUSTFLAGS"] = "--cfg " + GUARD
        cmd = ["cargo", "build", "--offline", "--profile", profile, "--quiet"]
        for b in bins:
            cmd += ["--bin", b]
        if features:
            cmd += ["--features", "hooks"]
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise Trouble("harness does not build:\n" + r.stderr[-4000:])
        return os.path.join(env["CARGO_TARGET_DIR"], profile)

    # ---- TLC ----
    def tlc(self, module, cfg, workers=1, heap="2g", env=None, args=(), timeout=840):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + meta, "-cp", JARS,
               "tlc2.TLC", "-noTE", "-metadir", meta, "-workers", str(workers), "-config", cfg, *args, module + ".tla"]
        if not self.thorough:
            cmd.insert(1, "-XX:TieredStopAtLevel=4")
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, text=True,
                               timeout=timeout if not self.thorough else 6 * 3600)
        except subprocess.TimeoutExpired:
            raise Trouble("TLC did not finish: %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.stdout + r.stderr

    def prove(self, m):
        """Proofs of what the specification says, of everything there is. They are about the
        specification alone, which is fixed: a prover that does not get there (it has a time
        limit for each step) leaves the small worlds, and says nothing against the code."""
        for module in m["proof"]:
            said = ""
            for stretch in ("3", "10"):
                cache = tempfile.mkdtemp(prefix="tlapm-", dir=self.dir)
                try:
                    r = subprocess.run(["timeout", "-k", "5", "1800", "tlapm", "--strict", "--threads", "4", "--stretch", stretch,
                                        "--cache-dir", cache, module + ".tla"], cwd=SPEC, capture_output=True, text=True)
                    said = r.stdout + r.stderr
                except OSError as e:
                    said = str(e)
                finally:
                    shutil.rmtree(cache, ignore_errors=True)
                done = re.search(r"All (\d+) obligations? proved", said)
                if done:
                    break
            with self.lock:
                if done:
                    self.models.append({"specification": module, "world": "all of it (TLAPS)", "checked": m["checked"],
                                        "obligations_proved": int(done[1])})
                else:
                    self.notes.append("%s was not proved in this run: %s" % (module, said[-300:]))

    def model(self, m):
        """Exhaustive check of a specification in a small world."""
        if "proof" in m:
            return self.prove(m)
        cfg = os.path.join(self.dir, "%s-%d.cfg" % (m["module"], id(m)))
        with open(cfg, "w") as f:
            f.write(m["cfg"])
        out = self.tlc(m["module"], cfg, workers=m.get("workers", 4), heap=m.get("heap", "3g"))
        if m.get("fails"):
            # a world in which the law must not hold, or it would say nothing
            if "Invariant %s is violated" % m["fails"] not in out:
                raise Trouble("the law %s of %s excludes nothing:\n%s" % (m["fails"], m["module"], out[-2000:]))
            with self.lock:
                self.models.append({"specification": m["module"], "world": m["world"], "checked": m["checked"], "violated_as_it_must_be": True})
            return out
        if "No error has been found" not in out:
            raise Trouble("the specification fails its own check (%s):\n%s" % (m["module"], out[-3000:]))
        g = re.findall(r"(\d+) states generated, (\d+) distinct", out)[-1]
        with self.lock:
            self.transitions += int(g[0])
            self.states += int(g[1])
            self.models.append({"specification": m["module"], "world": m["world"], "checked": m["checked"],
                                "distinct_states": int(g[1]), "states_generated": int(g[0]), "exhaustive": True})
        return out

    # ---- traces of the real library ----
    def record(self, d, binary, shard, of, extra=(), env=None):
        path = os.path.join(self.dir, "%s-%s-%s-%s-%s.ndjson" % (d["driver"] + d.get("note", ""), os.path.basename(os.path.dirname(binary)), os.path.basename((env or {}).get("TZDIR", "installed")), shard, "".join(d.get("args", ()))))
        cmd = [binary, d["driver"], "--shard", str(shard), "--of", str(of), "--tier", self.tier,
               "--seed", str(self.seed), "--table", self.table, "--out", path, *extra]
        died = None
        if self.hung:  # one run that does not come to an end is enough
            return None
        try:
            r = subprocess.run(cmd, env=dict(os.environ, **(env or {})), capture_output=True, text=True,
                               timeout=150 if not self.thorough else 3600)
            if r.returncode != 0:
                died = "the program ended with status %d: %s" % (r.returncode, r.stderr[-500:])
        except subprocess.TimeoutExpired:
            self.hung = True
            died = "the program did not come to an end"
        if died:
            self.violation({"driver": d["driver"], "profile": os.path.basename(os.path.dirname(binary)), "shard": shard, "of": of, "aspects": ["died"], "what": died}, None)
            return None
        return path

    def trace(self, d, binary, shard, of, extra=(), env=None):
        path = self.record(d, binary, shard, of, extra, env)
        if path is None:
            return
        lines = sum(1 for _ in open(path, "rb"))
        rejects = self.judge(d, path)
        for line, aspects in rejects:
            self.reject(d, binary, path, line, list(aspects), shard, of)
        with self.lock:
            self.traces += 1
            self.events += lines
            if shard == 0 or len(self.samples) < 2:
                self.samples.append({"driver": d["driver"], "accepted": not rejects,
                                     "events": [json.loads(x) for x in self.some_lines(path, lines)]})
        os.unlink(path)

    def together(self, d, binary, shard, of, extra=(), env=None):
        """The same calls by threads at once and by one after the other."""
        run = lambda mode, k: self.record(dict(d, note="%s-%d" % (mode, k)), binary, shard, of,  # noqa: E731
                                          ("--mode", mode, "--threads", str(d["threads"]), *extra), env)
        alone = run("alone", 0)
        if alone is None:
            return
        text = open(alone, "rb").read()
        known = set(self.judge(d, alone))
        for k in range(d["runs"][1 if self.thorough else 0]):
            if len(self.found) > 8:
                break
            path = run("together", k)
            if path is None:
                return
            # line by line the same calls; the same answers need not be judged again
            same = open(path, "rb").read() == text
            if not same:
                with self.lock:
                    self.unlike += 1
                for line, aspects in self.judge(d, path):
                    if (line, aspects) not in known:
                        self.reject(d, binary, path, line, list(aspects), shard, of)
            with self.lock:
                self.traces += 1
                self.events += text.count(b"\n")
            os.unlink(path)
        with self.lock:
            if known:
                self.beside["single thread"] = self.beside.get("single thread", 0) + len(known)
            if shard == 0:
                lines = text.count(b"\n")
                self.samples.append({"driver": d["driver"], "accepted": not known, "events": [json.loads(x) for x in self.some_lines(alone, lines)]})
        os.unlink(alone)

    def judge(self, d, path):
        lines = sum(1 for _ in open(path, "rb"))
        out = self.tlc(d["spec"], d["spec"] + ".cfg", heap="3g", env={"TRACE": path})
        rejects = [(int(m[1]), tuple(sorted(set(re.findall(r'\\?"(\w+)\\?"', m[2])))))
                   for m in re.finditer(r'"REJECT (\d+) (\{.*?\})"', out)]
        if lines == 0 or '"CONSUMED %d"' % lines not in out and not rejects:
            raise Trouble("TLC could not check the trace of %s:\n%s" % (d["driver"], out[-3000:]))
        return rejects

    @staticmethod
    def some_lines(path, n):
        want = {1, 2, 3, n // 3, n // 2, n - 1}
        return [x[:600] for i, x in enumerate(open(path)) if i in want and len(x) < 600]

    def reject(self, d, binary, path, line, aspects, shard, of):
        with open(path) as f:
            lines = f.read().splitlines()
        event = json.loads(lines[line - 1])
        mine = [a for a in aspects if self.relevant(a, event)]
        if not mine:
            with self.lock:
                for a in aspects:
                    self.beside[a] = self.beside.get(a, 0) + 1
            return
        # the part of the trace that shows it: the table, and everything since the last fresh start
        start = line - 1
        while start > 0 and event["e"] in ("op", "bset", "bbuild", "walk", "next", "prev", "adv", "rev", "set") \
                and json.loads(lines[start])["e"] not in ("from", "bnew", "walkfrom", "new"):
            start -= 1
        head = [x for x in lines[:start] if x.startswith('{"e":"table"')][-1:]
        self.violation({"driver": d["driver"], "profile": os.path.basename(os.path.dirname(binary)), "specification": d["spec"], "shard": shard, "of": of,
                        "aspects": mine, "all_aspects": aspects, "line": line, "event": event},
                       head + lines[start:line])

    def relevant(self, aspect, event):
        if aspect in ("died", "load"):
            return True
        want = self.plan["aspects"]
        if event.get("e") == "op" and "ops" in self.plan and event["o"] not in self.plan["ops"]:
            return False
        return want is None or any(re.fullmatch(w, aspect) for w in want)

    # ---- behaviours generated from the specification ----
    def generate(self, g, k, count, table):
        env = {"LEAPTABLE": table, "LENGTH": str(g.get("length", 20))}
        args = ["-simulate", "num=%d" % count, "-depth", str(g.get("length", 20)), "-seed", str(self.seed * 1000 + k)]
        out = self.tlc(g["module"], g["module"] + ".cfg", env=env, args=args)
        rows = re.findall(r'"BEHAVIOUR (<<.*?>>)"', out)
        if not rows:
            raise Trouble("no behaviours from %s:\n%s" % (g["module"], out[-2000:]))
        return rows

    def replay_rows(self, g, rows, binary, k, extra=(), env=None):
        path = os.path.join(self.dir, "%s-%d.behaviours" % (g["driver"], k))
        with open(path, "w") as f:
            f.write("\n".join(rows) + "\n")
        seen = self.record(g, binary, 100 + k, 1, extra=("--behaviours", path, *extra), env=env)
        if seen is None:
            return
        text = open(seen).read()
        if "CONSUMED %d" % len(rows) not in text:
            raise Trouble("replay of %s did not finish" % g["driver"])
        for m in re.finditer(r"^REJECT (\d+) (\d+) (.*)$", text, re.M):
            what, _, at = m[3].partition(" @ ")
            op = re.match(r"op (\d+) ", at)
            event = {"e": "op", "o": plan.OPS.get(int(op[1]), "other")} if op else {"e": "replay"}
            mine = [a for a in what.split() if self.relevant(a, event)]
            if mine:
                nums = [int(x) for x in re.findall(r"-?\d+", rows[int(m[1])])]
                self.violation({"driver": g["driver"], "behaviour": nums[: g["width"] * (int(m[2]) + 1)],
                                "step": int(m[2]), "aspects": mine, "what": m[3]}, None)
            else:
                with self.lock:
                    for a in what.split():
                        self.beside[a] = self.beside.get(a, 0) + 1
        with self.lock:
            self.behaviours += len(rows)
            self.steps += sum(len(re.findall(r"-?\d+", r)) // g["width"] for r in rows)
            if k == 0:
                self.samples.append({"replayed": g["driver"], "behaviour": [int(x) for x in re.findall(r"-?\d+", rows[0])][:84]})

    # ---- verdicts ----
    def violation(self, v, trace):
        with self.lock:
            for k in KNOWN:
                if k["property"] == self.prop and all(v.get("event", {}).get(a) == b for a, b in k["event"].items()):
                    self.known.append(k["what"])
                    return
            v.update(property=self.prop, tier=self.tier, seed=self.seed, trace=trace,
                     rerun="VERIF_SEED=%d python3 check.py %s --tier %s" % (self.seed, self.prop, self.tier))
            self.found.append(v)

    def finish(self):
        wall = round(time.time() - self.started, 1)
        with self.lock:
            cover = {"states": self.states, "transitions": self.transitions,
                     "traces_validated_against_impl": self.traces + self.behaviours,
                     "trace_events_checked": self.events, "generated_behaviours_replayed": self.behaviours,
                     "generated_steps_replayed": self.steps,
                     "samples": self.samples[:4] or ["none recorded"], "models": self.models,
                     "deviations_of_other_properties": self.beside, "thread_runs_unlike_alone": self.unlike, "notes": self.notes}
            doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                   "coverage": cover, "assumptions": plan.ASSUMPTIONS + self.plan.get("assumptions", []),
                   "wall_s": wall, "violations": len(self.found)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        for w in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if self.found:
            d = os.path.join(OUT, self.prop)
            os.makedirs(d, exist_ok=True)
            best = {}
            for v in sorted(self.found, key=lambda v: len(json.dumps(v))):
                best.setdefault(tuple(v["aspects"]), v)
            for i, v in enumerate(best.values()):
                path = os.path.join(d, "violation-%d.json" % i)
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  %s: %s" % (",".join(v["aspects"]), v.get("what") or json.dumps(v.get("event"))[:400]))
            return 1
        print("%s held: %d specification states, %d trace events in %d traces, %d generated behaviours (%d steps), %.0f s"
              % (self.prop, self.states, self.events, self.traces, self.behaviours, self.steps, wall))
        return 0

    # ---- everything ----
    def go(self):
        self.table = os.path.join(self.dir, "leap.json")
        zoneinfo = os.environ.get("TZDIR", "/usr/share/zoneinfo")
        json.dump(leaptable.read(os.path.join(zoneinfo, "right", "UTC")), open(self.table, "w"))
        p = self.plan
        bins = sorted({d["bin"] for d in p["drivers"] + p["generators"]})
        with cf.ThreadPoolExecutor(8) as pool:
            jobs = [pool.submit(self.model, m) for m in plan.models(self.prop, self.thorough)]
            gens = []
            for g in p["generators"]:
                n = g["runs"][1 if self.thorough else 0]
                if g.get("exhaustive"):
                    gens.append((g, 0, pool.submit(self.exhaust, g)))
                else:
                    # every other run of the generator gets a leap-second table of its own
                    own = tzif.write_tables(os.path.join(self.dir, "gen-" + g["driver"]), n[0] // 2, self.seed + 1)
                    for k in range(n[0]):
                        if k % 2:
                            tz, zone, table = own[k // 2]
                            g1 = dict(g, extra=("--table", table, "--zone", zone), env={"TZDIR": tz})
                        else:
                            g1, table = g, self.table
                        gens.append((g1, k, pool.submit(self.generate, g, k, n[1], table)))
            missing = set()
            try:
                where = self.build(bins)
            except Trouble as t:
                alone = re.search(r"`[^`]*` cannot be (sent|shared) between threads safely", str(t))
                if "threads" in bins and alone:
                    self.build(["dt"])
                    self.violation({"driver": "threads", "aspects": ["threads"], "what": alone[0]}, None)
                    return self.finish()
                if "hooked" not in bins:
                    raise
                # The private items the hooks give access to are gone or changed their shape.
                self.notes.append("the hooks do not build against this tree; nothing was checked through them: " + str(t)[-1500:])
                print("note: the hooks do not build against this tree; no conformance checked through them", file=sys.stderr)
                missing = {"hooked"}
                bins = [b for b in bins if b != "hooked"]
                where = self.build(bins or ["dt"])
            # every other process is built without overflow checks and debug assertions, as users release it
            wrapping = self.build(bins or ["dt"], "wrapping")
            for d in p["drivers"]:
                if d["bin"] in missing:
                    continue
                binary = lambda k, d=d: os.path.join(wrapping if k % 2 else where, d["bin"])  # noqa: E731
                args, env = d.get("args", ()), d.get("env", {})
                trace = self.together if "runs" in d else self.trace
                if d.get("tables"):
                    n = d["tables"][1 if self.thorough else 0]
                    of = d["shards"][1 if self.thorough else 0]
                    for k, (tz, zone, table) in enumerate(tzif.write_tables(os.path.join(self.dir, "tables-%d" % p["drivers"].index(d)), n, self.seed)):
                        jobs.append(pool.submit(trace, d, binary(k), k % of, of,
                                                ("--table", table, "--zone", zone, "--salt", str(k), *args), dict(env, TZDIR=tz)))
                else:
                    of = d["shards"][1 if self.thorough else 0]
                    for s in range(of):
                        jobs.append(pool.submit(trace, d, binary(s), s, of, args, env))
            for g, k, f in gens:
                if g["bin"] not in missing:
                    jobs.append(pool.submit(lambda g=g, k=k, f=f: self.replay_rows(g, f.result(), os.path.join((where, wrapping)[k // 2 % 2], g["bin"]), k, g.get("extra", ()), g.get("env"))))
            trouble = []
            for j in cf.as_completed(jobs):
                try:
                    j.result()
                except Trouble as t:
                    trouble.append(str(t))
        if trouble and not self.found:
            raise Trouble("\n".join(trouble))
        return self.finish()

    def exhaust(self, g):
        out = self.model(dict(g["model"], workers=1))
        return re.findall(r'"BEHAVIOUR (<<.*?>>)"', out)


def known_findings():
    out = []
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\w+) event=(\{.*?\}) (.*)", line)
            if m:
                out.append({"property": m[1], "event": json.loads(m[2]), "what": m[3]})
    return out


def main():
    global KNOWN
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--replay", help="a violation file: repeats the run that found it")
    o = a.parse_args()
    if o.replay:
        v = json.load(open(o.replay))
        o.property, o.tier, o.seed = v["property"], v["tier"], v["seed"]
    KNOWN = known_findings()
    run = Run(o.property, o.tier, o.seed)
    try:
        return run.go()
    except Trouble as t:
        print("TROUBLE: %s" % t, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
