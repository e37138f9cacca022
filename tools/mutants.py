#!/usr/bin/env python3
"""How sensitive the recorded traces are: for every small change of the library's source that
compiles and passes its tests, does any driver's trace change?  (A development tool, not a check:
a trace that differs is judged by the specification, which has one answer for almost every call.)

mutants.py WORKDIR RESULTS [--jobs N] [--sample N] [--files SUBSTRING]
Works on copies of /repo and of the harness under WORKDIR.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, queue, random, re, resource, shutil, signal, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import leaptable, plan, tzif  # noqa: E402

FILES = ["src/duration.rs", "src/gregorian_normalized_date.rs", "src/instant.rs", "src/scale.rs", "src/slice_cursor.rs", "src/widen.rs",
         "src/zoneinfo.rs", "src/div_rem.rs", "src/iso8601/chronology.rs", "src/iso8601/date_time.rs", "src/iso8601/date_time_builder.rs", "src/iso8601/precision.rs"]
SWAPS = [(r"(?<![<>=\-])<(?![<=>A-Za-z])", ["<="]), (r"<=", ["<"]), (r"(?<![-=>])>(?![>=])(?= )", [">="]), (r"(?<!>)>=", [">"]),
         (r"==", ["!="]), (r"!=", ["=="]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
         (r"\+=", ["-="]), (r"-=", ["+="]), (r"&&", ["||"]), (r"\|\|(?! [a-z_]+[.(])", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
         (r"<<", [">>"]), (r">>", ["<<"]), (r" & ", [" | "]), (r" \| ", [" & "]), (r"(?<=[(=] )-(?=[a-z0-9(])", [""]),
         (r"\.div_floor\(", [".div("]), (r"div_euclid", ["wrapping_div"]), (r"rem_euclid", ["wrapping_rem"]), (r"div_mod_floor", ["div_rem"]), (r"mod_floor", ["rem"]),
         (r"checked_add", ["checked_sub"]), (r"checked_sub", ["checked_add"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\.floor\(\)", [".ceil()", ".trunc()"]), (r"\.ceil\(\)", [".floor()", ".trunc()"]),
         (r"is_some", ["is_none"]), (r"is_none", ["is_some"]), (r"\bfirst\b", ["last"]), (r"\blast\b", ["first"]),
         (r"as i64", ["as i32 as i64"]), (r"as i32", ["as i16 as i32", "as u16 as i32"]), (r"as u32", ["as u16 as u32"]), (r"as u16", ["as u8 as u16"]), (r"as u8", ["as i8 as u8"]),
         (r"\bi64\b", ["i32"]), (r"\bLess\b", ["Greater"]), (r"\bGreater\b", ["Less"]), (r"\bSome\(([a-z_]+)\)(?=$|\s*$)", ["None"]),
         (r"\b\d[\d_]*\b", ["+1", "-1"])]


def mutants():
    for f in FILES:
        lines = open(os.path.join("/repo", f)).read().split("\n")
        tests = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
        inside = False
        for i, l in enumerate(lines[:tests]):
            s = l.strip()
            if "/*" in s:
                inside = True
            if inside:
                inside = "*/" not in s
                continue
            if not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "extern")):
                continue
            code = l.split(" //")[0]
            for pat, reps in SWAPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        if r in ("+1", "-1"):
                            if code[m.start() - 1:m.start()] in ("'", "<", "{") and not code[m.start():].startswith("0"):
                                pass
                            n = int(m[0].replace("_", "")) + int(r)
                            if n < 0:
                                continue
                            r = str(n)
                        yield f, i, code[:m.start()] + r + code[m.end():], "%s -> %s" % (m[0], r)
            m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", code)
            if m:
                yield f, i, m[1] + "true" + m[3], "condition true"
                yield f, i, m[1] + "false" + m[3], "condition false"
            if re.match(r"\s+[a-z_.]+(\(.*\)| [-+|&*]?= .*);$", code) and not s.startswith(("let", "return")):
                yield f, i, "", "statement removed"


def sh(cmd, cwd, env=None, timeout=600):
    """Like subprocess.run; at the timeout everything started ends."""
    limit = lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))  # noqa: E731
    with subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, preexec_fn=limit) as p:
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


class Worker:
    def __init__(self, base, k):
        self.dir = os.path.join(base, "w%d" % k)
        os.makedirs(self.dir, exist_ok=True)
        self.repo, self.harness = os.path.join(self.dir, "repo"), os.path.join(self.dir, "harness")
        sh(["rsync", "-a", "--delete", "/repo/", self.repo + "/"], "/") if shutil.which("rsync") else shutil.copytree("/repo", self.repo, dirs_exist_ok=True)
        shutil.copytree(os.path.join(ROOT, "harness"), self.harness, dirs_exist_ok=True)
        p = os.path.join(self.harness, "Cargo.toml")
        t = open(p).read().replace('path = "/repo"', 'path = "%s"' % self.repo)
        t = t.replace("opt-level = 1", "opt-level = 0")
        open(p, "w").write(t)
        self.env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(self.dir, "target"), RUSTFLAGS="--cfg momentous_verif -Awarnings")
        self.plainenv = dict(os.environ, CARGO_TARGET_DIR=os.path.join(self.dir, "target-test"), RUSTFLAGS="-Awarnings")
        for f in FILES:
            os.utime(os.path.join(self.repo, f))
        self.out = os.path.join(self.dir, "out")
        os.makedirs(self.out, exist_ok=True)
        self.table = os.path.join(self.dir, "leap.json")
        json.dump(leaptable.read("/usr/share/zoneinfo/right/UTC"), open(self.table, "w"))
        self.tables = tzif.write_tables(os.path.join(self.dir, "tables"), 11, 1)

    def tests(self):
        r = sh(["cargo", "test", "--offline", "--quiet", "--lib"], self.repo, self.plainenv, 120)
        if "error" in r.stderr and "could not compile" in r.stderr:
            return None
        return r.returncode == 0

    def build(self):
        return sh(["cargo", "build", "--offline", "--release", "--quiet", "--bin", "dt", "--bin", "tl", "--bin", "hooked", "--features", "hooks"], self.harness, self.env)

    def traces(self):
        """driver -> digest of what it records"""
        seen = {}
        for prop, p in plan.PROPERTIES.items():
            for d in p["drivers"]:
                if d["bin"] == "threads":
                    continue
                runs = [(s, self.table, (), {}) for s in range(d["shards"][0])]
                if d.get("tables"):
                    runs = [(k % d["shards"][0], t, ("--zone", z, "--salt", str(k)), {"TZDIR": tz}) for k, (tz, z, t) in enumerate(self.tables)]
                runs = runs[:2] if not d.get("tables") else runs[:3]
                h = hashlib.sha256()
                for s, t, extra, env in runs:
                    o = os.path.join(self.out, "trace")
                    of = d["shards"][0]
                    try:
                        r = sh([os.path.join(self.dir, "target/release", d["bin"]), d["driver"], "--shard", str(s), "--of", str(of), "--tier", "quick", "--seed", "1",
                                "--table", t, "--out", o, *extra, *d.get("args", ())], self.dir, dict(os.environ, **d.get("env", {}), **env), 20)
                        h.update(b"%d" % r.returncode)
                        h.update(open(o, "rb").read())
                    except subprocess.TimeoutExpired:
                        return {prop: ["timeout"]}
                seen.setdefault(prop, []).append(h.hexdigest()[:16])
        return seen


def main():
    a = argparse.ArgumentParser()
    a.add_argument("work"); a.add_argument("results"); a.add_argument("--jobs", type=int, default=8)
    a.add_argument("--sample", type=int); a.add_argument("--files", default="")
    o = a.parse_args()
    all_ = [m for m in mutants() if o.files in m[0]]
    if o.sample:
        random.Random(1).shuffle(all_)
        all_ = all_[:o.sample]
    done = set()
    if os.path.exists(o.results):
        done = {tuple(json.loads(l)["key"]) for l in open(o.results)}
    print(len(all_), "changes", flush=True)
    pool, free = cf.ThreadPoolExecutor(o.jobs), queue.Queue()
    for w in pool.map(lambda k: Worker(o.work, k), range(o.jobs)):
        free.put(w)
    def prepare(w):
        w.tests(); r = w.build()
        assert r.returncode == 0, r.stderr[-2000:]
        return w.traces()
    ws = [free.get() for _ in range(o.jobs)]
    bases = list(pool.map(prepare, ws))
    assert all(b == bases[0] for b in bases), "traces are not reproducible"
    base = bases[0]
    for w in ws:
        free.put(w)
    log = open(o.results, "a")

    def one(m):
        f, i, new, what = m
        key = (f, i, what, hashlib.sha256(new.encode()).hexdigest()[:8])
        if key in done:
            return
        w = free.get()
        p = os.path.join(w.repo, f)
        text = open(os.path.join("/repo", f)).read()
        try:
            lines = text.split("\n")
            old = lines[i]; lines[i] = new
            open(p, "w").write("\n".join(lines))
            r = {"key": key, "old": old.strip(), "new": new.strip()}
            try:
                t = w.tests()
            except subprocess.TimeoutExpired:
                t = False
            if t is None:
                r["verdict"] = "does not compile"
            elif not t:
                r["verdict"] = "tests fail"
            else:
                b = w.build()
                if b.returncode:
                    r["verdict"] = "harness does not build"
                else:
                    seen = w.traces()
                    r["seen"] = [x for x in seen if base[x] != seen[x]]
                    r["verdict"] = "seen" if r["seen"] else "SURVIVES"
            log.write(json.dumps(r) + "\n"); log.flush()
        finally:
            open(p, "w").write(text)
            free.put(w)
    list(pool.map(one, all_))


if __name__ == "__main__":
    main()
