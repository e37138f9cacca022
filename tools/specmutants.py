#!/usr/bin/env python3
"""How tight the laws are: for every small change of the specification's operators, does TLC find a
law of the small worlds violated?  (A development tool, not a check.)

specmutants.py RESULTS [--jobs N] [--files SUBSTRING]
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
FILES = ["Gregorian", "LeapSeconds", "DateTimes", "Builder", "MomentOps", "Timeline", "Cursor", "BigInt", "Sharing"]
SWAPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r"\\div", ["%"]), (r" % ", [" \\div "]), (r" < ", [" <= "]), (r" <= ", [" < "]),
         (r" > ", [" >= "]), (r" >= ", [" > "]), (r" = (?!>)", [" # "]), (r" # ", [" = "]), (r"/\\", ["\\/"]), (r"\\/", ["/\\"]), (r"~", [""]),
         (r"\\A ", ["\\E "]), (r"\\E ", ["\\A "]), (r"\bTRUE\b", ["FALSE"]), (r"\bFALSE\b", ["TRUE"]), (r"\bLess\(", ["Leq("]), (r"\bLeq\(", ["Less("]),
         (r"\bPlus\(", ["Minus("]), (r"\bMinus\(", ["Plus("]), (r"\bLo\(", ["Hi("]), (r"\bHi\(", ["Lo("]), (r"\bMinYear\b", ["MaxYear"]), (r"\bMaxYear\b", ["MinYear"]),
         (r"\b(SPM|MPH|HPD|MPD|SPD)\b", ["SPM", "MPH", "HPD", "MPD", "SPD"]), (r"(?<![A-Za-z_])\d+\b", ["+1", "-1"])]


def mutants(sub):
    for f in FILES:
        if sub not in f:
            continue
        lines = open(os.path.join(ROOT, "spec", f + ".tla")).read().split("\n")
        started = False
        for i, l in enumerate(lines):
            code = re.sub(r"\(\*.*?\*\)|\\\*.*", lambda m: " " * len(m[0]), l)
            if re.match(r"\s*\(\*|\s*\*|----|====|EXTENDS|CONSTANT|VARIABLE|LOCAL|\s*$", code) or "CONSTANTS" in l:
                continue
            started = started or "==" in code
            if not started:
                continue
            body = code.index("==") + 2 if re.match(r"\S.*==", code) and "==" in code else 0
            for pat, reps in SWAPS:
                for m in re.finditer(pat, code):
                    if m.start() < body:
                        continue
                    for r in reps:
                        if r in ("+1", "-1"):
                            n = int(m[0]) + int(r)
                            if n < 0:
                                continue
                            r = str(n)
                        if r == m[0]:
                            continue
                        yield f, i, l[:m.start()] + r + l[m.end():], "%s -> %s" % (m[0].strip(), r.strip())


def worlds():
    """module -> the smallest configuration with all that is checked of it"""
    out = {}
    for prop in plan.PROPERTIES:
        for m in plan.models(prop, False) + [g["model"] for g in plan.PROPERTIES[prop]["generators"] if g.get("model")]:
            if m.get("fails"):
                continue
            if m["module"] == "MCMomentWorld":
                m = plan.world([], (), "tiny")
            inv = set(re.findall(r"\w+", " ".join(re.findall(r"^INVARIANTS (.*)$", m["cfg"], re.M))))
            key = re.sub(r"^(INVARIANTS|PROPERTIES) .*\n", "", m["cfg"], flags=re.M)
            o = out.setdefault((m["module"], key), [set(), set()])
            o[0] |= inv
            o[1] |= set(re.findall(r"\w+", " ".join(re.findall(r"^PROPERTIES (.*)$", m["cfg"], re.M))))
    # the laws of the moments in the tiny world, whatever size they are checked in
    for prop in plan.PROPERTIES:
        for m in plan.models(prop, False):
            if m["module"] == "MCMomentWorld":
                key = next(k for k in out if k[0] == "MCMomentWorld")
                out[key][0] |= set(re.findall(r"\w+", " ".join(re.findall(r"^INVARIANTS (.*)$", m["cfg"], re.M))))
                out[key][1] |= set(re.findall(r"\w+", " ".join(re.findall(r"^PROPERTIES (.*)$", m["cfg"], re.M))))
    res = []
    for (mod, key), (inv, prop) in out.items():
        res.append((mod, key + ("INVARIANTS %s\n" % " ".join(sorted(inv)) if inv else "") + ("PROPERTIES %s\n" % " ".join(sorted(prop)) if prop else "")))
    return res


def uses(spec, mod, seen=None):
    """modules a module draws on"""
    seen = seen if seen is not None else set()
    if mod in seen or not os.path.exists(os.path.join(spec, mod + ".tla")):
        return seen
    seen.add(mod)
    t = open(os.path.join(spec, mod + ".tla")).read()
    for m in re.findall(r"EXTENDS ([\w, \n]+?)\n(?=\S|\n)", t) + re.findall(r"INSTANCE (\w+)", t):
        for x in re.findall(r"\w+", m):
            uses(spec, x, seen)
    return seen


def run(spec, mod, cfg, timeout=600):
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, "x.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["timeout", str(timeout), "java", "-Xmx3g", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JARS, "tlc2.TLC", "-noTE", "-metadir", d, "-workers", "1",
               "-config", os.path.join(d, "x.cfg"), mod + ".tla"]
        r = subprocess.run(cmd, cwd=spec, capture_output=True, text=True)
    out = r.stdout + r.stderr
    if "No error has been found" in out:
        return None
    m = re.search(r"(Invariant|property|Action property|Temporal properties) ?(\w*) ?.*violated", out)
    if m:
        return m[0]
    if r.returncode == 124:
        return "does not end"
    if "parse" in out.lower() or "semantic error" in out.lower():
        return "does not parse"
    return "evaluation fails"


def main():
    a = argparse.ArgumentParser()
    a.add_argument("results"); a.add_argument("--jobs", type=int, default=7); a.add_argument("--files", default="")
    o = a.parse_args()
    ws = worlds()
    spec0 = os.path.join(ROOT, "spec")
    ws = [(m, c, uses(spec0, m)) for m, c in ws]
    done = {tuple(json.loads(l)["key"]) for l in open(o.results)} if os.path.exists(o.results) else set()
    log = open(o.results, "a")
    ms = list(mutants(o.files))
    print(len(ms), "changes;", [(m, sorted(u)) for m, _, u in ws], flush=True)

    def one(m):
        f, i, new, what = m
        key = (f, i, what, new.strip())
        if key in done:
            return
        with tempfile.TemporaryDirectory() as d:
            spec = os.path.join(d, "spec")
            shutil.copytree(spec0, spec)
            p = os.path.join(spec, f + ".tla")
            lines = open(p).read().split("\n")
            old = lines[i]; lines[i] = new
            open(p, "w").write("\n".join(lines))
            verdict = None
            for mod, cfg, used in ws:
                if f in used:
                    v = run(spec, mod, cfg)
                    if v:
                        verdict = "%s: %s" % (mod, v)
                        break
            log.write(json.dumps({"key": key, "old": old.strip(), "new": new.strip(), "verdict": verdict or "SURVIVES"}) + "\n")
            log.flush()
    with cf.ThreadPoolExecutor(o.jobs) as pool:
        list(pool.map(one, ms))


if __name__ == "__main__":
    main()
