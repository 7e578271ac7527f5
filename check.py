#!/usr/bin/env python3-vt
"""Decides one property on the current tree of /repo.

Usage: check.py PROPERTY [quick|thorough]

Compiles /repo's sources, generates and discharges the proof obligations of the property's units from the class
files, runs the executable contracts against the same classes, and reports.
"""
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)

EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
JDK = "/usr/lib/jvm/java-%d-openjdk-amd64/bin/java"


def compile_repo(out):
    src = os.path.join(REPO, "src/main/java")
    files = []
    for d, _, fs in os.walk(src):
        files += [os.path.join(d, f) for f in fs if f.endswith(".java") and f != "module-info.java"]
    os.makedirs(out)
    lst = out + ".files"
    with open(lst, "w") as f:
        f.write("\n".join('"%s"' % x for x in sorted(files)))
    for opts in (["--release", "8"], []):
        r = subprocess.run(["javac"] + opts + ["-g", "-encoding", "UTF-8", "-nowarn", "-proc:none", "-d", out, "@" + lst],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return
    print(r.stdout[-3000:])
    raise SystemExit("the sources of %s do not compile" % REPO)


def compile_oracle(cls, out):
    os.makedirs(out)
    src = [os.path.join(HERE, "oracle/vo", f) for f in sorted(os.listdir(os.path.join(HERE, "oracle/vo"))) if f.endswith(".java")]
    for opts in (["--release", "8"], []):
        r = subprocess.run(["javac"] + opts + ["-encoding", "UTF-8", "-nowarn", "-proc:none", "-cp", cls, "-d", out] + src,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return None
    return r.stdout[-2000:]


def java(ver):
    p = JDK % ver
    return p if os.path.exists(p) else "java"


def unit_worker(q, name, clsdir, budget, second):
    """Runs one proof unit in its own process."""
    t0 = time.time()
    res = {"unit": name, "obs": [], "undecided": None, "cases": [], "functions": [], "contracts": [], "inlined": [], "trusted": [], "notes": []}
    try:
        sys.setrecursionlimit(20000)
        from vf import classfile, smt, engine, units
        engine.DEADLINE[0] = t0 + budget
        smt.SECOND[0] = second
        prog = classfile.Program(clsdir)
        fn = units.ALL[name]
        E = None
        try:
            E = fn(prog)
            engines = E if isinstance(E, list) else [E]
        except engine.Unsupported as e:
            res["undecided"] = str(e) or type(e).__name__
            engines = list(engine.CREATED)
        except RecursionError:
            res["undecided"] = "recursion"
            engines = list(engine.CREATED)
        except Exception as e:
            res["undecided"] = "internal: %s: %s" % (type(e).__name__, e)
            res["trace"] = traceback.format_exc()[-2500:]
            engines = list(engine.CREATED)
        res["functions"] = list(getattr(fn, "functions", []))
        for E in engines:
            for o in E.obs:
                d = {"name": o.name, "status": o.status, "weak": list(o.weak)}
                if o.status != "proved":
                    d["model"] = str(o.model)[:1500] if o.model is not None else ""
                    d["goal"] = str(o.goal)[:1500] if o.goal is not None else ""
                    if o.model is not None and o.status == "refuted":
                        try:
                            cand = getattr(o, "cand", None) or getattr(E, "candidates", None)
                            res["cases"] += cand(o.model) if cand else []
                        except Exception as e:
                            res["notes"].append("candidate: %s" % e)
                res["obs"].append(d)
            res["functions"] += sorted(E.roots)
            res["contracts"] += sorted(E.used)
            res["inlined"] += sorted(E.inlined)
            res["trusted"] += sorted(E.trusted)
            res["notes"] += sorted(E.notes)
        res["solver"] = dict(smt.STATS)
    except BaseException as e:
        res["undecided"] = "internal: %s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-2500:]
    res["wall"] = time.time() - t0
    q.put(res)


def run_units(names, clsdir, budget, jobs, second=False, end=None):
    """Runs the units side by side; with an end, whatever is not finished by then is undecided."""
    from vf import table
    ctx = multiprocessing.get_context("fork")
    todo, running, results = list(names), {}, {}
    t_start = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            n = todo.pop(0)
            q = ctx.Queue()
            b = max(budget, table.BUDGET.get(n, 0)) * (3 if second else 1)
            if end:
                b = max(1, min(b, end - time.time()))
            p = ctx.Process(target=unit_worker, args=(q, n, clsdir, b, second), daemon=True)
            p.start()
            running[n] = (p, q, time.time(), b)
        time.sleep(0.02)
        for n, (p, q, t, b) in list(running.items()):
            r = None
            try:
                r = q.get_nowait()
            except Exception:
                pass
            if r is None and not p.is_alive():
                try:
                    r = q.get(timeout=0.5)
                except Exception:
                    r = {"unit": n, "obs": [], "undecided": "process died", "cases": [], "wall": time.time() - t}
            if r is None and (time.time() - t > b + 60 or end and time.time() > end + 20):
                p.kill()
                r = {"unit": n, "obs": [], "undecided": "time", "cases": [], "wall": time.time() - t}
            if r is not None:
                results[n] = r
                p.join(1)
                if p.is_alive():
                    p.kill()
                del running[n]
    return results


class Oracle:
    """The executable contracts, run against the compiled classes."""

    def __init__(self, prop, cls, out, scratch, seed, tier, err):
        self.prop, self.cp, self.scratch, self.err = prop, out + ":" + cls, scratch, err
        self.procs = []
        self.quick = tier == "quick"
        self.cases = 0
        self.fail = None
        self.samples = []
        if err:
            return
        ms, count = (14000, 250000) if tier == "quick" else (420000, 100000000)
        runs = [(17, seed), (21, seed + 101), (8, seed + 202)]
        if tier != "quick":
            runs += [(25, seed + 303), (11, seed + 404)]
        for ver, s in runs:
            if ver == 17 or os.path.exists(JDK % ver):
                self.procs.append((ver, subprocess.Popen([java(ver), "-Xss4m", "-XX:+UseSerialGC", "-Xmx2g", "-cp", self.cp, "vo.Main", "run", prop, str(s), str(count), str(ms)],
                                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))

    def collect(self):
        for ver, p in self.procs:
            try:
                out, _ = p.communicate(timeout=60 if self.quick else 900)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
            self.take(ver, p.returncode, out)
        self.procs = []

    def take(self, ver, rc, out):
        for m in re.finditer(r"^(?:CASES|CANDIDATES) (\d+)", out, re.M):
            self.cases += int(m.group(1))
        m = re.search(r"^FAIL (.*)\nWHY (.*)", out, re.M)
        if m:
            if self.fail is None:
                self.fail = (m.group(1), m.group(2), ver)
        elif rc != 0:
            self.err = self.err or "oracle on Java %d ended with %s: %s" % (ver, rc, out[-1500:])

    def candidates(self, lines):
        if self.err or not lines:
            return
        f = os.path.join(self.scratch, "cand.txt")
        with open(f, "w") as h:
            h.write("\n".join(lines) + "\n")
        for ver in (17, 21, 8):
            if ver != 17 and not os.path.exists(JDK % ver):
                continue
            try:
                r = subprocess.run([java(ver), "-Xss4m", "-Xmx4g", "-cp", self.cp, "vo.Main", "lines", self.prop, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=75)
            except subprocess.TimeoutExpired:
                continue
            self.take(ver, r.returncode, r.stdout)
            if self.fail:
                return


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from vf import table
    cfg = table.PROPS[prop]
    own, deps = list(cfg["own"]), list(cfg.get("deps", []))
    budget = 240 if tier == "quick" else 1500
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    try:
        rc = decide(prop, tier, seed, t0, cfg, own, deps, budget, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def load_baseline():
    try:
        with open(os.path.join(HERE, "baseline.json")) as f:
            return json.load(f)
    except OSError:
        return {}


def decide(prop, tier, seed, t0, cfg, own, deps, budget, scratch):
    cls = os.path.join(scratch, "cls")
    compile_repo(cls)
    oracle_dir = os.path.join(scratch, "oracle")
    err = compile_oracle(cls, oracle_dir)
    oracle = Oracle(prop, cls, oracle_dir, scratch, seed, tier, err)
    names = own + [d for d in deps if d not in own]
    jobs = max(2, (os.cpu_count() or 4) - 1)
    results = run_units(names, cls, budget, jobs, tier == "thorough", t0 + 600 if tier == "quick" else None)
    cand = []
    for n in names:
        for c in results[n]["cases"]:
            if c not in cand:
                cand.append(c)
    oracle.candidates(cand[:3000])
    oracle.collect()

    baseline = load_baseline()
    ob_total = ob_ok = 0
    undecided, failed_own, failed_dep = [], [], []
    for n in names:
        r = results[n]
        if r["undecided"]:
            undecided.append((n, r["undecided"]))
        for o in r["obs"]:
            ob_total += 1
            if o["status"] == "proved":
                ob_ok += 1
            else:
                (failed_own if n in own else failed_dep).append((n, o))
    proved = not undecided and not failed_own and not failed_dep

    replay = os.path.join(EVIDENCE, "replay-%s.txt" % prop)
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    rc = 0
    lines = []
    if oracle.fail:
        rc = 1
        line, why, ver = oracle.fail
        body = ["property: %s" % prop, "java: %d" % ver, "case: %s" % line, "why: %s" % why, "",
                "Replay: compile /repo and /verif/oracle/vo, then: java -cp <oracle>:<classes> vo.Main replay <this file>", ""]
        for n, o in failed_own + failed_dep:
            body += ["failed obligation: [%s] %s (%s)" % (n, o["name"], o["status"]), "  model: %s" % o.get("model", "").replace("\n", " ")]
        open(replay, "w").write("\n".join(body) + "\n")
        for n, o in (failed_own + failed_dep)[:5]:
            lines.append("failed obligation [%s] %s" % (n, o["name"]))
        lines.append("failing input (Java %d): %s -- %s" % (ver, line, why))
        lines.append("VIOLATION property=%s replay=%s" % (prop, replay))
    else:
        hard = [(n, o) for n, o in failed_own if o["status"] == "refuted" and not o["weak"] and baseline.get(n) == "proved"]
        if hard:
            rc = 1
            body = ["property: %s" % prop, "No failing input was found; the obligations below held on the unchanged tree and fail now.", ""]
            for n, o in hard:
                body += ["failed obligation: [%s] %s (%s)" % (n, o["name"], o["status"]), "  goal: %s" % o.get("goal", ""), "  model: %s" % o.get("model", "").replace("\n", " "), ""]
            open(replay, "w").write("\n".join(body) + "\n")
            for n, o in hard[:5]:
                lines.append("failed obligation [%s] %s" % (n, o["name"]))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        elif oracle.err and (undecided or failed_own):
            lines.append("no answer: %s" % oracle.err)
            rc = 2
    # ------------------------------------------------------------ evidence
    fns, contracts, inlined, trusted = set(), set(), set(), set()
    queries = 0
    stime = 0.0
    second = {}
    for n in names:
        r = results[n]
        fns |= set(r.get("functions", []))
        contracts |= set(r.get("contracts", []))
        inlined |= set(r.get("inlined", []))
        trusted |= set(r.get("trusted", []))
        queries += r.get("solver", {}).get("queries", 0)
        stime += r.get("solver", {}).get("time", 0)
        for k, v in r.get("solver", {}).items():
            if k.startswith("cvc5_") and not isinstance(v, str):
                second[k[5:]] = second.get(k[5:], 0) + v
    from vf import table
    cov = {
        "obligations": ob_total, "discharged": ob_ok,
        "checker_cmd": "python3-vt /verif/check.py %s %s" % (prop, tier),
        "trusted_base": sorted(trusted) + table.TRUSTED,
        "functions_under_contract": sorted(fns),
        "functions_inlined_into_them": sorted(inlined),
        "contracts_relied_on_at_call_sites": sorted(contracts),
        "back_end": "z3 (Python bindings), quantifier-free queries generated from the class files of /repo",
        "solver_queries": queries, "solver_s": round(stime, 2),
        "units": {n: {"obligations": len(results[n]["obs"]), "discharged": sum(1 for o in results[n]["obs"] if o["status"] == "proved"),
                      "undecided": results[n]["undecided"], "wall_s": round(results[n].get("wall", 0), 1), "role": "own" if n in own else "dependency"} for n in names},
        "undecided_units": ["%s: %s" % u for u in undecided],
        "undischarged": ["[%s] %s: %s" % (n, o["name"], o["status"]) for n, o in failed_own + failed_dep][:50],
        "evaluations": oracle.cases,
        "rule": "bounded cross-check, never counted as proved: seeded random and corner cases of the property run on the compiled classes "
                "under Java 17, 21 and 8 against an independent reference, plus the inputs of refuted obligations",
        "bounded_parts": cfg.get("bounded", []),
    }
    if second:
        cov["second_back_end"] = {"solver": "cvc5 (Python bindings), asked about every query z3 found unsatisfiable",
                                  "agrees": second.get("unsat", 0), "disagrees": second.get("sat", 0), "no_answer": second.get("unknown", 0),
                                  "failed": second.get("error", 0), "solver_s": round(second.get("time", 0), 2)}
    level = cfg["level"]
    if not proved and rc == 0:
        level = "other"
        cov["explanation"] = "Not a proof on this run: %d unit(s) outside the verifier's reach or out of time, %d obligation(s) not discharged (listed " \
                             "above). For those parts only the bounded cross-check stands in." % (len(undecided), len(failed_own) + len(failed_dep))
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": level, "coverage": cov, "assumptions": table.ASSUMPTIONS + cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": 1 if rc == 1 else 0}
    with open(os.path.join(EVIDENCE, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d obligations, %d discharged, %d units (%d undecided), %d solver queries in %.1f s; %d executed cases; %.1f s" % (
        prop, ob_total, ob_ok, len(names), len(undecided), queries, stime, oracle.cases, time.time() - t0))
    for n, u in undecided:
        print("undecided [%s] %s" % (n, u))
        if os.environ.get("VERIF_DEBUG") and results[n].get("trace"):
            print(results[n]["trace"])
    if rc == 0:
        for n, o in (failed_own + failed_dep)[:10]:
            print("not discharged [%s] %s (%s)%s" % (n, o["name"], o["status"], " weak" if o["weak"] else ""))
    if oracle.err:
        print("oracle: %s" % oracle.err)
    for l in lines:
        print(l)
    if os.environ.get("VERIF_BASELINE"):
        path = os.path.join(HERE, "baseline.json")
        b = load_baseline()
        for n in names:
            r = results[n]
            b[n] = "proved" if not r["undecided"] and r["obs"] and all(o["status"] == "proved" for o in r["obs"]) else "undecided"
        with open(path, "w") as f:
            json.dump(dict(sorted(b.items())), f, indent=1)
            f.write("\n")
    return rc


if __name__ == "__main__":
    main()
