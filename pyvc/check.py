"""Decide one property: discharge every obligation of its contract harnesses over /repo's current
sources, replay every counterexample natively, cross-check natively, write the evidence file.

exit 0: held;  exit 1: VIOLATION line printed;  exit 2: the check itself is broken."""
import argparse
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = os.environ.get("PYVC_ROOT", "/repo")
NATIVE = "/opt/venv/bin/python"
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.append("/opt/venv/lib/python3.12/site-packages")

FINDINGS = os.path.join(VERIF, "known-findings.txt")

TRUSTED = [
    "z3 4.x (python z3-solver) as the deciding back end; cvc5 re-decides a sample in the thorough tier",
    "pyvc/instr.py: AST rewrite of displays, f-strings, literal methods and guarded set insertion "
    "(control flow and every other expression are executed unchanged by CPython)",
    "pyvc/sym.py: semantics of int/bytes/str/float/dict/set on symbolic values (cross-checked "
    "against CPython by the native runs of every harness in this very check)",
    "CPython 3.12 itself for classes, attributes, generators, exceptions and asyncio futures/tasks",
]


def known(prop):
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            w = line.split()
            if len(w) > 2 and w[0] == "finding:" and w[1] == "property=" + prop:
                out[w[2].split("=", 1)[1]] = line.split(w[2], 1)[1].strip()
    return out


# ---------------------------------------------------------------------------- symbolic tasks
def run_task(spec, param, tier, bounded, seed):
    from pyvc import core, symh
    lim = spec.time or 45
    if tier == "thorough":
        lim *= 6
    e = core.Engine(query_timeout_ms=20000 if tier == "quick" else 60000,
                    path_limit=60000, time_limit=lim, mode="bounded" if bounded else "proof",
                    seed=seed, keep_smt2=0 if tier == "quick" else 6)
    t = time.time()
    if os.environ.get("PYVC_FORKS"):
        e.forks = {}
    r = symh.run_harness(spec, param, e, bounded, SNAP, tier)
    if os.environ.get("PYVC_FORKS"):
        for k, v in sorted(e.forks.items(), key=lambda x: -x[1])[:25]:
            print(v, k, file=sys.stderr)
    d = dict(paths=r.paths, obligations=r.obligations, discharged=r.discharged, trivial=r.trivial,
             by_label=r.by_label, undecided=r.undecided, unsupported=r.unsupported,
             covered=sorted(r.covered), functions=sorted(r.functions), solver_s=r.solver_s,
             queries=r.queries, complete=r.complete, concretized=r.concretized, smt2=r.smt2,
             wall=round(time.time() - t, 2), mode=e.mode, contracts=sorted(r.contracts_used),
             loops=dict(r.loops_proved),
             refuted=[ref(x) for x in r.refuted], crashes=[ref(x) for x in r.crashes])
    d["ok"] = bool(r.complete and not r.refuted and not r.undecided and not r.unsupported
                   and not r.crashes)
    return d


def ref(x):
    return dict(label=x.label, draws=x.draws, detail=None if x.detail is None else str(x.detail),
                abstract=x.abstract, trace=[int(i) for i in x.trace])


class Pool:
    def __init__(self, n, deadline):
        self.n, self.deadline = n, deadline
        self.run = {}

    def _spawn(self, key, fn, hard):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    out = fn()
                except BaseException:
                    out = {"error": traceback.format_exc()[-3000:]}
                data = pickle.dumps(out)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(w)
        self.run[r] = [pid, key, b"", time.time() + hard]

    def map(self, jobs):
        """jobs: [(key, fn, hard limit)] -> {key: result or None}"""
        jobs = list(jobs)[::-1]
        out = {}
        while jobs or self.run:
            while jobs and len(self.run) < self.n:
                key, fn, hard = jobs.pop()
                if time.time() > self.deadline:
                    out[key] = {"error": "not run: the budget of this check was used up"}
                    continue
                self._spawn(key, fn, hard)
            if not self.run:
                continue
            rd, _, _ = select.select(list(self.run), [], [], 1.0)
            for r in rd:
                ent = self.run[r]
                chunk = os.read(r, 1 << 20)
                if chunk:
                    ent[2] += chunk
                    continue
                os.close(r)
                os.waitpid(ent[0], 0)
                del self.run[r]
                try:
                    out[ent[1]] = pickle.loads(ent[2])
                except Exception:
                    out[ent[1]] = {"error": "the prover process ended without a result"}
            now = time.time()
            for r, ent in list(self.run.items()):
                if now > ent[3]:
                    os.kill(ent[0], signal.SIGKILL)
                    os.waitpid(ent[0], 0)
                    os.close(r)
                    del self.run[r]
                    out[ent[1]] = {"error": "hard time limit"}
        return out


SNAP = None


# ---------------------------------------------------------------------------- native runs
def native(prop, runs, seed, timeout=600, wait=True):
    import tempfile
    fi, fo, fe = (tempfile.TemporaryFile() for _ in range(3))
    fi.write(json.dumps({"prop": prop, "root": ROOT, "seed": seed, "runs": runs}).encode())
    fi.seek(0)
    p = subprocess.Popen([NATIVE, os.path.join(HERE, "native.py")], stdin=fi, stdout=fo, stderr=fe,
                         cwd="/", env=dict(os.environ, PYTHONHASHSEED="0",
                                           PYTHONDONTWRITEBYTECODE="1"))
    p.out, p.err = fo, fe
    fi.close()
    return finish(p, timeout) if wait else p


def finish(p, timeout=600):
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None, "native run timed out"
    p.out.seek(0)
    p.err.seek(0)
    o, err = p.out.read(), p.err.read()
    p.out.close()
    p.err.close()
    if p.returncode != 0:
        return None, err.decode(errors="replace")[-3000:]
    return json.loads(o), None


def split(lst, n):
    return [lst[i::n] for i in range(n) if lst[i::n]]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--only", default=None)
    ap.add_argument("--param", default=None)
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.prop
    t0 = time.time()
    budget = 420 if tier == "quick" else 840
    partial = bool(a.only or a.param)

    from pyvc import api, instr
    manifest = {}
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        manifest = {c["property"]: c for c in m["checks"]}.get(prop, {})
    except Exception:
        pass

    # ---- load the instrumented sources and the harnesses
    global SNAP
    instr.install(ROOT)
    load_err = None
    specs = {}
    modinfo = None
    try:
        api.REGISTRY.clear()
        sys.path.append(os.path.join(VERIF, "props"))
        sys.modules["hlib"] = instr.load_file(os.path.join(VERIF, "props", "_lib.py"), "hlib")
        sys.modules["hwire"] = instr.load_file(os.path.join(VERIF, "props", "_wire.py"), "hwire")
        modinfo = instr.load_file(os.path.join(VERIF, "props", prop + ".py"), "props_" + prop)
        specs = {s.name: s for s in api.collect()}
        import importlib
        for root, dirs, fs in os.walk(os.path.join(ROOT, "pyzwave")):
            for f in sorted(fs):
                if not f.endswith(".py") or f == "dtlsconnection.py":
                    continue
                rel = os.path.relpath(os.path.join(root, f), ROOT)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                try:
                    importlib.import_module(rel)
                except SystemExit:
                    raise
                except Exception as ex:
                    load_err = load_err or "%s: %r" % (rel, ex)
        SNAP = instr.Snapshot()
    except BaseException:
        load_err = traceback.format_exc()[-3000:]
    if not specs:
        # harness names are still needed for the native fallback
        from pyvc import native as nat
        try:
            sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, instr.Finder)]
            for mn in [k for k in sys.modules if k == "pyzwave" or k.startswith("pyzwave.")]:
                del sys.modules[mn]
            sys.path.insert(0, ROOT)
            specs = nat.load(prop)
        except BaseException:
            print("ERROR: cannot load the harnesses of", prop)
            print(load_err or traceback.format_exc())
            return 2

    from pyvc.native import params_of
    tasks = []
    for s in specs.values():
        if a.only and s.name != a.only:
            continue
        ps = params_of(s)
        for i, p in enumerate(ps):
            if a.param is not None and str(p) != a.param and str(i) != a.param:
                continue
            tasks.append((s.name, i if s.params is not None else None, p))
    if not tasks:
        print("ERROR: no harness")
        return 2
    findings = known(prop)
    names = {(n, i): str(p) for n, i, p in tasks}

    def tagof(n, i):
        return n if i is None else "%s[%s]" % (n, names[(n, i)])

    # ---- native cross-check, in parallel with the proofs
    mult = 1 if tier == "quick" else 25
    nruns = []
    for n, i, p in tasks:
        s = specs[n]
        if s.kind == "finding":
            continue
        nruns.append({"harness": n, "param": i, "count": max(1, s.fuzz * mult),
                      "time": 8 if tier == "quick" else 60})
    procs = []
    if not a.no_native:
        procs = [native(prop, part, seed, wait=False) for part in split(nruns, 3)]

    # ---- proofs
    pool = Pool(a.j, t0 + budget)
    results = {}
    if load_err is None or SNAP is not None:
        jobs = []
        for n, i, p in tasks:
            s = specs[n]
            if s.kind == "finding":
                continue
            lim = (s.time or 45) * (1 if tier == "quick" else 6)
            jobs.append(((n, i), (lambda s=s, p=p: run_task(s, p, tier, s.kind == "bounded", seed)),
                         lim + 60))
        jobs.sort(key=lambda j: -(specs[j[0][0]].time or 45))
        results = pool.map(jobs)
    else:
        for n, i, p in tasks:
            results[(n, i)] = {"error": "instrumented load failed: " + load_err}

    # ---- bounded second attempt for what was not decided
    retry = []
    for (n, i), r in results.items():
        if r.get("error") or (not r["ok"] and not r["refuted"] and r["mode"] == "proof"):
            retry.append((n, i))
    bounded = {}
    if retry and SNAP is not None:
        pmap = {(n, i): p for n, i, p in tasks}
        bounded = pool.map([((n, i), (lambda n=n, i=i: run_task(specs[n], pmap[(n, i)], tier, True,
                                                                seed)),
                             (specs[n].time or 45) + 60) for n, i in retry[:40]])

    # ---- native results
    fuzz = {}
    native_err = None
    for rn in [finish(pr) for pr in procs]:
        if rn[0] is None:
            native_err = rn[1]
            continue
        for o in rn[0]:
            fuzz[(o["harness"], o["param"])] = o

    violations = []   # (harness, param, label, draws, detail, confirmed)
    seen = set()
    for key, o in fuzz.items():
        for f in o["fails"][:1]:
            lab, det = f["failures"][0] if f["failures"] else ("?", "")
            violations.append((key[0], key[1], lab, f["draws"], det, True, "native run"))
            seen.add(key)

    # ---- replay counterexamples
    cands = []
    for src in (results, bounded):
        for key, r in src.items():
            if r.get("error"):
                continue
            for k, x in [("refuted", x) for x in r["refuted"]] + [("crash", x) for x in r["crashes"]]:
                cands.append((key, k, x))
    limits = []
    if cands and not a.no_native:
        runs = [{"harness": c[0][0], "param": c[0][1], "draws": c[2]["draws"]} for c in cands]
        rep, err = native(prop, runs, seed)
        if rep is None:
            native_err = err
            rep = [{"status": "error", "failures": []}] * len(runs)
        again = []
        for c, o in zip(cands, rep):
            if o["status"] == "fail" and c[0] in seen:
                continue
            if o["status"] == "fail":
                seen.add(c[0])
                lab, det = o["failures"][0]
                violations.append((c[0][0], c[0][1], c[2]["label"], o["draws"],
                                   "%s\n%s" % (lab, det), True, "solver counterexample replayed"))
            else:
                again.append((c, o))
        # spurious or unreachable: search natively before giving up on them
        todo = sorted({c[0] for c, o in again if c[0] not in seen}, key=str)
        if todo:
            runs = [{"harness": k[0], "param": k[1], "count": 1500, "time": 20} for k in todo]
            procs2 = [native(prop, part, seed + 1, wait=False) for part in split(runs, 6)]
            for pr in procs2:
                rep, err = finish(pr)
                for o in rep or []:
                    if o["fails"]:
                        key = (o["harness"], o["param"])
                        seen.add(key)
                        f = o["fails"][0]
                        lab, det = f["failures"][0]
                        violations.append((key[0], key[1], lab, f["draws"], det, True,
                                           "native search after a failed obligation"))
        for c, o in again:
            if c[0] in seen:
                continue
            # a loop that does not keep its state as its contract expects has not broken the contract
            forgot = any("contract forgot" in str(u) for src in (results, bounded) for r in [src.get(c[0], {})]
                         for u in (r.get("unsupported") or []) + (r.get("undecided") or []))
            if c[1] == "refuted" and c[2]["abstract"] and not forgot:
                seen.add(c[0])
                violations.append((c[0][0], c[0][1], c[2]["label"], c[2]["draws"],
                                   c[2]["detail"] or "", False, "obligation over a contract"))
            else:
                limits.append("%s[%s]: %s %r does not replay natively (%s): engine limit; %s"
                              % (c[0][0], c[0][1], c[1], c[2]["label"], o["status"],
                                 str(c[2]["detail"])[:1500 if a.v else 200]))

    # an obligation without a failing input adds nothing to a confirmed violation
    if any(v[5] for v in violations):
        violations = [v for v in violations if v[5]]

    # ---- findings
    kf_lines = []
    kf_runs = [(n, i) for n, i, p in tasks if specs[n].kind == "finding"]
    if kf_runs and not a.no_native:
        rep, err = native(prop, [{"harness": n, "param": i, "count": 60, "time": 20}
                                 for n, i in kf_runs], seed)
        for (n, i), o in zip(kf_runs, rep or []):
            if o["fails"]:
                fid = specs[n].note
                if fid in findings:
                    kf_lines.append("KNOWN-FINDING: property=%s %s" % (prop, findings[fid]))
                else:
                    f = o["fails"][0]
                    violations.append((n, i, f["failures"][0][0], f["draws"], f["failures"][0][1],
                                       True, "native run"))

    # ---- evidence
    undecided = list(limits)
    obligations = discharged = trivial = paths = queries = 0
    solver = 0.0
    funcs = set()
    labels = {}
    bounded_items = []
    not_complete = []
    contracts = set()
    loops = {}
    smt = []
    covered = {}
    for (n, i), r in results.items():
        tag = tagof(n, i)
        if r.get("error"):
            undecided.append("%s: %s" % (tag, r["error"][:1500]))
            obligations += 1
            continue
        paths += r["paths"]
        queries += r["queries"]
        solver += r["solver_s"]
        funcs |= set(r["functions"])
        contracts |= set(r["contracts"])
        smt += r["smt2"]
        for l, (att, stepped, where) in r.get("loops", {}).items():
            x = loops.setdefault(l, {"loops": [], "entries": 0, "iterations_verified": 0})
            x["loops"] = sorted(set(x["loops"]) | set(where))
            x["entries"] += att
            x["iterations_verified"] += stepped
        covered.setdefault(n, set()).update(r["covered"])
        if r["obligations"] == 0 and not r["crashes"]:
            undecided.append("%s: no obligation was generated" % tag)
        if specs[n].kind == "bounded":
            bounded_items.append({"harness": tag, "bound": specs[n].note, "checks": r["obligations"],
                                  "held": r["discharged"], "paths": r["paths"],
                                  "complete_within_bound": r["ok"]})
        else:
            obligations += r["obligations"]
            discharged += r["discharged"]
            trivial += r["trivial"]
            for l, (x, y) in r["by_label"].items():
                e = labels.setdefault(l, [0, 0])
                e[0] += x
                e[1] += y
        if r["unsupported"] or r["undecided"] or r["crashes"]:
            obligations += len(set(r["unsupported"]))
            undecided += ["%s: %s" % (tag, u) for u in
                          sorted(set(map(str, r["unsupported"] + r["undecided"])))]
            undecided += ["%s: escaped %s" % (tag, c["label"]) +
                          ("\n" + str(c["detail"]) if a.v else "") for c in r["crashes"] if (n, i) not in seen]
    for s in specs.values():
        if a.only and s.name != a.only:
            continue
        for c in s.covers:
            if c not in covered.get(s.name, ()):
                undecided.append("%s: cover point %r was not reached" % (s.name, c))
    for (n, i), r in bounded.items():
        tag = tagof(n, i)
        if r.get("error"):
            bounded_items.append({"harness": tag, "bound": "fallback", "error": r["error"][:500]})
        else:
            bounded_items.append({"harness": tag, "bound": "fallback: byte strings of at most 5 extra "
                                  "bytes", "checks": r["obligations"], "held": r["discharged"],
                                  "paths": r["paths"], "complete_within_bound": r["ok"]})
    nat_n = sum(o["n"] for o in fuzz.values())
    nat_d = sum(o["distinct"] for o in fuzz.values())
    samples = [{"harness": o["harness"], "param": o["param"], "draws": o["sample"]}
               for o in list(fuzz.values())[:200] if o["sample"]][:5]

    cross = None
    if tier == "thorough" and smt:
        cross = crosscheck(smt, t0 + 870)

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    level = manifest.get("level", "proof")
    doc = getattr(modinfo, "ASSUMPTIONS", []) if modinfo else []
    bfun = getattr(modinfo, "FUNCTIONS", []) if modinfo else []
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "VERIF_TIER=%s VERIF_SEED=%d ./check %s" % (tier, seed, prop),
        "trusted_base": TRUSTED,
        "decided_syntactically": trivial,
        "obligations_by_name": {k: {"generated": v[0], "discharged": v[1]}
                                for k, v in sorted(labels.items())},
        "back_end": "z3 %s" % z3v(), "solver_s": round(solver, 2), "solver_queries": queries,
        "paths": paths, "harnesses": len(tasks),
        "functions_executed_symbolically": sorted(funcs),
        "functions_under_contract": sorted(set(bfun) | {f for s in specs.values()
                                                        for f in s.functions}),
        "callee_contracts_used": sorted(contracts),
        "loop_contracts": loops,
        "source_sha256": {os.path.relpath(k, ROOT): v for k, v in sorted(instr.SOURCES.items())
                          if any(f.split(":")[0] == os.path.relpath(k, ROOT)[:-3]
                                 .replace(os.sep, ".").replace(".__init__", "") for f in funcs)},
        "bounded": bounded_items, "undecided": undecided,
        "native_cross_check": {"executions": nat_n, "distinct_nonskipped": nat_d,
                               "error": native_err, "samples": samples},
    }
    if cross is not None:
        cov["second_solver"] = cross
    if level == "other":
        cov["explanation"] = manifest.get("level_note", "")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(doc), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    if not partial:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    # ---- report
    for l in kf_lines:
        print(l)
    print("%s: %d harness runs, %d paths, %d/%d obligations discharged (z3 %.1fs, %d queries), "
          "%d native executions, %.1fs" % (prop, len(results), paths, discharged, obligations, solver,
                                           queries, nat_n, time.time() - t0))
    if a.v:
        for (n, i), r in sorted(results.items(), key=lambda kv: -kv[1].get("wall", 0))[:12]:
            print("   %-40s %6.2fs paths=%s obl=%s/%s ok=%s" % (
                tagof(n, i), r.get("wall", -1),
                r.get("paths"), r.get("discharged"), r.get("obligations"), r.get("ok")))
    for u in undecided[:3 if a.v else 8]:
        print("  undecided:", u[:2500] if a.v else u[:260])
    if len(undecided) > 3:
        print("  undecided in all: %d" % len(undecided))
    if native_err:
        print("  native run error:", native_err)
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for k, (n, i, lab, draws, det, conf, how) in enumerate(violations[:10]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, k))
            with open(path, "w") as f:
                json.dump({"property": prop, "harness": n, "param": i,
                           "param_value": None if i is None else names[(n, i)],
                           "obligation": lab, "draws": draws, "detail": det, "how": how,
                           "confirmed_natively": conf,
                           "replay_cmd": "./replay evidence/replay/%s-%d.json" % (prop, k)}, f,
                          indent=1, default=str)
            print("  failed: %s: %s (%s)%s" % (tagof(n, i), lab, how, "\n    " + str(det)[-700:].replace("\n", "\n    ")
                                             if det else ""))
            print("VIOLATION property=%s replay=%s%s" % (
                prop, os.path.relpath(path, VERIF), "" if conf else " no-failing-input-found"))
        return 1
    if native_err or (obligations == 0 and not bounded_items):
        print("ERROR: nothing was decided")
        return 2
    if a.strict and undecided:
        return 3
    return 0


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def crosscheck(smt, deadline):
    """have cvc5 and the z3 binary re-decide a sample of the discharged obligations"""
    import tempfile
    out = {"sampled": 0, "cvc5_unsat": 0, "cvc5_unknown": 0, "disagreements": []}
    d = tempfile.mkdtemp(prefix="pyvc-smt-")
    try:
        step = max(1, len(smt) // 150)
        for lab, text in smt[::step]:
            if time.time() > deadline:
                break
            p = os.path.join(d, "q.smt2")
            with open(p, "w") as f:
                f.write("(set-logic ALL)\n" + text)
            try:
                o = subprocess.run(["cvc5", "--tlimit=10000", p], capture_output=True, text=True,
                                   timeout=20).stdout.strip()
            except subprocess.TimeoutExpired:
                o = "unknown"
            out["sampled"] += 1
            if o.startswith("unsat"):
                out["cvc5_unsat"] += 1
            elif o.startswith("sat"):
                out["disagreements"].append(lab)
            else:
                out["cvc5_unknown"] += 1
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
