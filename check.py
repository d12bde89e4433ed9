#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] : decide one property by symbolic execution of /repo's current source.
check.py --replay FILE : run a recorded counterexample against the natively compiled real code.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer."""
import argparse, json, os, random, re, shutil, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks

V = vlib.VERIF


def load_known():
    p = V + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


class Slots:
    def __init__(self, n):
        self.n = n
        self.c = threading.Condition()

    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


def frames(v):
    return [re.sub(r"\s*@.*", "", f).strip() for f in v.get("stack", [])]


def known_match(k, pid, unit, v):
    if k.get("property") != pid:
        return False
    if "entry" in k and k["entry"] != unit["entry"]:
        return False
    if "kind" in k and k["kind"] != v["kind"]:
        return False
    if "msg" in k and not re.search(k["msg"], v["msg"]):
        return False
    if "function" in k and not any(re.search(k["function"], f) for f in frames(v)):
        return False
    if "inputs" in k:
        d = {}
        for n, h in v["inputs"]:
            d.setdefault(n, h)
        for n, pat in k["inputs"].items():
            if n not in d or not re.fullmatch(pat, d[n]):
                return False
    return True


def do_replay(path):
    d = json.load(open(path))
    u = d["unit"]
    w = tempfile.mkdtemp(prefix="vreplay.")
    try:
        b = vlib.Builder(w)
        ok, txt = vlib.replay(b, u, d["violation"], w + "/in")
        print(txt)
        print("CONFIRMED" if ok else "NOT CONFIRMED")
        return 1 if ok else 0
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=vlib.TIER, choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only units whose name matches")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    pid, t0 = a.id, time.time()
    spec = checks.CHECKS[pid]
    units = checks.units(pid, a.tier)
    if a.only:
        units = [u for u in units if re.search(a.only, u["name"])]
    budget = float(os.environ.get("VERIF_BUDGET", 540 if a.tier == "quick" else 840))
    deadline = t0 + budget
    os.makedirs(V + "/build/replay", exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    for f in os.listdir(V + "/build/replay"):
        if f.startswith(pid + "-"):
            os.unlink(V + "/build/replay/" + f)
    work = tempfile.mkdtemp(prefix="vcheck." + pid + ".", dir=V + "/build")
    try:
        return run(pid, spec, units, a, t0, deadline, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, spec, units, a, t0, deadline, work):
    vlib.ensure_engine()
    b = vlib.Builder(work)
    slots = Slots(vlib.NCPU)
    res = [None] * len(units)
    builderr = [None] * len(units)
    plock = threading.Lock()

    def log(*x):
        with plock:
            print(*x, flush=True)

    bc_threads = []

    def pre(u):
        try:
            b.bitcode(u)
        except Exception:
            pass

    def work_unit(i):
        u = units[i]
        j = min(vlib.NCPU, u.get("jobs", 2))
        try:
            b.bitcode(u)
        except vlib.BuildError as e:
            builderr[i] = str(e)
            return
        except Exception as e:
            builderr[i] = "build: " + repr(e)
            return
        slots.take(j)
        try:
            left = deadline - time.time() - 45
            if left < 10:
                res[i] = None
                builderr[i] = "not run: time budget exhausted"
                return
            res[i] = vlib.run_unit(b, u, j, min(u.get("t", 120 if a.tier == "quick" else 600), left), i)
        except Exception as e:
            builderr[i] = "engine: " + repr(e)
        finally:
            slots.give(j)

    th = []
    for i in range(len(units)):
        t = threading.Thread(target=work_unit, args=(i,))
        t.start()
        th.append(t)
    # native objects of all units are needed for replay and validation: build them meanwhile
    for u in units:
        try:
            b.prefetch_native(u)
        except Exception:
            pass
    for t in th:
        t.join()
    rnd = random.Random(vlib.SEED)
    known = load_known()
    confirmed, unconfirmed, knownhits = [], [], {}
    validated, mismatches = 0, []
    gaps = []
    tot = dict(paths=0, forks=0, steps=0, queries=0, z3_calls=0, solver_time=0.0, asserts=0, memchecks=0, unknown=0)
    functions, per_unit, samples = {}, [], []
    for i, u in enumerate(units):
        r = res[i]
        if r is None:
            gaps.append("%s: %s" % (u["name"], builderr[i]))
            log("UNIT %-28s NOT RUN: %s" % (u["name"], builderr[i]))
            continue
        for k in tot:
            tot[k] += r[k]
        for f, fv in r["functions"].items():
            repo, n = fv[0], fv[1]
            if repo:
                functions[f] = max(functions.get(f, 0), n)
        miss = [x for x in u.get("reach", []) if not r["reach"].get(x)]
        complete = not r["incomplete"] and not r["pending"] and not r["errors"] and not r["unknown"]
        if not complete:
            gaps.append("%s: incomplete (pending=%s unknown=%s errors=%s)" % (u["name"], r["pending"], r["unknown"],
                                                                            list(r["errors"].items())[:3]))
        if miss and not r["violations"]:
            gaps.append("%s: vacuous, never reached %s" % (u["name"], miss))
        log("UNIT %-28s paths=%d queries=%d z3=%d solver=%.1fs wall=%.1fs viol=%d%s%s" % (
            u["name"], r["paths"], r["queries"], r["z3_calls"], r["solver_time"], r["wall"], len(r["violations"]),
            "" if complete else " INCOMPLETE pending=%s unknown=%s" % (r["pending"], r["unknown"]),
            " MISSED-REACH %s" % miss if miss else ""))
        for e, n in list(r["errors"].items())[:4]:
            log("   engine note x%d: %s" % (n, e[:500]))
        per_unit.append(dict(name=u["name"], entry=u["entry"], bounds=u.get("params", {}), bound_note=u.get("note", ""),
                             paths=r["paths"], forks=r["forks"], queries=r["queries"], z3_calls=r["z3_calls"],
                             solver_s=round(r["solver_time"], 2), wall_s=round(r["wall"], 2), asserts_checked=r["asserts"],
                             memory_checks=r["memchecks"], complete=complete, reach=r["reach"],
                             assertions=r["assertions"], engine_notes=r["errors"]))
        # counterexamples: replay against the real code
        seen = set()
        for v in r["violations"]:
            key = (v["kind"], v["msg"], tuple(frames(v)[:2]))
            if key in seen or len(seen) >= 8:
                continue
            kf = next((k for k in known["findings"] if known_match(k, pid, u, v)), None)
            if kf:
                knownhits[kf["id"]] = kf
                continue
            if time.time() > deadline + 120:
                unconfirmed.append((u, v, "replay skipped: out of time"))
                continue
            try:
                ok, txt = vlib.replay(b, u, v, work + "/in%d" % i)
            except Exception as e:
                ok, txt = False, "replay failed: %r" % e
            if ok:
                seen.add(key)
                path = "%s/build/replay/%s-%d.json" % (V, pid, len(confirmed))
                json.dump(dict(property=pid, unit={k: u[k] for k in u}, violation=v, native=txt), open(path, "w"), indent=1)
                confirmed.append((u, v, path))
                log("COUNTEREXAMPLE %s [%s] %s\n    at %s\n    inputs %s\n    real code: %s" % (
                    u["name"], v["kind"], v["msg"], " <- ".join(v.get("stack", [])[:4]),
                    " ".join("%s=%s" % (n, h[:80]) for n, h in v["inputs"])[:1500], txt[-600:].strip()))
                log("VIOLATION property=%s replay=%s" % (pid, path))
            else:
                seen.add(key)
                unconfirmed.append((u, v, txt))
                log("UNCONFIRMED %s [%s] %s at %s (native: %s)" % (u["name"], v["kind"], v["msg"],
                                                                   " <- ".join(v.get("stack", [])[:3]), txt[-300:].strip()))
        # validation of the symbolic interpreter: run a few explored paths natively
        ss = [s for s in r["samples"] if len(s) < 4000]
        rnd.shuffle(ss)
        if ss:
            samples.append("%s: %s" % (u["name"], ss[0][:300]))
        if not r["violations"] and time.time() < deadline:
            try:
                exe = b.native(u)
                for s in ss[:3]:
                    inp = re.findall(r"([^=]+?)=([0-9a-f]*)(?: |$)", s)
                    vlib.write_input(work + "/s%d" % i, u, inp)
                    rc, out = vlib.run_native(exe, work + "/s%d" % i, None, 20)
                    if rc == 0:
                        validated += 1
                    else:
                        mismatches.append("%s: rc=%d %s | %s" % (u["name"], rc, out[-300:], s[:300]))
                        log("MISMATCH", mismatches[-1])
            except Exception as e:
                gaps.append("%s: native build for validation failed: %s" % (u["name"], str(e)[:300]))
    for k in knownhits.values():
        log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ran = [r for r in res if r is not None]
    ev = dict(property=pid, tier=a.tier, seed=vlib.SEED, level="model_checking",
              coverage=dict(states=tot["paths"] + tot["forks"], transitions=tot["steps"],
                            traces_validated_against_impl=validated, samples=samples[:20] or ["none"],
                            exhaustive=not gaps,
                            method="symbolic execution of LLVM bitcode compiled from /repo on this run; every branch, assertion and memory access decided by an SMT solver over all values of the symbolic inputs",
                            units=per_unit, functions_encoded=dict(sorted(functions.items())),
                            queries_discharged=tot["queries"], solver_calls=tot["z3_calls"],
                            solver_time_s=round(tot["solver_time"], 2), assertions_checked=tot["asserts"],
                            memory_accesses_checked=tot["memchecks"], not_covered=gaps, mismatches=mismatches,
                            unconfirmed_counterexamples=["%s: %s %s" % (u["name"], v["kind"], v["msg"]) for u, v, _ in unconfirmed],
                            outside_bounds=spec.get("outside", "")),
              assumptions=spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    log("TOTAL %s paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs gaps=%d" % (
        pid, tot["paths"], tot["queries"], tot["solver_time"], validated, time.time() - t0, len(gaps)))
    if confirmed:
        return 1
    if not ran:
        log("NO ANSWER: no unit could be run")
        for g in gaps:
            log("  ", g[:2000])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
