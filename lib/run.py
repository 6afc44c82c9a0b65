"""Decides one property: builds, explores its harness instances symbolically, replays what the solver
reports on the real f64 code, writes the evidence, and exits 0 (held) or 1 (VIOLATION)."""
import json, os, re, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as bld
from props import PROPS

V = bld.V
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Inst:
    def __init__(self, h, params, covers=(), time=None, check_ms=None, tier="quick", opts=(), must=(), kani=None):
        self.must = list(must)
        self.h, self.params, self.covers, self.time, self.check_ms, self.tier, self.opts = h, params, list(covers), time, check_ms, tier, list(opts)

    def name(self):
        return self.h + "".join(" %s=%s" % kv for kv in sorted(self.params.items()))


def load_known():
    out = []
    try:
        for l in open(V + "/known_findings.txt"):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) harness=(\S+) label="([^"]*)" (.*)$', l)
            if m:
                out.append(dict(property=m.group(1), harness=m.group(2), label=m.group(3), what=m.group(4)))
    except OSError:
        pass
    return out


def sh(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, ""


def explore(bins, inst, tier):
    tl = inst.time or (240 if tier == "quick" else 700)
    if tier == "thorough":
        tl = max(tl, 700)
    cmd = [bins["sym"], inst.h] + ["%s=%s" % kv for kv in inst.params.items()]
    cmd += ["--time=%d" % tl, "--check-ms=%d" % (inst.check_ms or (20000 if tier == "quick" else 120000))] + inst.opts
    t = time.time()
    rc, o = sh(cmd, tl + 150)
    m = re.search(r"^SYMX-RESULT (.*)$", o, re.M)
    r = json.loads(m.group(1)) if m else None
    return r, time.time() - t, (rc, o[-400:])


def model_file(prop, inst, k, model, label, detail):
    d = V + "/evidence/replay"
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(repr((inst.name(), label, k)).encode()).hexdigest()[:8]
    p = "%s/%s-%s-%s.model" % (d, prop, inst.h, h)
    with open(p, "w") as f:
        f.write("## property %s: %s\n## %s\n" % (prop, label.replace("\n", " "), detail.replace("\n", " ")))
        f.write("## replay: %s %s\n" % (os.path.relpath(V + "/.build/native/target/debug/harness", V), " ".join([inst.h] + ["%s=%s" % kv for kv in inst.params.items()] + ["--model=" + p])))
        for n, v in model:
            if not n.startswith("~"):
                f.write("%s %s\n" % (n, v))
    return p


def native(bins, inst, path, limit=10):
    cmd = [bins["native"], inst.h] + ["%s=%s" % kv for kv in inst.params.items()] + ["--model=" + path]
    rc, o = sh(cmd, limit)
    if rc is None:
        return "hang", ["does not terminate"], "NATIVE-HANG (no result within %d s)" % limit
    if rc < 0 or rc not in (0, 1, 5):
        return "fail", ["panic: crash"], "NATIVE-CRASH exit %s" % rc
    if rc == 5:
        return "discard", [], o
    if rc == 0:
        return "ok", [], o
    labels = []
    for l in o.splitlines():
        if l.startswith("NATIVE-FAIL "):
            labels.append(l[12:])
        if l.startswith("NATIVE-PANIC "):
            labels.append("panic: " + l[13:])
    return "fail", labels, o


def witness(bins, inst, covers=None, runs=12):
    covers = inst.covers if covers is None else covers
    got = set()
    for seed in range(1, runs + 1):
        rc, o = sh([bins["native"], inst.h] + ["%s=%s" % kv for kv in inst.params.items()] + ["--witness=%d" % seed], 10)
        if rc == 0:
            got |= set(l[13:] for l in o.splitlines() if l.startswith("NATIVE-COVER "))
            if got >= set(covers):
                break
    return got


# assertions which runs of the unchanged code break by rounding alone (lib/rounding.py)
ROUNDING = json.load(open(V + "/lib/rounding.json")) if os.path.exists(V + "/lib/rounding.json") else {}
SEARCH = [10000 * m + k for k in range(1, 26) for m in range(4)]


def search(bins, inst, labels, need):
    """For assertions the solver refutes or leaves open without a counterexample that can be replayed:
    concrete inputs on which the real code breaks the same assertion ({label: (seed, output)}).
    `need` is the number of different inputs asked for (open assertions ask for more than refuted ones)."""
    hits = {}
    t0 = time.time()
    skip = ROUNDING.get(inst.name(), [])
    labels = [l for l in labels if (l.split(":")[0] if l.startswith("panic:") else l.split(" (")[0]) not in skip]
    for seed in SEARCH:
        if time.time() - t0 > 40 or all(len(hits.get(l, [])) >= need[l] for l in labels):
            break
        rc, o = sh([bins["native"], inst.h] + ["%s=%s" % kv for kv in inst.params.items()] + ["--witness=%d" % seed], 10)
        if rc is None or rc in (0, 5):
            continue
        got = [l[12:] for l in o.splitlines() if l.startswith("NATIVE-FAIL ")] + ["panic: " + l[13:] for l in o.splitlines() if l.startswith("NATIVE-PANIC ")]
        for l in labels:
            if any(label_match(l, g) or (l.startswith("panic:") and g.startswith("panic:")) for g in got):
                hits.setdefault(l, []).append((seed, o.strip()))
    return {l: h[0] for l, h in hits.items() if len(h) >= need[l]}


def label_match(want, got):
    return got == want or got.startswith(want + " (")


def decide(prop, tier, seed):
    t0 = time.time()
    P = PROPS[prop]
    insts = [Inst(**i) for i in P["instances"]]
    sel = [i for i in insts if i.tier == "quick" or tier == "thorough"]
    bins, bt = bld.build()
    known = [k for k in load_known() if k["property"] == prop]
    sel_run = sorted(sel, key=lambda i: -(i.time or 0))
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [(i, ex.submit(explore, bins, i, tier)) for i in sel_run]
        res = [(i,) + f.result() for i, f in futs]
    errors, confirmed, kn, openq = [], [], {}, []
    tot = dict(paths=0, feasible_confirmed=0, decisions=0, checks=0, syntactic=0, q_feas=0, q_check=0, q_unsat=0, q_sat=0, q_unknown=0, solver_ms=0, infeasible=0)
    rows, samples, validated, mism, discarded = [], [], 0, [], 0
    jobs = []
    for inst, r, wall, raw in res:
        if r is None:
            errors.append("%s: no result from the engine (%s)" % (inst.name(), raw))
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        rows.append(dict(instance=inst.name(), tier=inst.tier, paths=r["paths"], feasible=r["feasible_confirmed"], decisions=r["decisions"], queries=r["q_feas"] + r["q_check"], solver_s=round(r["solver_ms"] / 1000.0, 2), must_reach=len(inst.must), wall_s=round(wall, 2), max_check_s=round(r["max_check_ms"] / 1000.0, 2), covers=r["covers"], incomplete=r["incomplete"], undecided=sorted(set(r["unknown"]))))
        samples += ["%s: %s" % (inst.name(), s) for s in r["samples"][:2]]
        for v in r["violations"]:
            jobs.append((inst, v))
        if not r["violations"]:
            if inst.tier == "quick":
                if r["incomplete"]:
                    errors.append("%s: exploration incomplete: %s" % (inst.name(), r["incomplete"]))
                for u in sorted(set(r["unknown"])):
                    errors.append("%s: undecided: %s" % (inst.name(), u))
                    openq.append((inst, u, 3, errors[-1]))
            if not r["incomplete"]:
                missing = [c for c in inst.covers if not r["covers"].get(c)]
                if missing or r["feasible_confirmed"] < 1:
                    # the solver found no model of the path: look for a concrete run of the real code that reaches it
                    reached = witness(bins, inst)
                    missing = [c for c in missing if c not in reached]
                    if r["feasible_confirmed"] < 1 and not reached:
                        missing.append("any path")
                    else:
                        rows[-1]["witnessed_by_native_run"] = sorted(reached)
                for c in missing:
                    errors.append("%s: vacuous, '%s' never reached" % (inst.name(), c))
                absent = [c for c in inst.must if not r["covers"].get(c)]
                if absent and not r["unknown"]:
                    # no draws and inputs lead to this outcome: look for it on the real code before saying so
                    seen = witness(bins, inst, absent, 200)
                    for c in absent:
                        label = "possible outcome: " + c
                        if c in seen:
                            errors.append("%s: '%s' is reached on the real code only" % (inst.name(), c))
                        else:
                            path = model_file(prop, inst, 0, [], label, "unreachable for every draw; run the harness with --witness=1, 2, ... to look for the line NATIVE-COVER " + c)
                            confirmed.append((inst.name(), label, path, "never reached in 200 runs of the real code"))
    # replay every candidate on the real code
    def rep(a):
        n, (inst, v) = a
        path = model_file(prop, inst, n, v["model"], v["label"], v["detail"])
        return inst, v, path, native(bins, inst, path)
    with ThreadPoolExecutor(JOBS) as ex:
        reps = list(ex.map(rep, enumerate(jobs)))
    groups = {}
    for inst, v, path, (st, labels, out) in reps:
        g = groups.setdefault((inst.name(), v["label"]), dict(inst=inst, label=v["label"], hits=[], outs=[]))
        g["outs"].append(out.strip())
        if st in ("fail", "hang"):
            # a label of a known finding never confirms another one
            ls = [l for l in labels]
            if v["kind"] == "panic":
                ok = any(l.startswith("panic:") for l in ls)
            elif v["kind"] == "hang":
                ok = st == "hang"
            else:
                ok = any(label_match(v["label"], l) for l in ls) or any(l.startswith("panic:") for l in ls)
            if ok:
                g["hits"].append((path, out.strip()))
    for (iname, label), g in sorted(groups.items()):
        k = next((k for k in known if (k["harness"] == "*" or k["harness"] == g["inst"].h) and k["label"] == label), None)
        if k:
            if g["hits"]:
                kn.setdefault(label, (k, g["hits"][0][0]))
            else:
                kn.setdefault(label, (k, None))
        elif g["hits"]:
            confirmed.append((iname, label, g["hits"][0][0], g["hits"][0][1]))
        else:
            errors.append("%s: the solver's counterexample to '%s' does not reproduce on the real code (%s)" % (iname, label, " / ".join(sorted(set(g["outs"])))[:300]))
            openq.append((g["inst"], label, 1, errors[-1]))
    # nothing to replay: look for inputs that break these assertions on the real code
    if openq and not confirmed:
        def look(name):
            q = [x for x in openq if x[0].name() == name]
            return q, search(bins, q[0][0], [x[1] for x in q], dict((x[1], x[2]) for x in q))
        with ThreadPoolExecutor(JOBS) as ex:
            for q, hits in ex.map(look, sorted(set(x[0].name() for x in openq))):
                for inst, label, _, err in q:
                    if label in hits and not any(k["label"] == label for k in known):
                        s, out = hits[label]
                        path = model_file(prop, inst, 0, [], label, "not proved; run the harness with --witness=%d" % s)
                        confirmed.append((inst.name(), label, path, out + " | --witness=%d" % s))
                        errors.remove(err)
    # validate the encoding: concrete inputs that follow explored paths, run on the real code
    tj = []
    for inst, r, wall, raw in res:
        if r and not r["violations"]:
            for n, m in enumerate(r.get("traces", [])[:4]):
                tj.append((inst, n, m))
    def val(a):
        inst, n, m = a
        path = model_file(prop, inst, "t%d" % n, m, "trace", "encoding validation")
        st, labels, out = native(bins, inst, path)
        if st == "ok":
            os.remove(path)
        return inst, st, labels, path
    with ThreadPoolExecutor(JOBS) as ex:
        for inst, st, labels, path in ex.map(val, tj):
            if st == "ok":
                validated += 1
            elif st == "discard":
                discarded += 1
            else:
                mism.append("%s: %s (%s)" % (inst.name(), "; ".join(labels)[:200], path))
    ks = None
    kh = [h for h, tr in P.get("kani", ()) if tr == "quick" or tier == "thorough"]
    if kh:
        import kani
        nv, why, ks = kani.run(kh, 400 if tier == "quick" else 1500)
        # what kani does not verify is replayed: the same statement on the real code, over every sequence of draws
        arb, lost = [], []
        for h in sorted(why):
            inst = Inst(*kani.replay(h))
            path = model_file(prop, inst, 0, [], h, "kani: " + why[h][:400])
            st, labels, out = native(bins, inst, path, 120)
            if st in ("fail", "hang"):
                confirmed.append((h, "; ".join(labels), path, "kani: " + why[h][:200] + " | " + out))
            elif st == "ok":
                arb.append(h)
            elif st == "discard" and h in kani.LONG:
                # the same statement is proved for shorter inputs; nothing is claimed for this length
                lost.append(h)
            else:
                errors.append("%s: not verified (%s), and the replay is incomplete" % (h, why[h][:300]))
        if ks is not None:
            ks["not_verified_but_every_sequence_of_draws_replayed"] = arb
            ks["not_decided"] = lost
        for h in lost:
            print("note: kani does not verify %s (%s), and its sequences of draws are too many to run" % (h, why[h][:200]))
        for h in arb:
            print("note: kani does not verify %s (%s); every sequence of draws was run on the real code and the statement holds" % (h, why[h][:200]))
        tot["paths"] += nv
        tot["q_check"] += ks.get("properties", 0)
        tot["solver_ms"] += ks.get("solver_s", 0) * 1000
        samples += ["kani %s: verified" % h for h in kh if h not in why][:4]
    for label, (k, path) in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for iname, label, path, out in confirmed:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s\n  real code: %s" % (iname, label, out.replace("\n", " | ")[:400]))
    for e in errors:
        print("UNDECIDED %s" % e)
    for m in mism:
        print("note: trace differs on f64: %s" % m)
    level = P.get("level", "model_checking")
    cov = dict(states=tot["paths"], transitions=tot["decisions"], traces_validated_against_impl=validated, samples=samples[:12] or ["none"],
               feasible_paths=tot["feasible_confirmed"], assertions=tot["checks"], assertions_syntactic=tot["syntactic"],
               queries=tot["q_feas"] + tot["q_check"], queries_unsat=tot["q_unsat"], queries_sat=tot["q_sat"], queries_unknown=tot["q_unknown"],
               solver_s=round(tot["solver_ms"] / 1000.0, 2), build_s=round(bt, 2), functions_encoded=P["functions"], bounds=P["bounds"], instances=rows, trace_mismatches=mism, known_findings=sorted(kn), kani=ks, kani_harnesses=kh, solvers="z3 5.3.2, cvc5 1.1.2, z3 4.8.12 (portfolio)")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(confirmed),
              assumptions=P.get("assumptions", []) + ["f64 arithmetic is read as exact real arithmetic extended with infinities and NaN (no rounding, overflow or signed zero)", "rulinalg, num and rand are environment models in crates/stubs (sources not available offline)"])
    os.makedirs(V + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (V, prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths (%d confirmed feasible), %d assertions, %d queries, %.1f s solver, %.1f s wall" % (prop, tier, tot["paths"], tot["feasible_confirmed"], tot["checks"], cov["queries"], cov["solver_s"], time.time() - t0))
    if confirmed:
        return 1
    return 2 if errors else 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        rc = decide(prop, tier, seed)
    except bld.BuildError as e:
        print("BUILD-ERROR %s" % e)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
