"""Runs one check: generated-input search with Hypothesis in parallel workers,
shrinking, replay, evidence.

  python3-vt -m vf.run C01 [quick|thorough] [--replay FILE] [--n N] [--shards K]
"""
import argparse, hashlib, importlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback
import resource

from . import build, harness
from .harness import Env, Violation, check_sanitizer
from .peer import PeerGone

VERIF = build.VERIF


def jhash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def execute(check, env, case):
    """Runs one case; -> (labels, nontrivial) or raises Violation."""
    harness.FILL[0] = (0xbe, 10, 0, ord(";"))[int(jhash(case)[:6], 16) % 4]
    try:
        try:
            r = check.run(env, case)
        except PeerGone as e:
            raise Violation("unexpected end of the conversation: %s" % e)
        if r is None:
            r = ([], True)
        return list(r[0]), bool(r[1])
    finally:
        env.cleanup_case()


def worker(check_id, tier, seed, shard, n, n_shards, budget, q, stop, examples):
    os.setpgid(0, 0)
    signal.signal(signal.SIGTERM, lambda *a: os._exit(0))
    import hypothesis as H
    from hypothesis import strategies as st
    check = load(check_id)
    env = Env(shard)
    env.tier = tier
    t0 = time.monotonic()
    stat = dict(evals=0, hashes=set(), labels={}, samples=[], skipped=0, examples=0)
    fails = []       # (size, case, message)
    state = dict(first=None, done=False)
    known = known_cases(check_id)
    shrink_budget = 40 if tier == "quick" else 240
    if "VERIF_SHRINK" in os.environ:
        shrink_budget = float(os.environ["VERIF_SHRINK"])

    def one(case, is_example=False):
        if state["done"]:
            return
        if state["first"] is None:
            if time.monotonic() - t0 > budget or stop.is_set():
                stat["skipped"] += 1
                return
        elif time.monotonic() - state["first"] > shrink_budget:
            state["done"] = True
            return
        stat["evals"] += 1
        try:
            labels, nt = execute(check, env, case)
        except Violation as v:
            msg = str(v)
            k = match_known(known, case, msg)
            if k is not None:
                stat["labels"]["known:" + k] = stat["labels"].get("known:" + k, 0) + 1
                return
            if state["first"] is None:
                state["first"] = time.monotonic()
            fails.append((len(json.dumps(case)), case, msg))
            raise
        for l in labels:
            stat["labels"][l] = stat["labels"].get(l, 0) + 1
        if nt:
            h = jhash(case)
            if h not in stat["hashes"]:
                stat["hashes"].add(h)
                if len(stat["samples"]) < 3 and len(json.dumps(case)) < 6000:
                    stat["samples"].append(case)

    err = None
    try:
        for i, ex in enumerate(examples):
            if i % n_shards == shard:
                stat["examples"] += 1
                try:
                    one(ex, True)
                except Violation:
                    break
        if not fails:
            H.seed  # noqa
            prof = H.settings(max_examples=max(1, n), database=None, deadline=None,
                              suppress_health_check=list(H.HealthCheck),
                              phases=(H.Phase.generate, H.Phase.shrink),
                              report_multiple_bugs=False, derandomize=False, print_blob=False,
                              verbosity=H.Verbosity.quiet)

            @H.seed(seed * 1000 + shard)
            @prof
            @H.given(check.strategy(tier))
            def test(case):
                one(case)
            try:
                test()
            except Violation:
                pass
            except BaseException as e:  # Flaky etc.
                if not fails:
                    raise
    except Exception:
        err = traceback.format_exc()
    finally:
        env.close()
    if fails:
        stop.set()
    # candidates: the smallest, and the first
    cand = []
    if fails:
        cand = [min(fails, key=lambda f: f[0])[1:], fails[0][1:]]
    q.put(dict(shard=shard, evals=stat["evals"], hashes=list(stat["hashes"]), labels=stat["labels"],
               samples=stat["samples"], skipped=stat["skipped"], examples=stat["examples"],
               fails=cand, err=err, wall=time.monotonic() - t0))
    q.close()
    q.join_thread()
    os._exit(0)


def load(check_id):
    m = importlib.import_module("vf.checks.%s" % check_id.lower())
    return m.check


def known_cases(pid):
    """Known findings: /verif/known_findings.txt, lines that are JSON objects."""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                if l.startswith("{"):
                    e = json.loads(l)
                    if e["property"] == pid:
                        out.append(e)
    except OSError:
        pass
    return out


def match_known(known, case, msg):
    for e in known:
        m = e["match"]
        if "case" in m and m["case"] == case:
            return e["what"]
        if "label" in m and isinstance(case, dict) and case.get("known_label") == m["label"]:
            return e["what"]
        if "message" in m and m["message"] in msg:
            return e["what"]
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int)
    ap.add_argument("--shards", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--repeat", type=int, default=1)
    ap.add_argument("--no-examples", action="store_true")
    a = ap.parse_args()
    pid = a.check.upper()
    tier = a.tier
    t0 = time.monotonic()
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    lim = 4096 if hard == resource.RLIM_INFINITY else min(4096, hard)
    resource.setrlimit(resource.RLIMIT_NOFILE, (lim, hard))
    os.umask(0o022)
    check = load(pid)
    try:
        build.native()
        for v in check.needs:
            {"perl": build.perl, "python": build.python}.get(v, lambda v=v: build.core(v))()
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e)
        return 2
    build_s = time.monotonic() - t0

    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)["case"]
        env = Env(0)
        env.tier = tier
        rc = 0
        try:
            for i in range(a.repeat):
                try:
                    print("ok", execute(check, env, case))
                except Violation as v:
                    print("VIOLATION property=%s replay=%s" % (pid, a.replay))
                    print("  " + str(v))
                    rc = 1
        finally:
            env.close()
        return rc

    total = a.n if a.n is not None else check.cases[tier]
    shards = a.shards or min(check.shards or 8, max(1, total))
    n = (total + shards - 1) // shards
    budget = check.budget[tier]
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Event()
    examples = [] if a.no_examples else list(check.examples)
    ps = []
    for s in range(shards):
        p = ctx.Process(target=worker, args=(pid, tier, a.seed, s, n, shards, budget, q, stop, examples))
        p.start()
        ps.append(p)
    res = []
    import queue as Q
    while len(res) < shards:
        try:
            res.append(q.get(timeout=1))
        except Q.Empty:
            dead = [p for p in ps if not p.is_alive()]
            if len(dead) == len(ps):
                try:
                    while len(res) < shards:
                        res.append(q.get(timeout=2))
                except Q.Empty:
                    break
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    errs = [r["err"] for r in res if r["err"]]
    if len(res) < shards:
        errs.append("%d worker(s) died" % (shards - len(res)))

    # -- confirm failures by replaying them outside the library
    violation = None
    unconfirmed = []
    fails = sorted((f for r in res for f in r["fails"]), key=lambda f: len(json.dumps(f[0])))
    env = Env(99)
    env.tier = tier
    known = known_cases(pid)
    tried = set()
    tc = time.monotonic()
    try:
        for case, msg in fails:
            h = jhash(case)
            if h in tried or time.monotonic() - tc > 120:
                continue
            tried.add(h)
            hits = 0
            for i in range(6):
                try:
                    execute(check, env, case)
                except Violation as v:
                    if match_known(known, case, str(v)) is None:
                        hits += 1
                        msg = str(v)
                if hits >= 3 or (hits >= 2 and i >= 4) or (i >= 2 and hits == 0):
                    break
            if hits >= 2:
                violation = (case, msg, hits)
                break
            unconfirmed.append((case, msg, hits))
    finally:
        env.close()
    hashes = set(h for r in res for h in r["hashes"])
    labels = {}
    for r in res:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = [s for r in sorted(res, key=lambda r: r["shard"]) for s in r["samples"]][:4]
    evals = sum(r["evals"] for r in res)
    skipped = sum(r["skipped"] for r in res)
    ev = dict(property=pid, tier=tier, seed=a.seed, level=check.level,
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=check.rule,
                            samples=samples, labels=dict(sorted(labels.items())),
                            regression_examples=sum(r["examples"] for r in res),
                            skipped_by_time_budget=skipped,
                            unconfirmed_failures=[dict(case=c, message=m, reproductions=h)
                                                  for c, m, h in unconfirmed][:3]),
              assumptions=check.assumptions, wall_s=round(time.monotonic() - t0, 2),
              violations=1 if violation else 0)
    ev["coverage"]["build_s"] = round(build_s, 2)
    outdir = os.environ.get("VERIF_OUT", VERIF)
    os.makedirs(os.path.join(outdir, "evidence"), exist_ok=True)
    with open(os.path.join(outdir, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial, %d skipped) in %.1f s" % (
        pid, tier, a.seed, evals, len(hashes), skipped, time.monotonic() - t0))
    for k, v in sorted(labels.items()):
        print("   %6d %s" % (v, k))
    for e in known:
        if labels.get("known:" + e["what"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    for c, m, h in unconfirmed:
        print("   unconfirmed failure (%d reproductions): %s" % (h, m[:300]))
        print("      " + json.dumps(c)[:600])
    if violation:
        case, msg, hits = violation
        rd = os.path.join(outdir, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (pid, jhash(case)[:10]))
        with open(path, "w") as f:
            json.dump(dict(property=pid, case=case, message=msg, seed=a.seed, tier=tier), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)))
        print("  " + msg)
        return 1
    if errs:
        for e in errs:
            print("CHECK ERROR: " + e)
        return 3
    if evals == 0:
        print("CHECK ERROR: nothing was evaluated")
        return 3
    return 0


class Check:
    """What a check module defines."""
    needs = ("san",)
    cases = dict(quick=400, thorough=8000)
    budget = dict(quick=240, thorough=3000)
    shards = 8
    rule = ""
    level = "exploration"
    assumptions = ()
    examples = ()

    def strategy(self, tier):
        raise NotImplementedError

    def run(self, env, case):
        raise NotImplementedError


if __name__ == "__main__":
    sys.exit(main())
