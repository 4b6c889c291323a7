"""Common runner: drives Hypothesis over JSON-able cases, shrinks, writes replay + evidence.

A *check* is a list of Sub objects. A Sub has a strategy producing a JSON-able
dict ("case") and a function fn(case, ctx) which raises Violation (via ctx.fail /
ctx.ok / ctx.close) when the code under test breaks the property, and returns
whether the case was non-trivial by the stated rule.

Exit codes: 0 held, 1 VIOLATION line printed, 2 harness error.
"""
import os, sys, json, time, hashlib, traceback, argparse
import numpy as np
from vlib import defaults

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CDDM_REPO", "/repo")
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Violation(AssertionError):
    pass


class _Abort(BaseException):
    pass


class HarnessError(Exception):
    pass


def known_keys(prop):
    keys = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding: "):
                head, _, text = line[len("finding: "):].partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split())
                if kv.get("property") == prop:
                    keys[kv["key"]] = text
    return keys


class Ctx:
    """Handed to the check function: comparisons and case classification."""

    def __init__(self, known=()):
        self.known = set(known)
        self.labels = {}
        self.excluded = {}
        self.comparisons = 0

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def skip_known(self, key):
        """True if `key` is a listed finding: the caller leaves that region out (counted)."""
        if key in self.known:
            self.excluded[key] = self.excluded.get(key, 0) + 1
            return True
        return False

    def fail(self, msg):
        raise Violation(msg)

    def ok(self, cond, msg):
        self.comparisons += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, a, b, msg):
        self.comparisons += 1
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation("%s: shape %s, expected %s" % (msg, a.shape, b.shape))
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            same = np.array_equal(a, b, equal_nan=True)
        else:
            same = np.array_equal(a, b)
        if not same:
            raise Violation("%s: got %s expected %s" % (msg, brief(a), brief(b)))

    def close(self, a, b, msg, scale=None, tol=1e-9, atol=0.0, nan_ok=True):
        """|a-b| <= tol*scale + atol elementwise; scale may be an array (defaults to max(|b|))."""
        self.comparisons += 1
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation("%s: shape %s, expected %s" % (msg, a.shape, b.shape))
        if a.size == 0:
            return
        if a.dtype.kind == b.dtype.kind == "b":
            a, b = a.astype(int), b.astype(int)
        with np.errstate(all="ignore"):
            if scale is None:
                fb = np.abs(b[np.isfinite(b)]) if b.size else np.zeros(1)
                scale = fb.max() if fb.size else 0.0
            lim = tol * np.abs(scale) + atol + 1e-290
            na, nb = np.isnan(a), np.isnan(b)
            bad = (na != nb) if nan_ok else (na | nb)
            diff = np.abs(a - b)
            inf = ~np.isfinite(b) & ~nb
            cmp = ~(na | nb | inf)
            bad = bad | (cmp & ~(diff <= lim)) | (inf & ~(a == b))
        if bad.any():
            idx = tuple(int(i) for i in np.argwhere(bad)[0])
            raise Violation("%s: at index %s got %r expected %r (%d of %d elements differ)" % (
                msg, idx, a[idx], b[idx], int(bad.sum()), bad.size))


def brief(a):
    s = np.array2string(np.asarray(a), threshold=20, precision=6)
    return s if len(s) < 400 else s[:400] + "..."


class Journal:
    """The case being run, for vlib/supervise.py."""

    def __init__(self):
        self.path = os.environ.get("VERIF_JOURNAL")
        self.d = {"n": 0, "nt": 0}

    def note(self, **kw):
        self.d.update(kw)
        if self.path:
            with open(self.path, "w") as f:
                json.dump(self.d, f)


JOURNAL = Journal()


def alive():
    """For cases that take long (starting processes): the case is not hanging."""
    JOURNAL.note()


class Sub:
    def __init__(self, name, strategy, fn, quick=100, thorough=2000, rule=""):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def from_repo(exc):
    """True if the exception was raised while code of the package under test was running."""
    tb = exc.__traceback__
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.realpath(fn).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, case, ctx):
    """Returns (nontrivial, None) or raises Violation; other exceptions: harness errors."""
    defaults.new_case(case)
    try:
        with np.errstate(all="ignore"):
            return bool(sub.fn(json.loads(json.dumps(case)), ctx))
    except Violation:
        raise
    except (KeyboardInterrupt, HarnessError):
        raise
    except Exception as e:
        if isinstance(e, MemoryError) and not from_repo(e):
            raise
        if type(e).__module__.startswith("hypothesis"):
            raise
        if isinstance(e, OSError) and not from_repo(e):
            raise
        if not from_repo(e):  # e.g. a result of an unexpected kind, which the check cannot compare
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("unexpected %s: %s (in the check, %s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)) from e
        else:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(REPO)][-1]
            raise Violation("unexpected %s: %s (in %s:%s)" % (
                type(e).__name__, e, os.path.relpath(where.filename, REPO), where.name)) from (None if isinstance(e, RecursionError) else e)
        raise


def to_builtin(o):
    if isinstance(o, dict):
        return {str(k): to_builtin(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [to_builtin(v) for v in o]
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    return o


def main(prop, subs, probes=None, assumptions=(), argv=None, level="exploration"):
    """probes: {finding key: zero-argument function, True if the finding still shows}."""
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args(argv)
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = float(os.environ.get("VERIF_T0", time.time()))
    known = known_keys(prop)
    try:
        import cddm
        got = os.path.realpath(cddm.__file__)
        if not got.startswith(os.path.realpath(REPO) + os.sep):
            raise HarnessError("cddm imported from %s" % got)
        if args.replay:
            return replay(prop, subs, args.replay, known)
        return explore(prop, subs, probes or {}, assumptions, tier, seed, t0, known, args, level)
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        traceback.print_exc()
        print("ERROR: harness failure in check %s: %s: %s" % (prop, type(e).__name__, e))
        return 2


def replay(prop, subs, path, known):
    if not os.path.isabs(path):  # run.sh changes the working directory
        path = os.path.join(VERIF, path)
    d = json.load(open(path))
    sub = [s for s in subs if s.name == d["sub"]][0]
    JOURNAL.note(sub=sub.name, case=d["case"])
    try:
        run_case(sub, d["case"], Ctx(known))
    except Violation as e:
        print("replayed %s/%s: %s" % (prop, sub.name, e))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("replayed %s/%s: holds" % (prop, sub.name))
    return 0


def explore(prop, subs, probes, assumptions, tier, seed, t0, known, args, level):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, seed as hseed
    from vlib import uniform  # registers the backend

    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "14000"))
    evid = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "per_sub": {}}
    seen_nt = set()
    violations = []
    rules = []

    # ---- known findings: their stored inputs are run first, and reported
    for key, text in known.items():
        probe = probes.get(key)
        if probe is None:
            raise HarnessError("known finding %s has no probe" % key)
        try:
            shows = probe()
        except Exception as e:  # something else is broken: left to the cases below
            print("note: the stored input of finding %s raised %s" % (key, type(e).__name__))
            continue
        if shows:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        else:
            print("note: listed finding %s no longer shows" % key)

    todo = [s for s in subs if not args.only or args.only in s.name]

    def run_sub(si, sub):
        n = max(1, int((sub.quick if tier == "quick" else sub.thorough) * args.scale))
        st = {"evaluations": 0, "nontrivial": 0, "labels": None, "not_run_budget": 0}
        ctx = Ctx(known)
        state = {"best": None, "msg": None, "t_fail": None, "fails": 0}
        samples = []

        def body(case):
            now = time.time()
            if state["t_fail"] is None and now - t0 > budget:
                st["not_run_budget"] += 1
                return
            if state["t_fail"] is not None and now - state["t_fail"] > 60:
                raise _Abort()
            case = to_builtin(case)
            st["evaluations"] += 1
            JOURNAL.note(sub=sub.name, case=case, n=JOURNAL.d["n"] + 1, nt=len(seen_nt))
            try:
                nt = run_case(sub, case, ctx)
            except Violation as e:
                state["fails"] += 1
                if state["t_fail"] is None:
                    state["t_fail"] = now
                size = len(json.dumps(case))
                # Hypothesis only reports ever simpler failures while shrinking
                if state["best"] is None or size <= len(json.dumps(state["best"])):
                    state["best"], state["msg"] = case, str(e)
                    JOURNAL.note(best=case, message=str(e))
                raise
            if nt:
                h = sub.name + case_hash(case)
                if h not in seen_nt:
                    seen_nt.add(h)
                    st["nontrivial"] += 1
                    if len(samples) < 2 or (len(samples) < 4 and st["evaluations"] % 37 == 0):
                        samples.append(case)

        ts = time.time()
        # most cases evenly distributed, the others from Hypothesis' own distribution (small values, boundaries, repetitions)
        own = n // 4
        for bi, (backend, m) in enumerate((("uniform", n - own), ("hypothesis", own))):
            if m == 0 or state["best"] is not None:
                continue
            test = given(sub.strategy)(body)
            test = settings(max_examples=m, database=None, deadline=None, derandomize=False, backend=backend,
                            print_blob=False, report_multiple_bugs=False,
                            suppress_health_check=list(HealthCheck),
                            phases=(Phase.generate, Phase.target, Phase.shrink))(test)
            test = hseed(seed * 1000003 + si * 2 + bi)(test)
            try:
                test()
            except _Abort:
                pass
            except BaseException as e:
                if state["best"] is None:
                    raise
                if not isinstance(e, (Violation,)) and not type(e).__module__.startswith("hypothesis") \
                        and not isinstance(e, BaseExceptionGroup):
                    raise
        st["labels"] = ctx.labels
        st["comparisons"] = ctx.comparisons
        st["wall_s"] = round(time.time() - ts, 2)
        if ctx.excluded:
            st["excluded_known"] = ctx.excluded
        evid["per_sub"][sub.name] = st
        evid["evaluations"] += st["evaluations"]
        evid["distinct_nontrivial"] += st["nontrivial"]
        for c in samples[:2]:
            evid["samples"].append({"sub": sub.name, "case": c})
        rules.append("%s: %s" % (sub.name, sub.rule or "non-trivial as returned by the check"))
        if state["best"] is not None:
            rdir = os.environ.get("VERIF_REPLAY_DIR", os.path.join(VERIF, "replay"))
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-%s.json" % (prop, sub.name, case_hash(state["best"])))
            json.dump({"property": prop, "sub": sub.name, "case": state["best"], "message": state["msg"],
                       "seed": seed, "how": "run.sh %s --replay <this file>" % prop}, open(path, "w"), indent=1)
            violations.append((sub.name, path, state["msg"]))
            print("%s/%s fails: %s" % (prop, sub.name, state["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))

    for si, sub in enumerate(todo):
        run_sub(si, sub)
        if violations:
            break
    evid["rule"] = "Hypothesis-generated cases; a case counts once (by its full content) when non-trivial: " + " | ".join(rules)
    doc = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": evid,
           "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    json.dump(doc, open(os.path.join(edir, prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (
        prop, tier, evid["evaluations"], evid["distinct_nontrivial"], len(violations), doc["wall_s"]))
    for k, s in evid["per_sub"].items():
        print("  %-28s n=%-6d nontrivial=%-6d %.1fs %s" % (k, s["evaluations"], s["nontrivial"], s["wall_s"],
              json.dumps(s["labels"]) if len(s["labels"]) < 25 else len(s["labels"])))
    return 1 if violations else 0
