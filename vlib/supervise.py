"""Runs a check in a process of its own and turns its crash or hang into a reported violation.

The package is compiled by numba without bounds checks: a wrong index may kill the process, a wrong loop condition may
never end. The check notes every case before it runs it (VERIF_JOURNAL); when the process dies of a memory or arithmetic
fault, or a case does not end, the noted case is the reproduction.
"""
import os, sys, json, time, signal, subprocess, hashlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAULTS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL}
HANG = float(os.environ.get("VERIF_HANG", "240"))     # one case takes less than a second
IMPORT = float(os.environ.get("VERIF_IMPORT", "700"))  # compilation takes 20 to 40 s


def main():
    prop, args = sys.argv[1], sys.argv[2:]
    journal = os.path.join(os.environ["VERIF_SCRATCH"], "..", "journal.json")
    t0 = time.time()
    p = subprocess.Popen([sys.executable, "-m", "checks." + prop] + args, env=dict(os.environ, VERIF_JOURNAL=journal), start_new_session=True)

    def stop(*a):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def term(*a):
        stop()
        sys.exit(3)
    signal.signal(signal.SIGTERM, term)
    signal.signal(signal.SIGINT, term)
    why = None
    while True:
        try:
            rc = p.wait(timeout=1)
            break
        except subprocess.TimeoutExpired:
            pass
        try:
            age = time.time() - os.path.getmtime(journal)
            if age > HANG:
                why = "the calculation did not end within %d s" % HANG
        except OSError:
            if time.time() - t0 > IMPORT:
                print("ERROR: the check did not start within %d s" % IMPORT)
                stop()
                return 2
        if why:
            stop()
            rc = p.wait()
            break
    stop()  # whatever the check left running
    if rc >= 0:
        return rc
    if why is None:
        if -rc not in {int(s) for s in FAULTS}:
            print("ERROR: the check was ended by signal %d" % -rc)
            return 2
        why = "the process was killed by %s" % signal.Signals(-rc).name
    if "--replay" in args:
        path = args[args.index("--replay") + 1]
        print("replayed: %s" % why)
        print("VIOLATION property=%s replay=%s" % (prop, path if os.path.isabs(path) else os.path.join(HERE, path)))
        return 1
    try:
        j = json.load(open(journal))
    except (OSError, ValueError):
        print("ERROR: %s before the first case" % why)
        return 2
    case, msg = (j["best"], j["message"]) if j.get("best") is not None else (j["case"], why)
    rdir = os.environ.get("VERIF_REPLAY_DIR", os.path.join(HERE, "replay"))
    os.makedirs(rdir, exist_ok=True)
    h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
    path = os.path.join(rdir, "%s-%s-%s.json" % (prop, j["sub"], h))
    json.dump({"property": prop, "sub": j["sub"], "case": case, "message": msg + " (%s)" % why, "seed": os.environ.get("VERIF_SEED", "1"),
               "how": "run.sh %s --replay <this file>" % prop}, open(path, "w"), indent=1)
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    tier = args[args.index("--tier") + 1] if "--tier" in args else os.environ.get("VERIF_TIER", "quick")
    json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "exploration",
               "coverage": {"evaluations": j["n"], "distinct_nontrivial": j["nt"], "rule": "ended early: " + why, "samples": [{"sub": j["sub"], "case": case}]},
               "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": 1}, open(os.path.join(edir, prop + ".json"), "w"), indent=1)
    print("%s/%s fails: %s" % (prop, j["sub"], msg if msg == why else "%s (%s)" % (msg, why)))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
