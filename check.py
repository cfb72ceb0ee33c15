#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer."""
import importlib, json, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vp


def run(pid, tier, seed):
    mod = importlib.import_module("p_" + pid.lower())
    ck = vp.Check(pid, tier, seed)
    try:
        mod.run(ck)
    except vp.Crash as c:
        # the code under test died or hung while an observation was recorded
        ck.violation("crash", "the code under test crashed or hung: %s" % c, {"crash": str(c)})
    except Exception:
        # what was rejected before can leave nothing for the rest to work on
        if not ck.viol:
            raise
        traceback.print_exc()
    return ck


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        ck = run(pid, tier, seed)
        fresh, ev = vp.finish(ck)
        if fresh:
            # report a rejection only if running it again repeats it
            vp.log("rejected; running again to confirm:", fresh[0][1][:1500])
            ck2 = run(pid, tier, seed)
            fresh2, ev2 = vp.finish(ck2)
            if not fresh2:
                print("rejection did not repeat; no answer", file=sys.stderr)
                for v in fresh[:5]:
                    print("  once: " + v[1][:1500], file=sys.stderr)
                return 2
            fresh, ev = fresh2, ev2
        vp.write_evidence(ev)
    except vp.CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (pid, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    if fresh:
        d = os.path.join(vp.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, pid + ".json")
        with open(f, "w") as h:
            json.dump([{"key": v[0], "what": v[1], "replay": v[2]} for v in fresh[:20]], h, indent=1)
        for v in fresh[:5]:
            print("  " + v[1][:800])
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    print("property %s held: %s" % (pid, json.dumps({k: v for k, v in ev["coverage"].items()
                                                     if isinstance(v, int)})))
    return 0


if __name__ == "__main__":
    sys.exit(main())
