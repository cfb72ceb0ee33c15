import json, random
import gen_an, vp
from p_a07 import damaged

TECHNIQUE = 'TLA+ specification of an analyser as a state machine whose only state is its settings; recorded histories of one real analyser (texts, refused texts, interrupted analyses, changed beams) are validated against it with the answers of fresh analysers'
NOTE = 'Random models, settings and histories of 25 calls: accepted, damaged, empty, oversized, long and repeated texts, analyses given up after any step, changes of the global beam. Status, lattice with all fields and placeholders, all beams, global beams and the best path are compared. Sampled.'


def session(rng, ab, surf, c, ncalls):
    """[(lines of the job, call or None)]"""
    calls, seen = [], []
    for _ in range(ncalls):
        r = rng.random()
        if r < 0.08 and "astep" not in c:
            l = rng.choice([0, 1, 2, 3, 6])
            chk = rng.choice([0, 0, 1, 2]) if l else 0
            calls.append(("gb", [l, chk, rng.choice([1, 2, 3]) if chk else 0]))
            continue
        if seen and r < 0.25:
            b = rng.choice(seen)
        elif r < 0.4:
            b = damaged(rng, ab, surf)
        elif r < 0.45:
            b = b""
        elif r < 0.55:
            b = "".join(rng.choice(surf) if rng.random() < 0.6 else rng.choice(ab) for _ in range(rng.randint(12, 30))).encode()
        else:
            b = gen_an.inputs(rng, ab, surf, 1)[0]
        seen.append(b)
        calls.append(("cut", b, rng.randint(1, 4)) if rng.random() < 0.12 else ("in", b))
    return calls


def run(ck):
    vp.build(["vh_core"])
    r = vp.model_check("MC_Session", "SPECIFICATION Spec\nCONSTANTS Texts = {1, 2}\n Confs = {1, 2}\n MaxCalls = %d\nINVARIANT Own\n"
                       % (6 if ck.thorough else 4))
    ck.model("MC_Session", r, "which texts and settings go into the parts of an analyser, all histories of %d calls" % (6 if ck.thorough else 4))
    rng = random.Random(ck.seed * 1299709 + 11)
    n = 160 if ck.thorough else 45
    j1, j2 = ck.path("hist.job"), ck.path("alone.job")
    o1, o2 = ck.path("hist.nd"), ck.path("alone.nd")
    dump = "DUMP nodes fields ph beam path\n"
    ses = []
    with open(j1, "w") as h, open(j2, "w") as a:
        h.write(dump + "FRESH 0\n")
        a.write(dump + "FRESH 1\n")
        for i in range(n):
            s, d, ab, surf, m, line = gen_an.model(ck, rng, "a06", i, nmax=3, lists=True)
            h.write(line)
            a.write(line)
            for _ in range(3):
                c = gen_an.conf(rng, rng.random() < 0.5, rng.random() < 0.3)
                if rng.random() < 0.3:
                    c["maxin"] = rng.choice([6, 12, 20])
                w = gen_an.wline(rng)
                h.write(gen_an.cline(c) + w)
                calls = session(rng, ab, surf, c, 25)
                gb0 = [c.get("gbeam", 0), c.get("rcheck", 0), c.get("rbeam", 0)]
                need, gb = [], gb0
                for k in calls:
                    if k[0] == "gb":
                        gb = k[1]
                        h.write("GB %d %d %d\n" % tuple(gb))
                    else:
                        if k[0] == "cut":
                            h.write("UPTO %d\n" % k[2])
                        elif (gb, k[1]) not in need:
                            need.append((gb, k[1]))
                        h.write("IN %s\n" % gen_an.hx(k[1]))
                for g, b in need:
                    a.write(gen_an.cline(dict(c, gbeam=g[0], rcheck=g[1], rbeam=g[2])) + w + "IN %s\n" % gen_an.hx(b))
                ses.append((gb0, c, calls, need))
    vp.harness("vh_core", ["an", j1, o1], timeout=300)
    vp.harness("vh_core", ["an", j2, o2], timeout=300)
    f1, f2 = open(o1), open(o2)

    def obs(f):
        o = json.loads(f.readline())
        o.pop("m", None)
        return o
    cases = ck.path("sessions.ndjson")
    with open(cases, "w") as out:
        for gb0, c, calls, need in ses:
            cs = []
            for k in calls:
                if k[0] == "gb":
                    cs.append({"op": "gb", "v": k[1]})
                elif k[0] == "cut":
                    obs(f1)
                    cs.append({"op": "cut", "ib": list(k[1])})
                else:
                    cs.append({"op": "in", "ib": list(k[1]), "o": obs(f1)})
            al = [{"gb": g, "ib": list(b), "o": obs(f2)} for g, b in need]
            out.write(json.dumps({"conf": c, "gb": gb0, "maxin": c.get("maxin", 4096), "calls": cs, "alone": al}) + "\n")
    assert not f1.readline() and not f2.readline()
    ck.validate_cases("sessions", "T_Session", file=cases, note="%d random models, 3 sessions each, 25 calls each" % n)
