import json, random
import gen_an, gen_feat, vp
from p_a02 import gen_write

TECHNIQUE = 'TLA+ specification of what every feature template may depend on (Features.tla); the hashes the real code computes for all contexts of many sentences are compared with the keys of the specification, template by template'
NOTE = 'Random templates over fields, lengths, characters, character classes, placeholders, matches and conditional lists; all contexts kept by the search in several sentences per model. One hash collision per template is let through (32 bit). Conditional lists of one length in both branches are left to the known finding branch-aliasing.'


def observe(job, out):
    """observations of a job grouped by model"""
    res = {}
    vp.harness("vh_core", ["an", job, out], timeout=600)
    for l in open(out):
        o = json.loads(l)
        if o["ok"] and o["tr"]:
            res.setdefault(o["m"], []).append({k: o[k] for k in ("ib", "nn", "tr")})
    return [{"m": m, "ins": v} for m, v in sorted(res.items())]


def collect(ck, tag, n, nin, feats, models, nrows=16, maxlen=7, **kw):
    rng = random.Random(ck.seed * 6151 + sum(map(ord, tag)))
    job, ms = ck.path(tag + ".job"), []
    with open(job, "w") as h:
        h.write("DUMP ib feat\n")
        for i in range(n):
            s, d, ab, surf, m, line = gen_an.model(ck, rng, tag, i, feats=feats, nrows=nrows, lists=True, **kw)
            m.update(gen_feat.finish(s, d))
            ms.append(m)
            h.write(line + "CONF beam=%d\n" % rng.choice([1, 2, 3]))
            h.write("W %d 12\n" % rng.randrange(1 << 20))
            for b in gen_an.inputs(rng, ab, surf, nin, maxlen):
                h.write("IN %s\n" % gen_an.hx(b))
    gen_write(models, ms)
    return observe(job, ck.path(tag + ".raw"))


def branches(ck):
    """conditional lists of one length: different fields must not share weights"""
    sp, df, job, mf = (ck.path("branch." + x) for x in ("spec", "csv", "job", "models"))
    open(sp, "w").write('field 1 a string trie_index\nfield 2 b string\nfield 3 c string\n'
                        'feature x = match a with "p" then [b] else [c]\nngram [x]\n')
    rows = [["p", "u", "v"], ["q", "w", "z"], ["r", "w", "v"]]
    open(df, "w").write("".join(",".join(r) + "\n" for r in rows))
    open(job, "w").write("DUMP ib feat\nMODEL %s %s -\nCONF beam=3\nW 1 12\nIN %s\n" % (sp, df, b"pqr".hex()))
    prim = {"x": {"k": "match", "fs": [1], "vals": [["p"]], "then": [2], "else": [3]}}
    gen_write(mf, [{"types": ["string"] * 3, "names": ["a", "b", "c"], "trie": 1, "prims": prim, "ngrams": [[["x"]]],
                    "cplen": {v: 1 for r in rows for v in r}}])
    cases = observe(job, ck.path("branch.raw"))
    for o in cases:
        o["case"] = "exact"
    ck.validate_cases("branch", "T_Features", cases=cases, key=lambda c: "branch-aliasing", env={"MODELS": mf},
                      note="conditional lists of one length")


def run(ck):
    vp.build(["vh_core"])
    n = 300 if ck.thorough else 90
    mf = ck.path("models.json")
    cases = collect(ck, "a05", n, 14, gen_feat.all_feats(ck.path), mf, cover=0.95)
    ck.validate_cases("keys", "T_Features", cases=cases, env={"MODELS": mf},
                      note="%d random models, 14 sentences each" % n)
    branches(ck)
