import vp
from p_a01 import jobs

TECHNIQUE = 'TLA+ specification of the candidates of a sentence (Dictionary.tla, Unknown.tla); the candidates of the real lattice are validated against it'
NOTE = 'Random dictionaries (homographs, prefix chains, aliases, lists) and inputs; every dictionary candidate that starts at a reachable position, with its span and all fields of all its rows. Sampled.'


def run(ck):
    vp.build(["vh_core"])
    n = 300 if ck.thorough else 70
    job, ms = jobs(ck, "a02", n, 1, 16, 0, 0, "in ib cp nodes fields ph", lists=True, nmax=1, nrows=24)
    mf = ck.path("models.json")
    job2, ms2 = long_words(ck, 24 if ck.thorough else 8, len(ms))
    with open(job, "a") as h:
        h.write(open(job2).read())
    ms += ms2
    gen_write(mf, ms)
    out = ck.path("obs.ndjson")
    vp.harness("vh_core", ["an", job, out], timeout=500)
    ck.validate_cases("candidates", "T_Unknown", file=out, env={"MODE": "dic", "MODELS": mf},
                      note="%d random models, 16 inputs each" % n)


def long_words(ck, n, first):
    # words of up to a hundred characters, and texts that contain them, almost contain them, or end inside of them
    import random
    import gen, gen_an
    rng = random.Random(ck.seed * 31 + 7)
    job, ms = ck.path("a02l.job"), []
    with open(job, "w") as h:
        for i in range(n):
            ab = rng.sample(gen.alphabet(rng), 2)
            words = ["".join(rng.choice(ab) if rng.random() < .2 else ab[0] for _ in range(rng.choice([15, 24, 31, 32, 33, 63, 64, 65, 100])))
                     for _ in range(4)]
            s, d, _, surf, m, line = gen_an.model(ck, rng, "a02l", first + i, nrows=24, nmax=1, ab=ab, words=words)
            tr = s.trie_name()
            ws = [r[tr] for r in d.rows if len(r[tr]) > 10] or words
            ms.append(m)
            h.write(line + gen_an.cline({"beam": 1}) + gen_an.wline(rng))
            for _ in range(5):
                w = rng.choice(ws)
                k = rng.random()
                if k < .3:
                    w = w[:-1] + rng.choice(ab)
                elif k < .5:
                    w = w[:rng.randint(len(w) // 2, len(w))]
                t = "".join(rng.choice(ab) for _ in range(rng.randint(0, 3))) + w + rng.choice(["", ab[0], ab[1]])
                h.write("IN %s\n" % gen_an.hx(t.encode()))
    return job, ms


def gen_write(fn, ms):
    import json
    with open(fn, "w") as h:
        for m in ms:
            h.write(json.dumps(m) + "\n")
