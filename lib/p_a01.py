import random
import gen, gen_an, vp

TECHNIQUE = 'TLA+ specification of the lattice; analyses of random models, settings and inputs by the real analyser are validated node by node and pointer by pointer'
NOTE = 'Sampled: random dictionaries, unknown-word rules, n-gram templates, beams, global beams and inputs; every node span, every end list, every back pointer, every path of the end of sentence beam and the reported path are compared with the specification.'


def jobs(ck, tag, nmodels, nconf, nin, gbeam, auto, dump, **kw):
    rng = random.Random(ck.seed * 104729 + sum(map(ord, tag)))
    job, ms = ck.path(tag + ".job"), []
    with open(job, "w") as h:
        h.write("DUMP %s\n" % dump)
        for i in range(nmodels):
            s, d, ab, surf, m, line = gen_an.model(ck, rng, tag, i, **kw)
            ms.append(m)
            h.write(line)
            for _ in range(nconf):
                h.write(gen_an.cline(gen_an.conf(rng, gbeam == 1 or (gbeam == 2 and rng.random() < 0.5),
                                                 auto and rng.random() < auto)))
                h.write(gen_an.wline(rng))
                for b in gen_an.inputs(rng, ab, surf, nin):
                    h.write("IN %s\n" % gen_an.hx(b))
    return job, ms


def run(ck):
    vp.build(["vh_core"])
    n = 250 if ck.thorough else 60
    job, ms = jobs(ck, "a01", n, 4, 8, 2, 0.15, "in cp conf beam path")
    out = ck.path("obs.ndjson")
    vp.harness("vh_core", ["an", job, out], timeout=500)
    ck.validate_cases("tiling", "T_Lattice", file=out, env={"MODE": "tile"},
                      note="%d random models, 4 settings each, 8 inputs each" % n)
