import gen_an, vp
from p_a01 import jobs

TECHNIQUE = 'TLA+ specification of beam search; beams recorded from the real analyser over random lattices and weights are validated against the n-gram weights; the specification itself is model checked for optimality with wide beams'
NOTE = 'Weights are small integers so that sums are exact; every beam element of every node is checked for its score and for being among the best continuations. Random models and inputs, not all lattices; the conclusion that a wide beam finds the best path is checked exhaustively on the specification for small lattices.'


def search_model(ck, shapes):
    """the search itself, over all weights of small lattices"""
    for n, shape, bi in shapes:
        r = vp.model_check("MC_Beam", "SPECIFICATION Spec\nCONSTANTS N = %d\n Shape = %d\n Scores = {0, 1}\n Beams = {1, 2, 6}\n"
                           " Gbeams = {0, 1, 6}\n Bigram = %s\nINVARIANTS Sums Found\n" % (n, shape, bi))
        ck.model("MC_Beam", r, "lattice %d with %d characters, all weights of %s" % (shape, n, "bigrams" if bi == "TRUE" else "trigrams"))


def run(ck):
    vp.build(["vh_core"])
    search_model(ck, [(2, 1, "FALSE"), (3, 3, "TRUE")])
    n = 200 if ck.thorough else 50
    job, ms = jobs(ck, "a04", n, 3, 6, 0, 0.1, "in cp conf beam ngrams path", nmax=2)
    out = ck.path("obs.ndjson")
    vp.harness("vh_core", ["an", job, out], timeout=500)
    ck.validate_cases("beams", "T_Lattice", file=out, env={"MODE": "beam"},
                      note="%d random models, 3 settings each, 6 inputs each" % n)
