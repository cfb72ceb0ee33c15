import gen_an, vp
from p_a01 import jobs
from p_a04 import search_model

TECHNIQUE = 'TLA+ specification of the global beam, the right check and automatic beam sizes; recorded global beams and node beams of the real analyser are validated; the search is model-checked over all weights of small lattices'
NOTE = 'Random models, beam settings (left, check, right, automatic) and inputs; which arrivals are kept, which nodes get all of them (any choice among ties), and every score. Sampled.'


def run(ck):
    vp.build(["vh_core"])
    search_model(ck, [(3, 2, "FALSE")])
    n = 200 if ck.thorough else 50
    job, ms = jobs(ck, "a09", n, 5, 5, 1, 0.2, "in cp conf beam ngrams path", nmax=2)
    out = ck.path("obs.ndjson")
    vp.harness("vh_core", ["an", job, out], timeout=500)
    ck.validate_cases("gbeams", "T_Lattice", file=out, env={"MODE": "gbeam"},
                      note="%d random models, 5 settings each, 5 inputs each" % n)
