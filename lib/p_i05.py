import gen_fmt, vp

TECHNIQUE = 'TLA+ specification of the N-best output (NBest.tla, Formats.tla), model-checked to be readable, and the lattice output of the real formatter for random Jumandic models, settings and texts validated against it'
NOTE = 'That the numbering, predecessors and ranks determine the paths is model-checked for all choices of paths in small lattices. The whole text of the real output is compared with the specification, for dictionaries with aliases and special characters, all N, beams, global beams and automatic beams; scores are integers.'


def run(ck):
    vp.build(["vh_jumandic"])
    r = vp.model_check("MC_NBest", "SPECIFICATION Spec\nCONSTANTS W = %d\n R = 3\n Scores = {0, 4}\nINVARIANT Readable\n" % (5 if ck.thorough else 4))
    ck.model("MC_NBest", r, "all choices of three paths of a small lattice")
    n = 250 if ck.thorough else 60
    out, tab = ck.path("obs.ndjson"), ck.path("tables.json")
    vp.harness("vh_jumandic", ["jfmt", gen_fmt.job(ck, "i05", n, 4, 5), out, tab], timeout=600)
    ck.validate_cases("lattice", "T_Formats", file=out, env={"MODE": "lattice", "MODELS": tab}, note="%d models, 4 settings, 5 texts each" % n)
