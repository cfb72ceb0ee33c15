import json, random
import gen, gen_an, gen_train, vp

TECHNIQUE = 'TLA+ specification of gold paths, comparison of paths, loss and feature difference (Training.tla); what the real trainer computes for random models, weights and examples is validated against it'
NOTE = 'Random models with training fields in any order and weight, with and without unk_gold_if, examples of up to twelve words of the dictionary, unknown ones and unknown values; the features of both paths are recomputed by the harness with the n-gram code that A05 checks. The modes that stop early may stop anywhere after the step that makes them stop. Examples are sampled, the comparison of paths is model-checked for all pairs over a short text.'


def job(ck, tag, n, nex, modes=("full",)):
    rng = random.Random(ck.seed * 7 + 1)
    fn = ck.path(tag + ".job")
    with open(fn, "w") as h:
        for i in range(n):
            s, d, ab, surf, m, line = gen_an.model(ck, rng, tag, i, nrows=10, lists=True, nmax=3,
                                                   train=gen_train.train_fields(unused=0.3))
            h.write(line)
            for _ in range(2):
                h.write("CONF beam=%d\n" % rng.choice([1, 1, 2, 5, 20]))
                h.write("W %d %d\n" % (rng.randint(0, 16), rng.choice([4, 8, 12, 12])))
                h.write("MODE %s\n" % rng.choice(modes))
                h.write("FRESH %d\n" % (rng.random() < 0.2))
                for _ in range(nex):
                    ws = gen_train.words(rng, s, d, surf, ab, rng.choice([1, 2, 3, 4, 6, 12]))
                    h.write("EX %s %s\n" % (gen_an.hx(gen_train.csv_words(s, ws).encode()),
                                            gen_an.hx(json.dumps(gen_train.expect(s, m, ws)).encode())))
    return fn


def run(ck):
    vp.build(["vh_train"])
    for ln, lab in [(3, "1,2"), (4, "1")] + ([(4, "1,2")] if ck.thorough else []):
        r = vp.model_check("MC_Training", "SPECIFICATION Spec\nCONSTANTS Len0 = %d\n Labels = {%s}\nINVARIANTS Covers Zero Right\n" % (ln, lab))
        ck.model("MC_Training", r, "comparison of all pairs of paths over %d characters, labels %s" % (ln, lab))
    n = 600 if ck.thorough else 90
    out = ck.path("obs.ndjson")
    vp.harness("vh_train", ["loss", job(ck, "t02", n, 6, ("full", "full", "falloff", "maxviol")), out], timeout=600)
    ck.validate_cases("examples", "T_Training", file=out, note="%d models" % n)
