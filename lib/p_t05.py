import vp

TECHNIQUE = 'TLA+ rules of confidence-weighted updates (Scw.tla), their consequences model-checked; histories of updates of the real learner with dumped weights and variances are validated against the rules'
NOTE = 'Random histories of up to 120 updates over up to 2^10 features with scores of up to 7 in quarters; whether the margin is met is decided in the specification in fixed point, with a band around the threshold in which either behaviour is accepted. A twin learner gets other updates elsewhere and has to agree bit for bit. Histories are sampled.'


def run(ck):
    vp.build(["vh_train"])
    for feats, mw, md in [(2, 6, 3)] + ([(3, 5, 2)] if ck.thorough else []):
        r = vp.model_check("MC_Scw", "SPECIFICATION Spec\nCONSTANTS Features = {%s}\n MaxW = %d\n MaxD = %d\n Goal = 2\nINVARIANTS Positive Grows Inside Direction\nCHECK_DEADLOCK FALSE\n"
                           % (",".join(map(str, range(1, feats + 1))), mw, md))
        ck.model("MC_Scw", r, "any update obeying the rules: %d features, weights up to %d" % (feats, mw))
    n = 6000 if ck.thorough else 900
    parts = []
    jobs = []
    out = ck.path("scw%d.ndjson")
    import concurrent.futures as cf
    k = 6
    with cf.ThreadPoolExecutor(k) as ex:
        list(ex.map(lambda i: vp.harness("vh_train", ["scw", out % i, ck.seed * 1000 + i, n // k], timeout=600), range(k)))
    allf = ck.path("scw.ndjson")
    with open(allf, "w") as h:
        for i in range(k):
            h.write(open(out % i).read())
    ck.validate_cases("updates", "T_Scw", file=allf, note="%d histories of updates" % n)
