import vp

TECHNIQUE = 'TLA+ encoding specification, all truncations and corner values of the real codecs validated against it'
NOTE = 'Corner and random values, composite objects and every truncation point of the encoded bytes; decoded values and statuses must be the specified ones.'


def run(ck):
    vp.build(["vh_util"])
    r = vp.model_check("MC_BinCodec", "INIT Init\nNEXT Next\nCONSTANT MaxOps = %d\nINVARIANTS RoundTrip Cut Followed\n"
                       % (3 if ck.thorough else 2))
    ck.model("MC_BinCodec", r)
    k = 10 if ck.thorough else 1
    for name, n in (("ops", 400 * k), ("raw", 6000 * k), ("struct", 500 * k)):
        f = ck.path(name + ".ndjson")
        vp.harness("vh_util", ["bin_" + name, f, ck.seed, n])
        ck.validate_cases(name, "T_BinCodec", file=f)
