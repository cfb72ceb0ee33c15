import vp

TECHNIQUE = 'TLA+ models of open addressing and of the two-generation cache checked exhaustively against maps and recency; random histories of the real containers are replayed against the specification (Containers.tla)'
NOTE = 'Histories of up to 250 operations (more in thorough), keys with good, colliding and constant hashes, trivially and not trivially destructible elements with a count of live objects; pools and interning buffers with every block painted and compared. Histories are sampled; the models are exhaustive for small tables.'


def run(ck):
    vp.build(["vh_util"])
    for h, keys, width in [("A", 5, 4), ("C", 5, 4), ("B", 6, 4)] + ([("A", 6, 4), ("C", 6, 4), ("A", 6, 2), ("A", 6, 8)] if ck.thorough else []):
        r = vp.model_check("MC_Flat", "SPECIFICATION Spec\nCONSTANTS Keys = {%s}\n HashOf <- Hash%s\n Width = %d\n MaxLg = 3\nINVARIANTS Holds Counts Free Small\n"
                           % (",".join(map(str, range(1, keys + 1))), h, width))
        ck.model("MC_Flat", r, "open addressing with tombstones is a map and keeps a free slot: hash %s, %d keys, %d slots" % (h, keys, width))
    for cap, keys in [(1, 3), (2, 5)] + ([(3, 7)] if ck.thorough else []):
        r = vp.model_check("MC_Lru", "SPECIFICATION Spec\nCONSTANTS Keys = {%s}\n Cap = %d\nINVARIANTS Recent Bounded\n"
                           % (",".join(map(str, range(1, keys + 1))), cap))
        ck.model("MC_Lru", r, "two generations of %d: the last %d keys stay, nothing survives twice as many others" % (cap, cap))
    n = 6000 if ck.thorough else 900
    out = ck.path("obs.ndjson")
    vp.harness("vh_util", ["cont", out, ck.seed, n], timeout=300)
    ck.validate_cases("containers", "T_Containers", file=out, note="%d histories" % n)
