import json, random
import gen, gen_an, gen_rnn, vp

TECHNIQUE = 'TLA+ specification of scoring paths with a recurrent network (Rnn.tla: words of the network, saturated units, direct connections, weights); networks written to files are run by the real environment and analyser, and every step of every path that survives the search is validated against it; merging of paths is model-checked'
NOTE = 'Random models, vocabularies and networks of up to nine units whose activations are saturated, so that scores are exact; order of the direct connections up to four. The network is read from its files or from inside the model, with and without options at the time of the analysis. The arithmetic of unsaturated activations is not covered.'


def hx(s):
    return gen_an.hx(s.encode()) if s else "-"


def opts(rng, d):
    out = []
    for k, vs in [("nce", [0, 0.25, -9, 3.5]), ("ukc", [0, -6, 2.25, -1]), ("ukl", [0, -1.5, 0.5]), ("pw", [1, 0.5, 2, 0.25, 0]),
                  ("rw", [1, 0.5, 2, 0.25])]:
        if rng.random() < 0.4:
            v = rng.choice(vs)
            out.append("%s=%s" % (k, v))
            d[k] = v
    return out


def job(ck, n):
    rng = random.Random(ck.seed * 60013 + 11)
    fn, nets = ck.path("a10.job"), []
    with open(fn, "w") as h:
        mi = 0
        while mi < n:
            s, d, ab, surf, m, line = gen_an.model(ck, rng, "a10", mi, nrows=12, cover=0.95, lists=False)
            used = s.used()
            tr = s.trie_name()
            fs = [f.name for f in s.fields if f.typ == "string" and f.name in used]
            sp, df = line.split()[1:3]
            if line.split()[3:] not in ([], ["-"]) and any(x.endswith(":1") for x in line.split()[3].split(",")):
                continue
            mi += 1
            h.write("MODEL %s %s %d %d\n" % (sp, df, rng.randint(0, 16), rng.choice([4, 8, 12])))
            for k in range(3):
                fields = [tr] if rng.random() < 0.9 else []
                rest = [f for f in fs if f != tr]
                fields += rng.sample(rest, rng.randint(0 if fields else min(1, len(rest)), len(rest)))
                fields = fields[:3] or [tr]
                rng.shuffle(fields)
                eos, unk = rng.choice(["</s>", "</s>", "E"]), rng.choice(["<unk>", "<unk>", "U", ""])
                sep = rng.choice("_|+")
                voc = gen_rnn.vocabulary(rng, d, fields, ab, tr, eos, unk, sep)
                f = ck.path("net%d_%d" % (mi, k))
                net = gen_rnn.network(rng, f, [t for t, _ in voc])
                net["words"] = [[gen.lat(x) for x in v] for _, v in voc]
                net["off"] = False
                net["unk"] = next((i for i, (t, _) in enumerate(voc) if unk and t == unk), -1)
                c = {"nce": None, "ukc": -6, "ukl": -1.5, "pw": 1, "rw": 1}
                o = opts(rng, c)
                ln = ["RNN", rng.choice(["file", "embed", "embed"]), f] + o + ["fields=" + ",".join(fields)]
                if eos != "</s>" or rng.random() < 0.3:
                    ln.append("eos=" + hx(eos))
                if unk != "<unk>":
                    ln.append("unk=" + hx(unk))
                if sep != "_":
                    ln.append("sep=" + hx(sep))
                if ln[1] == "embed" and rng.random() < 0.5:
                    o = opts(rng, c)
                    if rng.random() < 0.15:
                        o.append("rw=0")
                        c["rw"] = 0
                    ln += ["--"] + o
                    net["off"] = c["rw"] == 0
                net["nc"] = net["lnz"] if c["nce"] is None else int(c["nce"] * 64)
                net["ukc"], net["ukl"] = int(c["ukc"] * 64), int(c["ukl"] * 64)
                net["pw"], net["rw"] = int(c["pw"] * 4), int(c["rw"] * 4)
                if net["off"]:
                    net["pw"] = 4  # the order of the paths is that of the features alone
                nets.append(net)
                h.write(" ".join(ln) + "\n")
                for _ in range(2):
                    cf = gen_an.conf(rng, True)
                    h.write(gen_an.cline(cf))
                    for b in gen_an.inputs(rng, ab, surf, 4):
                        h.write("IN %s\n" % gen_an.hx(b))
    with open(ck.path("nets.ndjson"), "w") as h:
        for x in nets:
            h.write(json.dumps(x) + "\n")
    return fn


def run(ck):
    vp.build(["vh_core"])
    r = vp.model_check("MC_Rnn", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nINVARIANTS Merge Together\n" % (6 if ck.thorough else 4))
    ck.model("MC_Rnn", r, "all networks of one unit over two words, all paths")
    n = 500 if ck.thorough else 100
    out = ck.path("obs.ndjson")
    vp.harness("vh_core", ["rnn", job(ck, n), out], timeout=500)
    ck.validate_cases("network", "T_Rnn", file=out, env={"NETS": ck.path("nets.ndjson")}, note="%d random models, 3 networks each" % n)
