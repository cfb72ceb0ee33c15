import concurrent.futures, json, os, random, subprocess
import gen_an, gen_feat, vp
from p_a02 import gen_write

TECHNIQUE = 'TLA+ specifications of beams, scores and feature values, validated on analyses by code generated from random specifications; trace equality with the interpreted features (T_Codegen.tla)'
NOTE = 'Code is generated, compiled and loaded for random specifications with all kinds of features and n-grams; the same texts are analysed with and without it, with all beam settings, with and without keeping the patterns of all templates. Everything observed must be equal, and the beams and hashes of the generated code are validated against the specifications by themselves. Sampled.'


def compile_libs(ck, names, d):
    b = vp.OUT
    inc = ["-I" + x for x in (d, vp.REPO + "/src", vp.REPO + "/libs", b + "/src", b + "/src/core", b + "/src/core/cfg", b + "/src/util/cfg")]

    def one(n):
        p = subprocess.run(["g++", "-w", "-g0", "-O0", "-DNDEBUG", "-fPIC", "-shared", "-std=c++14"] + inc + [n + ".cc", "-o", n + ".so"],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        return n, p.returncode, p.stdout.decode(errors="replace")
    with concurrent.futures.ThreadPoolExecutor(vp.NPROC) as ex:
        for n, rc, out in ex.map(one, names):
            if rc != 0:
                raise vp.Crash(rc, "generated code of %s does not compile: %s" % (n, out[-1500:]))


def run(ck):
    vp.build(["vh_core"])
    rng = random.Random(ck.seed * 8191 + 8)
    d = ck.path("gen")
    os.makedirs(d, exist_ok=True)
    n = 160 if ck.thorough else 40
    models, ms, cg = [], [], []
    for i in range(n):
        feats = gen_feat.all_feats(ck.path) if i % 4 else gen_an.simple_feats
        s, dic, ab, surf, m, line = gen_an.model(ck, rng, "a08", i, feats=feats, nrows=16, lists=True, cover=0.8, nmax=2)
        if i % 4:
            m.update(gen_feat.finish(s, dic))
        ms.append(m)
        sf, df, prio = line.split()[1:]
        name = "Lib%d" % i
        cg.append("%s %s %s %s" % (sf, prio, d, name))
        body = []
        for k in range(4):
            c = gen_an.conf(rng, rng.random() < .6, rng.random() < .15)
            c["allpat"] = k % 2
            w = gen_an.wline(rng)
            body.append("DUMP in ib cp conf nodes beam path %s\n" % ("feat ngrams" if c["allpat"] else ""))
            body.append(gen_an.cline(c) + w)
            for b in gen_an.inputs(rng, ab, surf, 5, 8):
                body.append("IN %s\n" % gen_an.hx(b))
        models.append((line, os.path.join(d, name + ".so"), "".join(body)))
    open(ck.path("cg.job"), "w").write("\n".join(cg) + "\n")
    vp.harness("vh_core", ["codegen", ck.path("cg.job")])
    compile_libs(ck, [x.split()[3] for x in cg], d)
    cases, keys = [], []
    outs = []
    for which in (0, 1):
        job, out = ck.path("job%d" % which), ck.path("obs%d" % which)
        with open(job, "w") as f:
            for line, lib, body in models:
                f.write("LIB %s\n" % (lib if which else "-") + line + body)
        vp.harness("vh_core", ["an", job, out], timeout=600)
        outs.append([json.loads(x) for x in open(out)])
    a, b = outs
    if len(a) != len(b):
        raise vp.CheckError("different numbers of observations")
    fn = ck.path("pairs.ndjson")
    with open(fn, "w") as f:
        for x, y in zip(a, b):
            f.write(json.dumps({"m": x["m"], "a": x, "b": y}) + "\n")
    ck.validate_cases("pairs", "T_Codegen", file=fn, note="%d specifications with generated code, %d analyses" % (n, len(a)))
    # the observations of the generated code against the specifications
    by = {"beam": [], "gbeam": []}
    feats = {}
    for y in b:
        if not y["ok"] or "tr" not in y or not y["cp"]:
            continue
        by["gbeam" if y["c"].get("gbeam", 0) > 0 else "beam"].append(y)
        if (y["m"] - 1) % 4:
            feats.setdefault(y["m"], []).append({k: y[k] for k in ("ib", "nn", "tr")})
    for mode, cs in by.items():
        ck.validate_cases("gen-" + mode, "T_Lattice", cases=cs, env={"MODE": mode}, note="analyses with generated code")
    mf = ck.path("models.json")
    gen_write(mf, ms)
    ck.validate_cases("gen-keys", "T_Features", cases=[{"m": m, "ins": v} for m, v in sorted(feats.items())],
                      env={"MODELS": mf}, note="hashes of generated code")


