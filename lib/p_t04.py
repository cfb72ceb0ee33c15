import json, os, random, subprocess
import concurrent.futures as cf
import gen, gen_an, gen_train, vp

TECHNIQUE = 'TLA+ machine of training runs (TrainRun.tla, small trainer model-checked); whole runs of the real trainer with exported, saved and loaded models are validated against it, weights compared bit for bit'
NOTE = 'Random models and corpora in both formats, batches, threads, iterations, modes and feature-table sizes; the exported model also replaces the weights of a model that was trained before. The analyses of sentences without unknown words are trained on as a corpus of their own and have to leave the weights alone. RNN parts are not covered. Runs are sampled.'


def job(ck, tag, n, cli=None):
    rng = random.Random(ck.seed * 97 + 5)
    fn = ck.path(tag + ".job")
    with open(fn, "w") as h:
        for i in range(n):
            s, d, ab, surf, m, line = gen_an.model(ck, rng, tag, i, nrows=10, lists=False, nmax=2,
                                                   train=gen_train.train_fields(flags=False))
            _, spec, dic, _ = (line.split() + ["-"])[:4]
            fmt = rng.choice(["csv", "csv", "csv", "morph"]) if cli is None else "morph"
            exs = []
            for _ in range(rng.choice([1, 2, 5, 12])):
                exs.append(gen_train.words(rng, s, d, surf, ab, rng.choice([1, 2, 3, 5])))
            if fmt == "csv":
                t = "\n".join(gen_train.csv_words(s, ws) for ws in exs)
            else:
                q = lambda v: '"' + v.replace('"', '""') + '"'
                t = "".join(" ".join(q("_".join(q(w[f]) for f, _ in s.train)) for w in ws) + "\n" for ws in exs)
            c = ck.path("%s-%d.txt" % (tag, i))
            open(c, "w", newline="").write(t)
            ss = ck.path("%s-%d.sents" % (tag, i))
            tr = s.trie_name()
            sents = ["".join(rng.choice(surf) for _ in range(rng.choice([1, 2, 4]))) for _ in range(6)]
            sents += ["".join(w[tr] for w in rng.choice(exs)) for _ in range(3)]
            open(ss, "w", newline="").write("\n".join(x for x in sents if "\n" not in x))
            kv = dict(batch=rng.choice([1, 2, 5, 20]), threads=rng.choice([1, 1, 2, 4]), iters=rng.choice([1, 1, 3]),
                      epochs=rng.choice([1, 2, 4, 8]), bits=rng.choice([2, 4, 5, 7, 9]), beam=rng.choice([1, 2, 5]),
                      mode=rng.choice(["full", "full", "falloff", "violation"]), seed=rng.randint(1, 1000),
                      c100=rng.choice([1, 100, 200]), phi100=rng.choice([50, 100, 165]), fmt=fmt, corpus=c, spec=spec,
                      dic=dic, sents=ss, twice=int(rng.random() < 0.3))
            if cli is not None:
                # in bigger batches an example is analysed while the previous one changes the weights: what is
                # learned depends on the schedule
                kv.update(threads=1, iters=1, twice=0)
                if len(exs) > 1:
                    kv.update(batch=1)
                cli.append(kv)
            h.write("RUN " + " ".join("%s=%s" % x for x in kv.items()) + "\n")
    return fn


def tool(ck, i, kv):
    """the training program with the same settings; returns its weights as an event"""
    d = ck.path("cli%d" % i)
    os.makedirs(d, exist_ok=True)
    seed, out = os.path.join(d, "seed"), os.path.join(d, "out")
    vp.harness("vh_train", ["dicmodel", kv["spec"], kv["dic"], seed])
    cmd = [vp.exe("jumanpp_v2_train"), "--model-input=" + seed, "--model-output=" + out, "--corpus=" + kv["corpus"],
           "--size=%d" % kv["bits"], "--seed=%d" % kv["seed"], "--training-mode=" + kv["mode"],
           "--scw-c=%g" % (kv["c100"] / 100), "--scw-phi=%g" % (kv["phi100"] / 100), "--beam=%d" % kv["beam"],
           "--batch=%d" % kv["batch"], "--threads=1", "--max-batch-iters=1", "--max-epochs=%d" % kv["epochs"],
           "--epsilon=0", "--corpus-comment=trained"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, cwd=d)
    if p.returncode != 0:
        return {"op": "cli", "w": [], "ok": False, "msg": p.stdout.decode("utf8", "replace")[-300:]}
    vp.harness("vh_train", ["modelw", out, out + ".w"])
    return {"op": "cli", "w": json.load(open(out + ".w")), "ok": True, "msg": ""}


def run(ck):
    vp.build(["vh_train", "jumanpp_v2_train"])
    mw = 2 if ck.thorough else 1
    r = vp.model_check("MC_TrainRun", "SPECIFICATION Spec\nCONSTANTS MaxW = %d\nINVARIANTS Same\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n" % mw)
    ck.model("MC_TrainRun", r, "trainer over two examples, weights up to %d, models exported and loaded at any time" % mw)
    n = 800 if ck.thorough else 150
    out = ck.path("obs.ndjson")
    vp.harness("vh_train", ["train", job(ck, "t04", n), out], timeout=600)
    ck.validate_cases("runs", "T_TrainRun", file=out, note="%d training runs" % n)
    # the same through the command line
    n = 100 if ck.thorough else 24
    cli, out = [], ck.path("cli.ndjson")
    vp.harness("vh_train", ["train", job(ck, "t04c", n, cli), out], timeout=600)
    with cf.ThreadPoolExecutor(vp.NPROC) as ex:
        evs = list(ex.map(lambda x: tool(ck, *x), enumerate(cli)))
    obs = [json.loads(l) for l in open(out)]
    for o, e in zip(obs, evs):
        at = [i for i, x in enumerate(o["ev"]) if x["op"] == "export"]
        o["ev"].insert(at[0] if at else len(o["ev"]), e)
    with open(out, "w") as h:
        for o in obs:
            h.write(json.dumps(o) + "\n")
    ck.validate_cases("tool", "T_TrainRun", file=out, note="%d runs of the training program" % n)
