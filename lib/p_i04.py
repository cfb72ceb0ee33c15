import random
from concurrent.futures import ThreadPoolExecutor
import gen, gen_an, gen_train, p_i01, vp

TECHNIQUE = 'TLA+ specification of partial annotations (Pex.tla) and of the compliance of lattice paths; analyses by the real analyser with annotations made of (and against) its own lattices are validated against it'
NOTE = 'That penalties suffice is model-checked for all small lattices and beams. Real analyses: random models, settings and texts with annotations along lattice paths (words with tags, stretches with joins) and damaged ones; every lattice node is compared with the annotation, the result has to comply if any path does, and has to be the best such path where the beams hold all paths. Scores are kept below the penalties: with weights that add up to more than a thousand the analyser itself does not promise anything.'


def job(ck, tag, n, per):
    rng = random.Random(ck.seed * 41 + 13)
    fn = ck.path(tag + ".job")
    with open(fn, "w") as h:
        for i in range(n):
            s, d, ab, surf, m, line = gen_an.model(ck, rng, tag, i, nrows=14, lists=False, nmax=3,
                                                   train=gen_train.train_fields(flags=False))
            h.write(line)
            vals = {"zz", ""}
            for f, _ in s.train:
                vals |= {r[f] for r in d.rows}
            vs = ",".join(gen_an.hx(v.encode()) for v in sorted(vals))
            for j in range(4):
                c = gen_an.conf(rng, j % 2 == 1, False)
                c["beam"] = rng.choice([1, 2, 5, 40, 40])
                if "gbeam" in c and rng.random() < 0.4:
                    c["gbeam"] = 60
                    if rng.random() < 0.5 and "rcheck" in c:
                        c["rcheck"] = 60
                h.write(gen_an.cline(c))
                h.write(gen_an.wline(rng))
                for b in gen_an.inputs(rng, ab, surf, per, maxlen=7, empty=0):
                    for _ in range(2):
                        h.write("ANN %s %d %s\n" % (gen_an.hx(b), rng.randrange(1 << 30), vs))
    return fn


ROWS = [l.split(",") for l in p_i01.DIC.strip().split("\n") if not l.startswith("UNK_")]
# columns of the dictionary and of the output of the fields that can be annotated
FIELDS = [("surface", 0, 0), ("reading", 9, 1), ("baseform", 8, 2), ("pos", 4, 3), ("subpos", 5, 5), ("conjtype", 7, 7), ("conjform", 6, 9)]


def stream(rng):
    nl = rng.choice(["\n", "\n", "\r\n"])
    o = ""
    n = rng.randint(1, 4)
    for i in range(n):
        ls, line = [], ""
        if rng.random() < 0.4:
            ls.append("# c%d" % rng.randint(1, 9))
        for _ in range(rng.randint(1, 6)):
            r = rng.choice(ROWS)
            if rng.random() < 0.5:
                if line:
                    ls.append(line)
                    line = ""
                tags = [(f, r[c]) for f, c, _ in FIELDS if rng.random() < 0.4]
                ls.append("\t".join(["", r[0]] + [f + ":" + v for f, v in tags]))
            else:
                line += ("&" if rng.random() < 0.5 else "").join(r[0])
                if rng.random() < 0.5:
                    ls.append(line)
                    line = ""
        if line:
            ls.append(line)
        o += nl.join(ls) + (nl + nl * rng.choice([1, 1, 2]) if i < n - 1 else rng.choice(["", nl, nl + nl]))
    return o.encode()


def blocks(out):
    res, cur = [], {"com": [], "ms": []}
    for l in out.split(b"\n")[:-1]:
        if l == b"EOS":
            res.append(cur)
            cur = {"com": [], "ms": []}
        elif l.startswith(b"# "):
            cur["com"] = list(l[2:])
        else:
            f = l.split(b" ")
            alias = f[0] == b"@"
            if alias:
                f = f[1:]
            row = [list(f[c]) for _, _, c in FIELDS]
            if alias:
                cur["ms"][-1][1].append(row)
            else:
                cur["ms"].append([list(f[0]), [row]])
    return res


def cli_cases(ck, n):
    cli = p_i01.Cli(ck, seed=9)
    rng = random.Random(ck.seed * 43 + 1)
    jobs = [(stream(rng), rng.choice([[], [], ["--beam=2"], ["--beam=5", "--global-beam=0"], ["--beam=1", "--global-beam=1"], ["--global-beam=6", "--right-check=1", "--right-beam=2"]])) for _ in range(n)]

    def one(j):
        t, args = j
        try:
            p = cli.run(["--partial-input"] + args, t)
        except Exception as e:
            return {"text": list(t), "rc": -1, "blocks": [], "args": args}
        return {"text": list(t), "rc": p.returncode, "args": args, "blocks": blocks(p.stdout)}
    with ThreadPoolExecutor(vp.NPROC) as ex:
        cs = list(ex.map(one, jobs))
    for c in cs:
        c["names"] = [list(f.encode()) for f, _, _ in FIELDS]
        c["emp"] = [list(b"*") if f in ("pos", "subpos", "conjtype", "conjform") else [] for f, _, _ in FIELDS]
    return cs


def run(ck):
    vp.build(["vh_train"])
    nn = 4 if ck.thorough else 3
    r = vp.model_check("MC_PexAn", "SPECIFICATION Spec\nCONSTANTS N = %d\n Lens = {1, 2}\n Scores = {0, 3}\n Penalty = 20\nINVARIANT HeadOk\n" % nn)
    ck.model("MC_PexAn", r, "all lattices of %d characters with nodes of one and two characters, all narrow beams" % nn)
    n = 400 if ck.thorough else 80
    out = ck.path("obs.ndjson")
    vp.harness("vh_train", ["pexan", job(ck, "i04", n, 5), out], timeout=600)
    ck.validate_cases("annotated", "T_PexAn", file=out, env={"MODE": "check"}, note="%d models, 4 settings, 10 annotations each" % n)
    m = 300 if ck.thorough else 80
    ck.validate_cases("program", "T_PexCli", cases=cli_cases(ck, m), note="%d streams through jumanpp_v2 --partial-input" % m)
