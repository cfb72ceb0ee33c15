import json, random
import gen, gen_an, gen_train, vp

TECHNIQUE = 'TLA+ specification of streams of partially annotated sentences (Pex.tla on CsvReader.tla and Utf8.tla), model-checked; what the real file reader and stream reader return for random streams is validated against it'
NOTE = 'Well-formed streams in all the ways they can be written, and damaged ones, over random specifications with up to several annotatable fields. Annotated words of unknown values are compared through a list of candidate values. For streams with NUL characters (which quote in this format) or lone carriage returns only the file reader is compared. Streams are sampled, the format is model-checked for all short texts.'


def segment(rng, ab):
    o = ""
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        o += rng.choice(ab) if rng.random() < 0.8 else rng.choice(["&", "&", "#", " ", ":", '"', ",", "。", "𠮷"])
    return "# x"[rng.randint(0, 1):] if o.startswith("# ") and rng.random() < 0.5 else o


def word(rng, s, d, ab, emp, cands):
    tr = s.trie_name()
    r = rng.choice(d.rows)
    w = r[tr] if rng.random() < 0.6 else gen.word(rng, ab + ["&", "#", ":"], rng.choice([1, 2, 3]))
    w = w.replace("\n", "").replace("\r", "") or rng.choice(ab)
    o = ["", w]
    for f, _ in rng.sample(s.train, rng.randint(0, len(s.train))):
        k = rng.random()
        v = r[f] if k < 0.5 else rng.choice(d.rows)[f] if k < 0.6 else (emp[f] or "") if k < 0.7 else \
            rng.choice(["zz", "z:z", ":", "", "a b", '"', "# a", "&", "、"])
        if any(c in v for c in "\t\n\r\0"):
            v = "zz"
        cands.add(v)
        o.append(f + ":" + v)
    return "\t".join(o)


def stream(rng, s, d, ab, emp, cands):
    nl = rng.choice(["\n", "\n", "\n", "\r\n"])
    o = nl * rng.choice([0, 0, 0, 1])
    n = rng.choice([0, 1, 1, 2, 3, 5])
    for i in range(n):
        ls = []
        for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
            ls.append(word(rng, s, d, ab, emp, cands) if rng.random() < 0.5 else segment(rng, ab))
        if rng.random() < 0.5:
            ls.insert(rng.choice([0, 0, rng.randint(0, len(ls))]), "# " + rng.choice(["", "c", "S-ID:1 x", "注 釈", "a\tb", "a  ", "# #"]))
        if rng.random() < 0.05:
            ls = ["# only"]
        o += nl.join(ls)
        if i < n - 1:
            o += nl + nl * rng.choice([1, 1, 1, 2, 3])
        else:
            o += rng.choice(["", nl, nl + nl, nl + nl + nl])
    return o.encode()


def damage(rng, t):
    k = rng.randint(0, 6)
    at = rng.randint(0, len(t))
    if k == 0:
        return t[:at] + rng.choice([b"\xff", b"\xe3", b"\x80", b"\0"]) + t[at:]
    if k == 1:
        return t[:at]
    if k == 2:
        return t[:at] + rng.choice([b"\t", b"\n", b":", b"&", b"\r", b"\r\n", b"\n\r", b"\n# ", b"\n\n", b"\n\t"]) + t[at:]
    lines = t.split(b"\n")
    i = rng.randrange(len(lines))
    if k == 3:
        lines[i] = rng.choice([b"\t", b"\t\t", b"x\ty", b"#", b"# ", b"#\t", b"# \tx", b"\tx\t", b"\tx\ta", b"\tx\t:v", b"\tx\tnone:v", b"&", b" "])
    elif k == 4:
        lines.insert(i, rng.choice([b"# c", b"", b"y", b"\tz", b"&"]))
    elif k == 5:
        del lines[i]
    else:
        lines[i] = lines[i].replace(b":", b"", 1) if rng.random() < 0.5 else lines[i].replace(b"\t", b"", 1)
    return b"\n".join(lines)


def job(ck, tag, n, per):
    rng = random.Random(ck.seed * 37 + 11)
    fn = ck.path(tag + ".job")
    with open(fn, "w") as h:
        for i in range(n):
            s, d, ab, surf, m, line = gen_an.model(ck, rng, tag, i, nrows=8, lists=False, nmax=1,
                                                   train=gen_train.train_fields(unused=0.3))
            h.write(line)
            by = {f.name: f for f in s.fields}
            emp = {f: by[f].empty for f, _ in s.train}
            norm = lambda f, v: "" if v == (emp[f] or "") else v
            # other fields are not in the lattice and can not be constrained
            fs = [f for f, _ in s.train if f == s.trie_name() or f in s.used()]
            x = {"names": [list(f.encode()) for f in fs],
                 "emp": [list((emp[f] or "").encode()) for f in fs],
                 "vals": [[list(v.encode()) for v in sorted({norm(f, r[f]) for r in d.rows})] for f in fs]}
            for j in range(per):
                cands = {"", "v"}
                t = stream(rng, s, d, ab, emp, cands)
                for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                    t = damage(rng, t)
                # damage cuts values
                for l in t.split(b"\n"):
                    while True:
                        for p in l.split(b"\t"):
                            if b":" in p:
                                cands.add(p[p.index(b":") + 1:].decode("utf8", "replace"))
                        if not l.endswith(b"\r"):
                            break
                        l = l[:-1]
                f = ck.path("%s-%d-%d.txt" % (tag, i, j))
                open(f, "wb").write(t)
                h.write("PEX %s %s %s\n" % (f, gen_an.hx(json.dumps(x).encode()), ",".join(gen_an.hx(c.encode()) for c in sorted(cands))))
    return fn


def run(ck):
    vp.build(["vh_train"])
    np, sg = (3, 6) if ck.thorough else (3, 5)
    r = vp.model_check("MC_Pex", "SPECIFICATION Spec\nCONSTANTS N = %d\n Sigma = %d\nINVARIANTS BackOk Twice Sound\n" % (np, sg))
    ck.model("MC_Pex", r, "streams of up to %d lines in all ways of writing them, all texts up to %d characters" % (np, sg))
    n = 250 if ck.thorough else 60
    out = ck.path("obs.ndjson")
    vp.harness("vh_train", ["pexread", job(ck, "i03", n, 16), out], timeout=600)
    ck.validate_cases("streams", "T_Pex", file=out, note="%d models, 16 streams each" % n)
