import json, random
import gen, gen_an, gen_train, vp

TECHNIQUE = 'TLA+ specification of the corpus formats as a machine over the characters of the file (Corpus.tla on CsvReader.tla), model-checked; what the real reader and the real batches return for random corpora is validated against it'
NOTE = 'Both formats, well-formed corpora of up to ten examples in all the ways they can be written, and damaged ones; batch sizes 1 to 7. Shared string storages and empty values included. Values of unknown fields other than the surface are not visible from outside and only compared as unknown; comments of examples without words are not compared. Files are sampled, the formats are model-checked for small corpora and all short texts.'


def q(f, must):
    return b'"' + f.replace(b'"', b'""') + b'"' if must or b'"' in f else f


def word(rng, s, d, ab, sep, empties):
    tr = s.trie_name()
    r = rng.choice(d.rows)
    w = []
    for f, _ in s.train:
        v = r[f]
        k = rng.random()
        if f == tr:
            if k < 0.4:
                v = gen.word(rng, ab + ["_", " ", ",", "#", '"'], rng.choice([1, 2, 3]))
            v = v or rng.choice(ab)
        elif k < 0.15:
            v = rng.choice(["zz", 'q"q', "z,z", "#", "# a", "EOS", "a_b", "l\nl", "", '"', " "])
        elif k < 0.25:
            v = empties[f] or ""
        elif k < 0.35:
            v = rng.choice(d.rows)[rng.choice([x for x, _ in s.train])]
        w.append(v.encode())
    return w


def csv_text(rng, exs):
    o = b""
    nl = rng.choice([b"\n", b"\n", b"\r\n"])
    for i, (ws, com) in enumerate(exs):
        lines = []
        for w in ws:
            fs = [q(f, rng.random() < 0.1 or any(c in f for c in b",\n\r\"")) for f in w]
            if fs[0].startswith(b"# "):
                fs[0] = q(w[0], True)
            if len(fs) == 1 and w[0] in (b"", b"EOS"):
                fs.append(b"x")
            if rng.random() < 0.1:
                fs.append(b"more")
            lines.append(b",".join(fs))
        if com is not None:
            lines.insert(rng.choice([0, 0, rng.randint(0, len(lines))]), b"# " + com)
        o += nl.join(lines)
        if i < len(exs) - 1 or rng.random() < 0.6:
            o += nl + rng.choice([b"", b"", b"EOS", b'""']) + nl
            o += nl * rng.choice([0, 0, 0, 1, 2])
        elif rng.random() < 0.5:
            o += nl
    return o


def morph_text(rng, exs):
    o = b""
    nl = rng.choice([b"\n", b"\n", b"\r\n"])
    for i, (ws, com) in enumerate(exs):
        toks = []
        for w in ws:
            t = b"_".join(q(f, rng.random() < 0.1 or any(c in f for c in b"_\n\r\"")) for f in w)
            toks.append(q(t, rng.random() < 0.1 or any(c in t for c in b" \n\r\"") or t == b"#"))
            if t == b"#":
                toks[-1] = b'"#_x"' if len(w) == 1 else toks[-1]
        if com is not None:
            toks += [b"#"] + (com.split(b" ") if com else [])
        o += b" ".join(toks)
        if i < len(exs) - 1 or rng.random() < 0.6:
            o += nl
    return o


def damage(rng, t):
    k = rng.randint(0, 6)
    at = rng.randint(0, len(t))
    if k == 0:
        return t[:at] + b'"' + t[at:]
    if k == 1:
        return t[:at] + rng.choice([b"\xff", b"\xe3", b"\x80"]) + t[at:]
    if k == 2:
        return t[:at]
    if k == 3:
        return t[:at] + rng.choice([b" ", b"\n", b"_", b",", b"\r", b"\r\n", b"\n\r", b"# ", b"EOS\n", b"\n\n"]) + t[at:]
    lines = t.split(b"\n")
    i = rng.randrange(len(lines))
    if k == 4:
        lines[i] = rng.choice([b"x", b"#", b"# ", b"#x", b"", b"x_", b",", b" "])
    elif k == 5:
        lines.insert(i, rng.choice([b"#", b"# c", b"", b"EOS", b"y"]))
    else:
        del lines[i]
    return b"\n".join(lines)


def job(ck, tag, n, per):
    rng = random.Random(ck.seed * 31 + 7)
    fn = ck.path(tag + ".job")
    with open(fn, "w") as h:
        for i in range(n):
            s, d, ab, surf, m, line = gen_an.model(ck, rng, tag, i, nrows=8, lists=False, nmax=1,
                                                   train=gen_train.train_fields(unused=0.3))
            h.write(line)
            by = {f.name: f for f in s.fields}
            emp = {f: by[f].empty for f, _ in s.train}
            norm = lambda f, v: "" if v == (emp[f] or "") else v
            # fields of one storage know each other's values
            grp = lambda f: by[f].storage or f
            vals = [sorted({norm(g, r[g]) for r in d.rows for g in [f]}) for f, _ in s.train]
            x = {"nf": len(s.train), "sf": [f for f, _ in s.train].index(s.trie_name()) + 1,
                 "emp": [list((emp[f] or "").encode()) for f, _ in s.train],
                 "vals": [[list(v.encode()) for v in vs] for vs in vals]}
            for j in range(per):
                exs = []
                for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 10])):
                    ws = [word(rng, s, d, ab, b",", emp) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
                    if rng.random() < 0.25:
                        # words which only have quotes inside
                        tr = [f for f, _ in s.train].index(s.trie_name())
                        for w in ws:
                            w[:] = [bytes(c for c in v if c not in b"\"_ ,\n") for v in w]
                            w[tr] = (rng.choice(ab) + '"' + rng.choice(ab + ["", '"'])).encode()
                    com = rng.choice([None, None, b"", b"c", b"S-ID:1 x", "注 釈".encode(), b"a  b "])
                    exs.append((ws, com))
                fmt = rng.choice(["csv", "morph"])
                t = csv_text(rng, exs) if fmt == "csv" else morph_text(rng, exs)
                for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                    t = damage(rng, t)
                f = ck.path("%s-%d-%d.txt" % (tag, i, j))
                open(f, "wb").write(t)
                h.write("CORPUS %s %d %s %s\n" % (fmt, rng.choice([1, 2, 3, 7]), f, gen_an.hx(json.dumps(x).encode())))
    return fn


def run(ck):
    vp.build(["vh_train"])
    for fmt in ("csv", "morph"):
        n, sg = (2, 6) if ck.thorough else (1, 4)
        r = vp.model_check("MC_Corpus", 'SPECIFICATION Spec\nCONSTANTS Fmt = "%s"\n N = %d\n Sigma = %d\nINVARIANTS BackOk Total\n' % (fmt, n, sg))
        ck.model("MC_Corpus", r, "%s: corpora of up to %d examples in all ways of writing them, all texts up to %d characters" % (fmt, n, sg))
    n = 250 if ck.thorough else 60
    out = ck.path("obs.ndjson")
    vp.harness("vh_train", ["corpus", job(ck, "t03", n, 16), out], timeout=600)
    ck.validate_cases("corpora", "T_Corpus", file=out, note="%d models, 16 corpora each" % n)
