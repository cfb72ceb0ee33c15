"""Models, configurations and inputs for the analysis properties."""
import random
import gen, vp


def pick_class(rng):
    return rng.choice([["kanji"], ["hiragana"], ["katakana"], ["alph"], ["family_kana"], ["family_digits"],
                       ["family_kanji", "alph"], ["figure", "kanji_figure"], ["family_anything"],
                       ["FAMILY_KANA", "Kanji"]])


def add_unks(rng, s, d, cover, kinds=("single", "chunking", "numeric", "onomatopeia", "normalize"), nmax=3, atleast=0):
    """unknown word rules; returns (template rows, priorities)"""
    templates, prio = set(), []
    n = rng.randint(atleast, nmax)
    todo = [rng.choice(kinds) for _ in range(n)]
    if cover:
        todo.insert(rng.randint(0, len(todo)), "cover")
    tr = s.trie_name()
    strs = [f.name for f in s.fields if f.typ == "string"]
    for i, k in enumerate(todo):
        u = {"name": "u%d" % i, "kind": k, "cls": pick_class(rng)}
        if k == "cover":
            u["kind"], u["cls"] = rng.choice(["single", "single", "chunking"]), ["family_anything"]
        elif k == "numeric":
            u["cls"] = rng.choice([["family_digits"], ["family_figure"], ["figure"], ["family_exception"]])
        elif k == "onomatopeia":
            u["cls"] = rng.choice([["family_double"], ["family_kana"], ["hiragana"], ["katakana", "kanji"]])
        if k == "normalize":
            u["row"] = rng.randint(1, len(d.rows))
        else:
            u["row"] = rng.choice(sorted(templates)) if templates and rng.random() < 0.3 else len(d.rows) + 1
        srf = [tr] + [x for x in strs if x != tr and rng.random() < 0.3]
        u["srf"] = srf if rng.random() < 0.85 else []
        u["ft"] = None
        if s.placeholders and rng.random() < 0.7:
            u["ft"] = rng.choice(s.placeholders)
        if u["row"] > len(d.rows):
            # a row of its own
            r = dict(rng.choice(d.rows))
            r[tr] = "T%d" % i
            d.rows.append(r)
        if k == "normalize":
            # the row exists only as a formality: use one that is a template anyway
            r = dict(rng.choice(d.rows))
            r[tr] = "N%d" % i
            d.rows.append(r)
            u["row"] = len(d.rows)
        templates.add(u["row"])
        p = 1 if rng.random() < 0.25 and k != "cover" else 0
        if k == "cover" and rng.random() < 0.3:
            p = 1
        prio.append(p)
        s.unks.append(u)
    return templates, prio


def simple_feats(rng, s, d=None):
    """a few n-gram templates over fields"""
    strs = [f.name for f in s.fields if f.typ in ("string", "int")]
    tr = s.trie_name()
    names = list(strs)
    s.placeholders = []
    if rng.random() < 0.6:
        s.placeholders = ["ph0"] if rng.random() < 0.6 else ["ph0", "ph1"]
        for p in s.placeholders:
            s.features.append((p, "placeholder"))
    if rng.random() < 0.3:
        s.features.append(("len", "num_codepoints %s" % tr))
        names.append("len")
    if rng.random() < 0.3:
        s.features.append(("nx", "codepoint %d" % rng.choice([1, -1, 2])))
        names.append("nx")
    ng = [[[tr]]]
    # placeholders have to be used to exist
    for p in s.placeholders:
        ng.append([[p]] if rng.random() < 0.5 else [[p, rng.choice(names)]])
    for _ in range(rng.randint(1, 4)):
        order = rng.choice([1, 2, 2, 3])
        ng.append([rng.sample(names, rng.randint(1, min(3, len(names)))) for _ in range(order)])
    rng.shuffle(ng)
    s.ngrams = []
    for n in ng:
        if n not in s.ngrams:
            s.ngrams.append(n)


def conf(rng, gbeam=False, auto=False):
    c = {"beam": rng.choice([1, 1, 2, 3, 5])}
    if gbeam:
        c["gbeam"] = rng.choice([1, 2, 3, 5, 8])
        if rng.random() < 0.6:
            c["rcheck"] = rng.choice([1, 1, 2, 3, 6])
            c["rbeam"] = rng.choice([1, 1, 2, 3, 6])
    if auto:
        c["astep"], c["abase"], c["amax"] = rng.choice([1, 2, 3]), rng.choice([0, 1, 2]), rng.choice([2, 3, 6])
    if rng.random() < 0.3:
        c["page"] = rng.choice([4096, 8192, 1 << 16])
    return c


def model(ck, rng, tag, i, nrows=14, cover=0.85, kinds=None, feats=simple_feats, lists=False, nmax=3, ab=None,
          unks=True, words=(), atleast=0, train=None):
    s = gen.rich_spec(rng, lists=lists)
    ab = ab or gen.alphabet(rng)
    d, surf = gen.fill_dic(rng, s, ab, rng.randint(1, nrows), words)
    feats(rng, s, d)
    templates, prio = set(), []
    if unks:
        templates, prio = add_unks(rng, s, d, rng.random() < cover, kinds or ("single", "chunking", "numeric", "onomatopeia", "normalize"), nmax, atleast)
    if train:
        train(rng, s, d)
    elif rng.random() < 0.4:
        # grouping by the fields of the training loss
        used = s.used()
        ok = [f.name for f in s.fields if f.typ == "string" and f.name in used]
        tr = s.trie_name()
        rest = [x for x in ok if x != tr]
        s.train = [(tr, "1")] + [(x, rng.choice(["1", "0.5", "0"])) for x in rng.sample(rest, rng.randint(0, len(rest)))]
    sf, df = ck.path("%s%d.spec" % (tag, i)), ck.path("%s%d.csv" % (tag, i))
    open(sf, "w").write(s.text(rng))
    open(df, "w", newline="").write(d.text(rng, rng.choice([0, 0, 1])))
    m = s.json(templates, d)
    m["unk"] = [{"kind": u["kind"], "cls": [x.upper() for x in u["cls"]] if u["kind"] != "normalize" else [],
                 "row": u["row"], "ph": (s.placeholders.index(u["ft"]) + 1) if u["ft"] else 0,
                 "srf": [m["names"].index(x) + 1 for x in u["srf"]], "prio": p}
                for u, p in zip(s.unks, prio)]
    m["nph"] = len(s.placeholders)
    pr = ",".join("%d:%d" % (k, p) for k, p in enumerate(prio) if p)
    return s, d, ab, surf, m, "MODEL %s %s %s\n" % (sf, df, pr or "-")


def inputs(rng, ab, surf, n, maxlen=8, empty=0.03, bad=0.0):
    """inputs as bytes"""
    res = []
    for t in gen.inputs(rng, ab, surf, n, maxlen):
        b = t.encode()
        if rng.random() < empty:
            b = b""
        if rng.random() < bad:
            k = rng.randrange(len(b) + 1)
            b = b[:k] + rng.choice([b"\xff", b"\x80", b"\xe3\x81", b"\xf8\x88"]) + b[k:]
        res.append(b)
    return res


def hx(b):
    return b.hex() if b else "-"


def wline(rng):
    return "W %d %d\n" % (rng.randrange(1 << 20), rng.choice([4, 8, 12, 14]))


def cline(c):
    return "CONF " + " ".join("%s=%d" % kv for kv in sorted(c.items())) + "\n"
