"""Training fields and annotated examples."""
import csv, io, json
import gen, gen_an


def train_fields(flags=True, unused=0.0):
    """a function that gives a specification its training fields"""
    def f(rng, s, d):
        used = s.used()
        tr = s.trie_name()
        rest = [x.name for x in s.fields if x.typ == "string" and x.name != tr]
        fs = [(tr, rng.choice(["1", "1", "0.5"]))]
        for x in rng.sample(rest, rng.randint(0, len(rest))):
            if x in used:
                fs.append((x, rng.choice(["1", "1", "0.5", "0.25", "0"])))
            elif rng.random() < unused:
                fs.append((x, "0"))
        rng.shuffle(fs)
        s.train = fs
        kvs = [x for x in s.fields if x.typ == "kv_list"]
        tgt = [n for n, w in fs if n != tr and float(w) > 0]
        if flags and kvs and tgt and rng.random() < 0.8:
            for _ in range(rng.choice([1, 1, 2, 3])):
                kv = rng.choice(kvs)
                keys = sorted({k for r in d.rows for k, v in r[kv.name] if v is not None})
                if not keys:
                    continue
                key, t = rng.choice(keys), rng.choice(tgt)
                if any((a, k) == (kv.name, key) for a, k, _ in s.allow):
                    continue
                s.allow.append((kv.name, key, t))
                # values of the pairs that are values of the field
                for r in d.rows:
                    if rng.random() < 0.6:
                        v = rng.choice(d.rows)[t]
                        if v:
                            free = [k for k in keys if not any((a, q) == (kv.name, k) for a, q, _ in s.allow)] + [key]
                            k = key if rng.random() < 0.7 else rng.choice(free)
                            r[kv.name] = [(k, v)] + [p for p in r[kv.name] if p[0] != key]
                # which value counts when a key comes twice is not documented
                for r in d.rows:
                    r[kv.name] = [p for i, p in enumerate(r[kv.name]) if p[0] not in [q[0] for q in r[kv.name][:i]]]
    return f


def words(rng, s, d, surf, ab, n):
    """n annotated words: {training field: text}"""
    tr = s.trie_name()
    out = []
    for _ in range(n):
        k = rng.random()
        r = rng.choice(d.rows)
        w = {f: r[f] for f, _ in s.train}
        if k < 0.55:
            pass
        elif k < 0.7:
            # another value of a field
            f = rng.choice([x for x, _ in s.train])
            if f != tr:
                w[f] = rng.choice([rng.choice(d.rows)[f], "zz", "z,z"])
        elif k < 0.9:
            w[tr] = gen.word(rng, ab, rng.choice([1, 2, 3]))
            if rng.random() < 0.3 and len(s.train) > 1:
                f = rng.choice([x for x, _ in s.train if x != tr])
                w[f] = rng.choice(["zz", 'q"q', w[f]])
        else:
            w[tr] = rng.choice(surf)
        if s.allow and rng.random() < 0.3:
            # unknown words which may be gold because of a value of the template
            w[tr] = gen.word(rng, ab, rng.choice([1, 1, 2]))
            src = rng.choice(d.rows)
            same = rng.random() < 0.7
            for a, key, t in s.allow:
                # of one row: the conditions hold together, or all but one of them
                vs = [v for q in ([src] if same else d.rows) for k, v in q[a] if v is not None and (k == key or rng.random() < 0.2)]
                if vs and rng.random() < 0.9:
                    w[t] = rng.choice(vs)
        if w[tr] == "":
            w[tr] = rng.choice(ab)
        out.append(w)
    return out


def csv_words(s, ws):
    o = io.StringIO()
    wr = csv.writer(o, lineterminator="\n")
    for w in ws:
        wr.writerow([w[f] for f, _ in s.train])
    return o.getvalue()


def expect(s, m, ws):
    """what the specification gets to know about the example"""
    tr = s.trie_name()
    at, res = 0, []
    for w in ws:
        e = at + len(w[tr])
        res.append([at, e, [gen.lat(w[f]) for f, _ in s.train]])
        at = e
    return {"w": res, "tf": [m["names"].index(f) + 1 for f, _ in s.train], "w8": [int(float(x) * 8) for _, x in s.train],
            "sf": [f for f, _ in s.train].index(tr) + 1,
            "allow": [[m["names"].index(a) + 1, gen.lat(k), [f for f, _ in s.train].index(t) + 1] for a, k, t in s.allow]}
