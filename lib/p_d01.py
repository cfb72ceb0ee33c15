import json, os, random
import gen, vp

TECHNIQUE = 'TLA+ specification of a dictionary as a bag of rows; random specifications and CSV files are built, saved, loaded and looked up by the real code and every answer is validated'
NOTE = 'Random field layouts (all types, shared storages, alignment, separators, empty markers, shuffled columns) and CSV contents; every answer of the loaded dictionary (status of every prefix, rows with all field values, template rows) must be that of the specification. Sampled, not exhaustive, beyond the size bound of the generator.'


def features(rng, s):
    strs = [f.name for f in s.fields if f.typ in ("string", "int")]
    used = rng.sample(strs, rng.randint(1, len(strs)))
    tr = next(f.name for f in s.fields if f.trie)
    if rng.random() < 0.7 and tr not in used:
        used.append(tr)
    s.ngrams = [[[u]] for u in used] + [[[used[0]], [used[0]]]]
    if rng.random() < 0.5 and tr in used:
        ok = [x for x in used if s.field(x).typ == "string"]
        s.train = [(x, rng.choice(["1", "0.5", "2"])) for x in sorted(set([tr] + rng.sample(ok, rng.randint(1, len(ok)))))]


def make(ck, n, tag, nrows, with_unk=True, lists=True):
    """n random models: job lines and TLA+ data"""
    rng = random.Random(ck.seed * 7919 + hash_tag(tag))
    models, jobs = [], []
    for i in range(n):
        s = gen.rich_spec(rng, lists=lists)
        ab = gen.alphabet(rng)
        features(rng, s)
        d, surf = gen.fill_dic(rng, s, ab, rng.randint(1, nrows))
        tmpl = set()
        if with_unk and len(d.rows) > 2 and rng.random() < 0.5:
            for k in range(rng.randint(1, 2)):
                row = rng.randint(1, len(d.rows))
                tmpl.add(row)
                s.unks.append({"name": "u%d" % k, "row": row, "kind": "single", "cls": ["kanji"],
                               "srf": [next(f.name for f in s.fields if f.trie)]})
        sf, df = ck.path("%s%d.spec" % (tag, i)), ck.path("%s%d.csv" % (tag, i))
        open(sf, "w").write(s.text(rng))
        open(df, "w", newline="").write(d.text(rng, rng.choice([0, 0, 1])))
        m = s.json(tmpl, d)
        m["bad"] = False
        if rng.random() < 0.08:
            # a row that is malformed or has too few columns
            lines = open(df, newline="").read()
            nl = "\r\n" if "\r\n" in lines else "\n"
            rows = [",".join(["z"] * d.ncols) for _ in range(rng.randint(1, 3))]
            k = rng.randrange(len(rows))
            bad = ['"z' + rows[k][1:], '"z"z' + rows[k][1:], 'z"' + rows[k][1:]]
            if d.ncols > 1:
                bad.append(",".join(["z"] * (max(f.col for f in s.fields) - 1)))
            if any(f.typ == "int" for f in s.fields):
                bad.append(",".join(["1x"] * d.ncols))
            rows[k] = rng.choice([b for b in bad if b])
            first = rng.random() < 0.5
            if not lines.endswith("\n"):
                lines += nl
            open(df, "w", newline="").write(nl.join(rows) + nl + lines if first else lines + nl.join(rows) + nl)
            m["bad"] = True
        models.append(m)
        jobs.append((s, d, surf, ab, sf, df, rng))
    return models, jobs


def hash_tag(t):
    return sum(ord(c) * (i + 1) for i, c in enumerate(t))


def run(ck):
    vp.build(["vh_core"])
    n = 400 if ck.thorough else 90
    models, jobs = make(ck, n, "d", 30)
    job = ck.path("job")
    with open(job, "w") as h:
        for s, d, surf, ab, sf, df, rng in jobs:
            h.write("MODEL %s %s\n" % (sf, df))
            tr = d.trie()
            keys = {r[tr].encode() for r in d.rows}
            q = set(keys)
            for k in list(keys):
                for j in range(1, len(k)):
                    if rng.random() < 0.5:
                        q.add(k[:j])
                q.add(k + b"\0" if rng.random() < 0.1 else k + rng.choice(ab).encode())
                q.add(k[:-1] + bytes([k[-1] ^ 1]))
            for k in sorted(q):
                h.write("Q %s %d\n" % (k.hex(), rng.choice([0, 0, 1, 3])))
            h.write("T\n")
    mf = ck.path("models.json")
    with open(mf, "w") as h:
        for m in models:
            h.write(json.dumps(m) + "\n")
    out = ck.path("obs.ndjson")
    vp.harness("vh_core", ["dic", job, out], timeout=600)
    ck.validate_cases("dictionary", "T_Dictionary", file=out, env={"MODELS": mf},
                      note="%d models built, saved, loaded; every key, prefix and near miss looked up" % n)
