"""Feature templates of all kinds, with the data of Features.tla."""
import itertools
import gen
from gen import lat

SERIAL = itertools.count()


def csv_line(vals):
    return ",".join('"' + v.replace('"', '""') + '"' if any(c in v for c in ',"\n') else v for v in vals)


def match(rng, s, d, name, path, branches, lists=True):
    """a match feature; returns its description for the model"""
    strs = [f for f in s.fields if f.typ == "string"]
    lst = [f for f in s.fields if f.typ in ("string_list", "kv_list")] if lists else []
    # list separators of more than one byte are not supported by matches
    lst = [f for f in lst if len((f.list_sep if f.list_sep is not None else " ").encode()) == 1]
    idx = {f.name: i + 1 for i, f in enumerate(s.fields)}

    def item(f, row):
        v = row[f.name]
        if f.typ == "string":
            return f.empty if v == "" and f.empty is not None and rng.random() < 0.7 else v
        v = rng.choice(v) if v else "none"
        return v if isinstance(v, str) else v[0]

    def clean(v):
        return v if v != "" else "zz"

    if lst and rng.random() < 0.5:
        f = rng.choice(lst)
        # one value is all that lists are compared with
        v = clean(item(f, rng.choice(d.rows)))
        if rng.random() < 0.2 or any(c in v for c in ',"\n'):
            v = "none"
        text = "%s with \"%s\"" % (f.name if rng.random() < 0.7 else "[%s]" % f.name, v)
        vals = [[v]]
        fs = [f]
    else:
        fs = rng.sample(strs, rng.randint(1, min(3, len(strs))))
        vals = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            row = rng.choice(d.rows)
            vals.append([clean(item(f, row if rng.random() < 0.8 else rng.choice(d.rows))) for f in fs])
        if rng.random() < 0.2:
            vals.insert(rng.randint(0, len(vals)), ["no such value"] * len(fs))
        data = "\n".join(csv_line(v) for v in vals) + ("\n" if rng.random() < 0.3 else "")
        lhs = fs[0].name if len(fs) == 1 and rng.random() < 0.5 else "[" + ", ".join(f.name for f in fs) + "]"
        if '"' in data or rng.random() < 0.4:
            fn = path("%s.%d.match.csv" % (name, next(SERIAL)))
            open(fn, "w", newline="").write(data)
            text = '%s with file "%s"' % (lhs, fn.rsplit("/", 1)[1])
        else:
            text = '%s with "%s"' % (lhs, data)

    def shown(f, v):
        return "" if f.typ == "string" and f.empty is not None and v == f.empty else v

    p = {"k": "match", "fs": [idx[f.name] for f in fs], "vals": [[lat(shown(f, x)) for f, x in zip(fs, v)] for v in vals],
         "then": [], "else": []}
    used = {"fields": [f.name for f in fs]}
    if branches and rng.random() < 0.5:
        plain = [f.name for f in s.fields if f.typ in ("string", "int")]
        a = [rng.choice(plain) for _ in range(rng.randint(1, 3))]
        b = [rng.choice(plain) for _ in range(rng.randint(1, 3))]
        if len(a) != len(b):   # lists of one length: see branch-aliasing
            text += " then [%s] else [%s]" % (", ".join(a), ", ".join(b))
            p["then"], p["else"] = [idx[x] for x in a], [idx[x] for x in b]
            used["then"], used["else"] = a, b
    s.features.append((name, "match " + text))
    s.feats.append(used)
    return p


def finish(s, d):
    """what Features.tla needs besides the fields"""
    cplen = {"": 0}
    for f in s.fields:
        if f.typ == "string":
            for r in d.rows:
                cplen[lat(r[f.name])] = len(r[f.name])
    # the compiler numbers the templates by their order (1 to 3), then as written
    return {"prims": s.prims, "ngrams": sorted(s.ngrams, key=len), "cplen": cplen,
            "trie": next(i + 1 for i, f in enumerate(s.fields) if f.trie)}


def all_feats(path):
    def feats(rng, s, d):
        idx = {f.name: i + 1 for i, f in enumerate(s.fields)}
        strs = [f.name for f in s.fields if f.typ == "string"]
        s.prims = {f.name: {"k": "field", "f": idx[f.name]} for f in s.fields if f.typ in ("string", "int")}
        names = list(s.prims)
        s.placeholders = rng.choice([[], ["ph0"], ["ph0", "ph1"], ["ph0", "ph1", "ph2"]])
        must = []
        todo = [("placeholder", p) for p in s.placeholders]
        todo += [(rng.choice(["cp", "ct", "bytes", "chars", "match", "match"]), "x%d" % i) for i in range(rng.randint(1, 5))]
        rng.shuffle(todo)
        nmatch = 0
        for k, name in todo:
            if k == "placeholder":
                s.features.append((name, "placeholder"))
                s.prims[name] = {"k": "ph", "n": s.placeholders.index(name) + 1}
                must.append(name)
            elif k == "cp":
                n = rng.choice([1, -1, 2, -2, 3, -3])
                s.features.append((name, "codepoint %d" % n))
                s.prims[name] = {"k": "cp", "n": n}
            elif k == "ct":
                n = rng.choice([0, 0, 1, -1, 2, -2])
                s.features.append((name, "codepoint_type %d" % n))
                s.prims[name] = {"k": "ct", "n": n}
            elif k in ("bytes", "chars"):
                f = rng.choice(strs)
                s.features.append((name, "%s %s" % ("num_bytes" if k == "bytes" else "num_codepoints", f)))
                s.prims[name] = {"k": k, "f": idx[f]}
                s.feats.append({"fields": [f]})
            else:
                s.prims[name] = match(rng, s, d, name, path, True)
            names.append(name)
            if rng.random() < 0.6 and name not in must:
                must.append(name)
        ng = [[[s.trie_name()]]] if rng.random() < 0.7 else []
        for x in must:
            pos = [[x] + rng.sample(names, rng.randint(0, 1))]
            rng.shuffle(pos[0])
            for _ in range(rng.choice([0, 0, 1, 2])):
                pos.insert(rng.randint(0, len(pos)), rng.sample(names, rng.randint(1, min(2, len(names)))))
            ng.append(pos)
        for _ in range(rng.randint(1, 4)):
            ng.append([rng.sample(names, rng.randint(1, min(3, len(names)))) for _ in range(rng.choice([1, 2, 2, 3]))])
        tidy(rng, s, ng)
    return feats


def tidy(rng, s, ng):
    """drops repeated templates and patterns with two conditional lists"""
    cond = {n for n, p in s.prims.items() if p["k"] == "match" and p["then"]}
    s.ngrams = []
    rng.shuffle(ng)
    for n in ng:
        n = [[x for i, x in enumerate(p) if x not in cond or not any(y in cond for y in p[:i])] for p in n]
        if n not in s.ngrams:
            s.ngrams.append(n)
    # placeholders that no template uses would not exist
    used = {x for n in s.ngrams for p in n for x in p}
    for x in s.placeholders:
        if x not in used:
            s.ngrams.append([[x]])


def match_feats(path):
    """many match features, each in a template of its own"""
    def feats(rng, s, d):
        s.prims = {f.name: {"k": "field", "f": i + 1} for i, f in enumerate(s.fields) if f.typ in ("string", "int")}
        s.placeholders = []
        n = rng.choice([1, 3, 6, 30, 31, 32, 33, 63, 70])
        ng = [[[s.trie_name()]]]
        for i in range(n):
            name = "m%d" % i
            s.prims[name] = match(rng, s, d, name, path, False)
            if rng.random() < 0.9:
                ng.append([[name]])
        tidy(rng, s, ng)
    return feats
