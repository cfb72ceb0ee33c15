"""Random specifications, dictionaries and inputs, together with the same
content as data for the TLA+ modules."""
import random

# characters by kind (kept small so that words overlap and collide)
HIRA = list("かなしまぁらん")
KATA = list("カナシマアーン")
KANJI = list("日本東京語")
DIGIT = list("12３４〇一二百万")
ALPHA = list("abcＡ")
SYM = list("、。・!")
ALL = HIRA + KATA + KANJI + DIGIT + ALPHA + SYM + ["é", "𠮷", "ß"]


def lat(s):
    """text -> the latin-1 image of its UTF-8 bytes (JSON strings of the harness)"""
    return s.encode("utf-8").decode("latin-1")


def csv_cell(s, rng, sep=","):
    if any(c in s for c in sep + '"\n\r') or rng.random() < 0.05:
        return '"' + s.replace('"', '""') + '"'
    return s


class Field:
    def __init__(self, col, name, typ, trie=False, empty=None, storage=None, align=0,
                 list_sep=None, kv_sep=None):
        self.col, self.name, self.typ, self.trie = col, name, typ, trie
        self.empty, self.storage, self.align = empty, storage, align
        self.list_sep, self.kv_sep = list_sep, kv_sep

    def q(self, s):
        return '"' + s.replace('"', '""') + '"'

    def text(self, rng):
        fl = []
        if self.trie:
            fl.append("trie_index")
        if self.empty is not None:
            fl.append("empty " + self.q(self.empty))
        if self.storage:
            fl.append("storage " + self.storage)
        if self.align:
            fl.append("align %d" % self.align)
        if self.list_sep is not None:
            fl.append("list_sep " + self.q(self.list_sep))
        if self.kv_sep is not None:
            fl.append("kv_sep " + self.q(self.kv_sep))
        rng.shuffle(fl)
        return "field %d %s %s %s" % (self.col, self.name, self.typ, " ".join(fl))


class Spec:
    """fields, features [(name, text)], ngrams [[names],..], unks [dict], train"""

    def __init__(self):
        self.fields, self.features, self.ngrams, self.unks = [], [], [], []
        self.train, self.feats, self.placeholders, self.allow = [], [], [], []

    def trie_name(self):
        return next(f.name for f in self.fields if f.trie)

    def used(self):
        """names the analysis refers to: fields of n-grams and of the rules for unknown words"""
        res = {x for n in self.ngrams for pos in n for x in pos}
        for f in self.feats:
            res |= set(f["fields"]) | set(f.get("then") or []) | set(f.get("else") or [])
        for u in self.unks:
            res |= set(u.get("srf") or [])
        return res

    def json(self, templates=(), dic=None):
        names = [f.name for f in self.fields]
        used = self.used()
        feat = [i + 1 for i, f in enumerate(self.fields) if f.name in used and f.typ in ("string", "int")]
        if self.train:
            al = [i + 1 for i, f in enumerate(self.fields) if any(t[0] == f.name and float(t[1]) != 0 for t in self.train)]
        else:
            tr = next(i + 1 for i, f in enumerate(self.fields) if f.trie)
            al = sorted(set(feat) | {tr})
        return {"types": [f.typ for f in self.fields], "names": names, "feat": feat, "alias": al,
                "rows": dic.json_rows(templates) if dic else []}

    def field(self, name):
        return next(f for f in self.fields if f.name == name)

    def text(self, rng):
        out = []
        for f in self.fields:
            if rng.random() < 0.2:
                out.append("# a comment")
            out.append(f.text(rng))
        for n, t in self.features:
            out.append("feature %s %s %s" % (n, rng.choice(["=", ""]), t))
        for u in self.unks:
            s = "unk %s template row %d%s %s" % (u["name"], u["row"], rng.choice([" :", ":", ""]), u["kind"])
            if u["kind"] != "normalize":
                s += " " + "|".join(u["cls"])
            if u.get("ft"):
                s += " feature to " + u["ft"]
            if u.get("srf"):
                s += " surface to [" + ", ".join(u["srf"]) + "]"
            out.append(s)
        for n in self.ngrams:
            out.append("ngram " + " ".join("[" + ", ".join(x) + "]" for x in n))
        if self.train:
            out.append("train loss " + ", ".join("%s %s" % (f, w) for f, w in self.train)
                       + "".join(' unk_gold_if %s["%s"] == %s' % (a, k, t) for a, k, t in self.allow))
        return "\n".join(out) + "\n"


def word(rng, alphabet, maxlen=3):
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(1, maxlen)))


def alphabet(rng):
    k = rng.random()
    if k < 0.4:
        return rng.sample(ALL, rng.randint(2, 5))
    if k < 0.6:
        return rng.sample(HIRA + KANJI, 4)
    if k < 0.8:
        return rng.sample(ALPHA[:3], 2) + rng.sample(KANJI, 1)
    return rng.sample(ALL, 10)


class Dic:
    """rows: list of {name: value}; values: str, int, list of str, list of (k, v|None)"""

    def __init__(self, spec):
        self.spec, self.rows, self.ncols = spec, [], 0

    def cell(self, f, v, rng):
        if f.typ == "string":
            return v if v != "" or f.empty is None or rng.random() < 0.3 else f.empty
        if f.typ == "int":
            return str(v) if v != 0 or rng.random() < 0.6 else ""
        sep = f.list_sep if f.list_sep is not None else " "
        if not v:
            return f.empty if f.empty is not None and rng.random() < 0.5 else ""
        if f.typ == "string_list":
            return sep.join(v)
        kv = f.kv_sep if f.kv_sep is not None else ":"
        return sep.join(k if x is None else k + kv + x for k, x in v)

    def text(self, rng, extra=0):
        """CSV text; unreferenced columns hold junk"""
        n = max(f.col for f in self.spec.fields) + extra
        self.ncols = n
        eol = rng.choice(["\n", "\n", "\r\n"])
        out = []
        for r in self.rows:
            cells = ["x%d" % rng.randint(0, 9) for _ in range(n)]
            for f in self.spec.fields:
                cells[f.col - 1] = self.cell(f, r[f.name], rng)
            out.append(",".join(csv_cell(c, rng) for c in cells))
        return eol.join(out) + (eol if rng.random() < 0.8 else "")

    def json_rows(self, templates):
        res = []
        for i, r in enumerate(self.rows):
            vs = []
            for f in self.spec.fields:
                v = r[f.name]
                if f.typ == "string":
                    vs.append(lat(v))
                elif f.typ == "int":
                    vs.append(v)
                elif f.typ == "string_list":
                    vs.append([lat(x) for x in v])
                else:
                    vs.append([[lat(k)] if x is None else [lat(k), lat(x)] for k, x in v])
            s = r[self.trie()]
            res.append({"s": lat(s), "b": list(s.encode()), "u": [ord(x) for x in s], "v": vs, "t": (i + 1) in templates})
        return res

    def trie(self):
        return self.spec.trie_name()


def rnd_value(rng, f, pool):
    if f.typ == "string":
        return "" if rng.random() < 0.15 else rng.choice(pool[f.name])
    if f.typ == "int":
        return rng.choice([0, 1, 2, 7, 127, 128, 300, 16384, 65536, 2147483647, rng.randint(0, 1 << 20)])
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    if f.typ == "string_list":
        return [rng.choice(pool[f.name]) for _ in range(n)]
    res = [(rng.choice(pool[f.name]), rng.choice([None] + pool[f.name])) for _ in range(n)]
    # what follows the first separator of an item is its value, even if it is empty
    sep = f.kv_sep if f.kv_sep is not None else ":"
    res = [(k, x + sep + rng.choice(pool[f.name]) if x is not None and rng.random() < 0.15 else x) for k, x in res]
    return [(k, "" if x is not None and rng.random() < 0.06 else x) for k, x in res]


def rich_spec(rng, lists=True, nunk=None):
    """fields of all types in shuffled columns, random flags"""
    s = Spec()
    nf = rng.randint(1, 7)
    cols = list(range(1, nf + 1 + rng.choice([0, 0, 1, 2])))
    rng.shuffle(cols)
    names = ["f%d" % i for i in range(nf)]
    trie = rng.randrange(nf)
    strs = []
    for i in range(nf):
        if i == trie:
            typ = "string"
        else:
            typ = rng.choice(["string", "string", "string", "int"] + (["string_list", "kv_list"] if lists else []))
        f = Field(cols[i], names[i], typ, trie=(i == trie))
        if typ != "int":
            if rng.random() < 0.4:
                f.align = rng.choice([1, 2, 3, 5])
            if not f.align and strs and rng.random() < 0.3:
                f.storage = rng.choice(strs)
            if i != trie and rng.random() < 0.4:
                f.empty = rng.choice(["*", "NIL", "-", "空"])
            strs.append(names[i])
        if typ in ("string_list", "kv_list") and rng.random() < 0.5:
            f.list_sep = rng.choice([";", "/", "|"])
        if typ == "kv_list" and rng.random() < 0.5:
            f.kv_sep = rng.choice(["=", "::", "->"])
        s.fields.append(f)
    return s


def pools(rng, s, ab):
    pool = {}
    for f in s.fields:
        n = rng.choice([1, 2, 3, 6])
        pool[f.name] = [word(rng, ab) if f.typ == "string" else "v" + word(rng, ab, 2).replace(";", "")
                        for _ in range(n)]
        if f.typ == "string" and not f.trie:
            pool[f.name].append(rng.choice(["q,r", 'a"b', "x y", "名詞", "動詞"]))
        if rng.random() < 0.1 and not f.trie:
            pool[f.name].append("L" * rng.choice([127, 128, 200, 300]))
    return pool


def fill_dic(rng, s, ab, nrows, words=()):
    pool = pools(rng, s, ab)
    tr = next(f for f in s.fields if f.trie)
    surf = [word(rng, ab, rng.choice([2, 3, 5])) for _ in range(max(1, nrows * rng.choice([1, 1, 2]) // 2))]
    # prefixes and extensions of other words
    surf += [w[:rng.randint(1, len(w))] for w in surf[:3]] + [w + rng.choice(ab) for w in surf[:3]]
    surf += rng.sample(list(words), min(len(words), rng.randint(0, 4)))
    d = Dic(s)
    for _ in range(nrows):
        if d.rows and rng.random() < 0.15:
            r = dict(rng.choice(d.rows))
            f = rng.choice(s.fields)
            if not f.trie:
                r[f.name] = rnd_value(rng, f, pool)
        else:
            r = {f.name: rnd_value(rng, f, pool) for f in s.fields}
            r[tr.name] = rng.choice(surf)
        d.rows.append(r)
    return d, surf


def inputs(rng, ab, surf, n, maxlen=8):
    res = []
    for _ in range(n):
        k = rng.random()
        if k < 0.5:
            t = "".join(rng.choice(surf) if rng.random() < 0.7 else rng.choice(ab) for _ in range(rng.randint(1, 3)))
        elif k < 0.9:
            t = "".join(rng.choice(ab) for _ in range(rng.randint(1, maxlen)))
        else:
            t = "".join(rng.choice(ALL) for _ in range(rng.randint(1, 4)))
        res.append(t[:maxlen])
    return res


def hexs(s):
    b = s if isinstance(s, bytes) else s.encode("utf-8")
    return b.hex() if b else "-"
