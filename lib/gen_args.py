"""Command lines and configuration files."""
import json, os, random

INTS = ["beam", "global-beam", "right-beam", "right-check", "log-level", "lattice"]
FLOATS = ["rnn-nce-bias", "rnn-unk-constant", "rnn-unk-length", "feature-weight-perceptron", "feature-weight-rnn"]
TEXTS = ["output", "model", "rnn-model", "graphviz-dir", "segment-separator", "rnn-unk", "rnn-eos", "rnn-separator", "rnn-fields"]
TYPES = ["juman", "morph", "full-morph", "dic-subset", "segment", "model-info", "version", "format", "lattice"]
SHORT = {"juman": ["j"], "morph": ["M"], "full-morph": ["F"], "lattice": ["L", "s"], "output": ["o"], "config": ["c"], "version": ["v"]}
FMT = ["juman", "morph", "full-morph", "dic-subset", "segment", "lattice"]
BADINT = ["", "abc", "5x", "1.5", "0x10", "99999999999", "-", "5-", "-99999999999", "1,000"]
BADFLOAT = ["", "x", "1.2.3", "--1", "1,5"]
BADAUTO = ["", "1:2", "1:2:3:4", "a:b:c", "1:2:", ":1:2", "1:2:x", "1:-2:3", "1:2:99999999999", "1;2;3", "x1:2:3"]


def hx(s):
    return s.encode().hex() or "-"


def spec(x):
    """bytes as the harness writes them"""
    return json.dumps(json.loads(json.dumps(x, ensure_ascii=False).encode().decode("latin1")))


class G:
    def __init__(self, rnd):
        self.r = rnd

    def text(self, o):
        r = self.r
        if o == "model":
            return r.choice(["m.mdl", "m.mdl", "other.mdl", "/abs/m.mdl", "sub.mdl"])
        if o == "rnn-fields":
            return r.choice(["surface", "a,b", "baseform,pos,x", "a,,b", ",a"])
        return r.choice(["x", "y.txt", "a=b", "é", "-q", "a:b", "日本", "z", "--"])

    def good(self, o):
        r = self.r
        v, n = "", True
        if o in INTS:
            v = str(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 40])) if o != "log-level" else str(r.randint(0, 1))
            if r.random() < .08 and o != "log-level":
                v = r.choice(["-1", "-20", "007", "999999999"])
        elif o in FLOATS:
            v = r.choice(["0.5", "-3.25", "2", "-9", "1.5", "0.25", "-6", "100"])
        elif o == "auto-nbest":
            v = r.choice(["1:2:3", "5:1:10", "0:0:0", "12:7:40", "999999999:1:2"])
        elif o == "format":
            v = r.choice(FMT)
        elif o == "config":
            v = ""
        elif o in TEXTS:
            v = self.text(o)
        elif o == "":
            v = r.choice(["in.txt", "b", "c/d", "é"])
        else:
            n = False
        return dict(o=o, v=v, n=n)

    def bad(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return dict(o=r.choice(INTS), v=r.choice(BADINT), n=True)
        if k == 1:
            return dict(o=r.choice(FLOATS), v=r.choice(BADFLOAT), n=True)
        if k == 2:
            return dict(o="auto-nbest", v=r.choice(BADAUTO), n=True)
        if k == 3:
            return dict(o=r.choice(["bem", "beams", "Beam", "x", "global_beam", "no-juman", "rnn"]), v="3", n=r.random() < .5)
        if k == 4:
            return dict(o="format", v=r.choice(["", "Juman", "lattices", "json"]), n=True)
        return dict(o=r.choice(["juman", "segment", "partial-input"]), v="3", n=True)

    def layer(self, types=None, bad=0.0, auto=.15, model=.3):
        """items of one layer; at most one option about the kind of output"""
        r = self.r
        its = []
        pool = [o for o in INTS if o != "lattice"] + FLOATS + [t for t in TEXTS if t != "model"] + ["partial-input"]
        a = r.random() < auto
        for o in r.sample(pool, r.choice([0, 1, 2, 3, 5, 8, len(pool)])):
            if a and o in ("beam", "global-beam"):
                continue
            its.append(self.good(o))
            if r.random() < .1:
                its.append(self.good(o))
        if a:
            its.append(self.good("auto-nbest"))
        if r.random() < model:
            its.append(self.good("model"))
        if r.random() < .6:
            its.append(self.good(r.choice(TYPES + ["lattice"] * 4)))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            its.append(self.good(""))
        r.shuffle(its)
        if r.random() < bad:
            b = self.bad()
            # only the last of several is read
            its = [i for i in its if i["o"] != b["o"]] if b["o"] == "auto-nbest" else its
            its.insert(r.randint(0, len(its)), b)
        return its

    def render(self, its):
        """the list of arguments"""
        r = self.r
        out = []
        end = False
        for k, i in enumerate(its):
            o, v = i["o"], i["v"]
            if o == "":
                if not end and k == len(its) - 1 and r.random() < .3:
                    out.append("--")
                out.append(v)
                continue
            if not i["n"]:
                if o in SHORT and r.random() < .5:
                    out.append("-" + r.choice(SHORT[o]))
                else:
                    out.append("--" + o)
                continue
            plain = v != "" and not v.startswith("-")
            if o in SHORT and plain and o not in ("juman", "morph", "full-morph", "version") and r.random() < .5:
                s = "-" + r.choice(SHORT[o])
                out += [s + v] if r.random() < .5 else [s, v]
            elif plain and o in INTS + FLOATS + TEXTS + ["auto-nbest", "format", "config"] and r.random() < .4:
                out += ["--" + o, v]
            else:
                out.append("--" + o + "=" + v)
        return out

    def file(self, its):
        r = self.r
        ws = lambda: r.choice([" ", "\n", "\n", "\r\n", "\t", " \n "])
        t = r.choice(["", "", ws()])
        for x in self.render(its):
            t += x + ws()
        if t.strip():
            t = r.choice([t, t.rstrip()])
        return t or "\n"


def case(g, d):
    """one run of parseArgs in the directory d"""
    r = g.r
    L = []
    s = dict(kind="args", named=[], here=[], beside=[], dir="")
    s["global"] = []
    s["user"] = []
    bad = r.choice([0, 0, .5])
    cli = g.layer(bad=bad * .6)
    cfg = os.path.join(d, "conf", "x.cfg")
    how = r.choice(["none", "named", "named", "global", "user", "both", "all", "gone"])
    if how in ("named", "all", "gone"):
        it = g.good("config")
        it["v"] = cfg if how != "gone" else os.path.join(d, "nothing.cfg")
        cli.insert(r.randint(0, len(cli)), it)
    files = {}
    if how in ("named", "all"):
        s["named"] = [g.layer(bad=bad)]
        files[cfg] = s["named"][0]
        s["dir"] = os.path.join(d, "conf")
    home = os.path.join(d, "home")
    if how in ("user", "both", "all"):
        s["user"] = [g.layer(bad=bad)]
        p = os.path.join(home, ".config/jumanpp/jumandic.config")
        files[p] = s["user"][0]
        if how == "user":
            s["dir"] = os.path.dirname(p)
    if how in ("global", "both", "all"):
        s["global"] = [g.layer(bad=bad)]
        L.append("GLOBAL " + hx(g.file(s["global"][0])))
        if how != "all":
            s["dir"] = os.path.join(os.environ.get("VP_BUILD", "/verif/build"), "prefix")
    for p, its in files.items():
        L.append("FILE %s %s" % (hx(p), hx(g.file(its))))
    if r.random() < .9 or how in ("user", "both", "all"):
        L.append("HOME " + hx(home))
    if s["dir"]:
        for m in ("m.mdl", "other.mdl", "sub.mdl"):
            if r.random() < .5 and how not in ("global", "both"):
                s["beside"].append(m)
                L.append("FILE %s %s" % (hx(os.path.join(s["dir"], m)), hx("model")))
            if r.random() < .25:
                s["here"].append(m)
                L.append("FILE %s %s" % (hx(os.path.join(d, m)), hx("model")))
    s["cli"] = cli
    for a in g.render(cli):
        L.append("ARG " + hx(a))
    L += ["SPEC " + spec(s), "RUN"]
    return L


def nested(g, d):
    r = g.r
    n = r.randint(1, 4)
    chain = []
    L = []
    for k in range(n):
        its = g.layer(bad=r.choice([0, 0, .15]))
        if k + 1 < n or r.random() < .3:
            it = g.good("config")
            it["v"] = os.path.join(d, "n%d.cfg" % (k + 1))
            its.insert(r.randint(0, len(its)), it)
        chain.append(its)
        L.append("FILE %s %s" % (hx(os.path.join(d, "n%d.cfg" % k)), hx(g.file(its))))
    depth = r.randint(0, 3)
    L.append("NEST %s %d" % (hx(os.path.join(d, "n0.cfg")), depth))
    return L + ["SPEC " + spec(dict(kind="nest", chain=chain, depth=depth)), "RUN"]


def job(fn, d, seed, n):
    g = G(random.Random(seed))
    with open(fn, "w") as f:
        f.write("DIR %s\n" % hx(d))
        for k in range(n):
            f.write("\n".join(nested(g, d) if k % 5 == 4 else case(g, d)) + "\n")
