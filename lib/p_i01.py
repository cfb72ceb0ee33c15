import itertools, os, random, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vp

TECHNIQUE = 'TLA+ model of the program as a filter over files of lines, checked with TLC; runs of the real program on generated files checked against it'
NOTE = 'The model covers every small set of files (comments, empty and bad sentences, unterminated and unreadable files). The real jumanpp_v2 is run on generated sets of files in all text formats; its whole output and exit code must be one the specification admits, with each block equal to that of a run on that sentence alone.'

DIC = """UNK_SYM,0,0,0,未定義語,その他,*,*,UNK,UNK,*,品詞推定:特殊 未知語:その他
UNK_KATA,0,0,0,未定義語,カタカナ,*,*,UNK,UNK,*,品詞推定:名詞 未知語:カタカナ
UNK_KANJI,0,0,0,未定義語,その他,*,*,UNK,UNK,*,品詞推定:名詞 未知語:漢字
UNK_HIRA,0,0,0,未定義語,その他,*,*,UNK,UNK,*,品詞推定:名詞 未知語:ひらがな
UNK_ALPH,0,0,0,未定義語,アルファベット,*,*,UNK,UNK,*,品詞推定:名詞 未知語:ロマ字
UNK_DIGIT,0,0,0,名詞,数詞,*,*,UNK,UNK,*,カテゴリ:数量 未知語:数字
UNK_ONOMATOPEA,0,0,0,副詞,*,*,*,UNK,UNK,*,自動認識
UNK_ANY,0,0,0,未定義語,その他,*,*,UNK,UNK,*,未知語:未対応文字種 品詞推定:特殊
に,0,0,0,助詞,格助詞,*,*,に,に,*,NIL
に,0,0,0,助詞,接続助詞,*,*,に,に,*,NIL
に,0,0,0,動詞,*,基本連用形,母音動詞,にる,に,似る/にる,NIL
私,0,0,0,名詞,普通名詞,*,*,私,わたし,私/わたし,カテゴリ:人
言う,0,0,0,動詞,*,基本形,子音動詞ワ行,言う,いう,言う/いう,NIL
が,0,0,0,助詞,格助詞,*,*,が,が,*,NIL
が,0,0,0,接続詞,*,*,*,が,が,が/が,NIL
魔法,0,0,0,名詞,普通名詞,*,*,魔法,まほう,魔法/まほう,カテゴリ:抽象物 ドメイン:文化・芸術
ab,0,0,0,名詞,普通名詞,*,*,ab,えーびー,*,NIL
なり,0,0,0,動詞,*,基本連用形,子音動詞ラ行,なる,なり,成る/なる,自他動詞:他:成す/なす
なり,0,0,0,動詞,*,基本連用形,子音動詞ラ行,なる,なり,鳴る/なる,自他動詞:他:鳴らす/ならす
"""
# text, kind; number 1 is the empty sentence
SENT = ["", "私が言う", "に", "魔法 ab", "#x", "#", " # y", "abc1000に", "私が\tに\r", "に" * 300, "EOS", "なり", "# ".strip() + "私", "。！？"]
BAD = [b"\xff\xfe", "に".encode() + b"\xe3\x81", "に".encode() * 21846, b"a" * 65536, b"\x80abc"]
COMM = ["# c1", "# S-ID:1-2-3 KNP:4", "# # d", "#  e ", "# ", "# 私が言う"]
LONG = ["# " + "x" * 1023, "# " + "私" * 400]
FORMATS = {"juman": ["-j"], "morph": ["-M"], "full-morph": ["-F"], "segment": ["--segment"], "lattice": ["-L2"], "dic-subset": ["--dic-subset"]}


class Cli:
    def __init__(self, ck, seed=5):
        vp.build(["vh_jumandic", "jumanpp_v2"])
        self.dir = ck.path("cli")
        os.makedirs(self.dir, exist_ok=True)
        dic = os.path.join(self.dir, "dic.csv")
        open(dic, "w").write(DIC)
        self.model = os.path.join(self.dir, "j.model")
        vp.harness("vh_jumandic", ["jmodel", self.model, dic, seed, 14])
        self.exe = vp.exe("jumanpp_v2")
        # new and freed memory is never zero
        self.env = {"HOME": self.dir, "PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "MALLOC_PERTURB_": "85"}

    def run(self, args, stdin=b"", model=True, timeout=20, err=False):
        # a program that does not stop printing is stopped by its file size limit
        with tempfile.TemporaryFile(dir=self.dir) as out:
            p = subprocess.run(["prlimit", "--fsize=50000000", self.exe] + (["--model=" + self.model] if model else []) + args,
                               input=stdin, stdout=out, stderr=subprocess.PIPE if err else subprocess.DEVNULL,
                               env=self.env, cwd=self.dir, timeout=timeout)
            out.seek(0)
            p.stdout = out.read()
        return p


def run(ck):
    r = vp.model_check("MC_Cli", """SPECIFICATION Spec
CONSTANTS MaxFiles = 2
 MaxLines = %d
INVARIANT Right
PROPERTY Ends
""" % (3 if ck.thorough else 2))
    ck.model("MC_Cli", r, "all sets of up to two files")
    cli = Cli(ck)
    rnd = random.Random(ck.seed)
    lines = {1: ("s", b"")}
    ids = {"s": [1], "b": [], "c": [], "l": []}
    n = 2
    for k, pool in (("s", SENT[1:]), ("b", BAD), ("c", COMM), ("l", LONG)):
        for t in pool:
            lines[n] = (k, t if isinstance(t, bytes) else t.encode())
            ids[k].append(n)
            n += 1

    # what a process of its own prints for one sentence
    table = {}
    def num(x):
        return table.setdefault(x, len(table) + 1)

    def cut(out):
        return out.split(b"\n")[:-1] if out.endswith(b"\n") or not out else out.split(b"\n")
    pairs = [(c, s) for s in ids["s"] + ids["b"] for c in [0] + ids["c"] + ids["l"]]
    formats = list(FORMATS)
    jobs = [(f, c, s) for f in formats for c, s in pairs
            if ck.thorough or f == "juman" or c in (0, ids["c"][0], ids["c"][4], ids["l"][0]) and (s < 8 or s in ids["b"][:1])]

    def solo(j):
        f, c, s = j
        text = (lines[c][1] + b"\n" if c else b"") + lines[s][1] + b"\n"
        try:
            return j, cli.run(FORMATS[f], text)
        except subprocess.TimeoutExpired:
            return j, None
    block, obs = {}, []
    with ThreadPoolExecutor(vp.NPROC) as ex:
        for (f, c, s), p in ex.map(solo, jobs):
            what = {"fmt": f, "comment": lines[c][1].decode() if c else "", "sentence": lines[s][1][:40].hex()}
            if p is None or p.returncode not in (0, 1):
                ck.violation("solo", "the program %s on %s" % ("does not end" if p is None else "ended with %d" % p.returncode, what), what)
                continue
            ls = cut(p.stdout)
            block[f, c, s] = [num(x) for x in ls]
            com = lines[c][1][2:].decode() if c and lines[c][0] == "c" else ""
            obs.append({"fmt": f, "rc": p.returncode, "ok": lines[s][0] == "s" and (c == 0 or lines[c][0] == "c"), "term": p.stdout.endswith(b"\n"),
                        "com": com, "lines": [x.decode("utf-8", "replace") if len(x) < 2000 else "long" for x in ls], "in": what["sentence"]})
    ck.validate_cases("solo", "T_Cli", cases=obs, env={"MODE": "solo"}, note="one sentence per process, all formats")

    # files
    cases = []
    total = 900 if ck.thorough else 260
    for i in range(total):
        f = formats[i % len(formats)] if i % 2 else "juman"
        usable_s = [s for s in ids["s"] if (f, 0, s) in block]
        usable_b = [s for s in ids["b"] if (f, 0, s) in block]
        files, descr = [], []
        nfiles = rnd.choice([1, 1, 2, 2, 3, 4]) if i % 5 else 1
        for k in range(nfiles):
            seq = []
            for _ in range(rnd.choice([0, 1, 2, 3, 4, 6, 9])):
                x = rnd.random()
                if x < .55:
                    seq.append(rnd.choice(usable_s))
                elif x < .63 and usable_b and i % 3:
                    seq.append(rnd.choice(usable_b))
                elif x < .70:
                    seq.append(1)
                elif x < .97:
                    seq.append(rnd.choice([c for c in ids["c"] if (f, c, 1) in block]))
                elif i % 3:
                    seq.append(rnd.choice([c for c in ids["l"] if (f, c, 1) in block]))
            nl = rnd.random() < .6
            if seq and seq[-1] == 1:
                nl = True
            if not seq:
                nl = True
            opn = not (nfiles > 1 and rnd.random() < .06)
            files.append((seq, nl, opn))
        need = {(lines[c][0], c) for s, _, _ in files for c in s if lines[c][0] in "cl"}
        cases.append((f, files, i % 5 == 0))

    def one(ic):
        i, (f, files, std) = ic
        d = os.path.join(cli.dir, "r%d" % i)
        os.makedirs(d, exist_ok=True)
        names = []
        for k, (seq, nl, opn) in enumerate(files):
            fn = os.path.join(d, "f%d" % k)
            names.append(fn)
            if opn:
                t = b"".join(lines[x][1] + b"\n" for x in seq)
                open(fn, "wb").write(t if nl else t[:-1])
        outfile = not std and i % 4 == 1
        of = os.path.join(d, "out")
        try:
            if std:
                p = cli.run(FORMATS[f], open(names[0], "rb").read())
            else:
                p = cli.run(FORMATS[f] + (["-o", of] if outfile else []) + names)
        except subprocess.TimeoutExpired:
            return i, None, b""
        out = open(of, "rb").read() if outfile and os.path.exists(of) else p.stdout
        shutil.rmtree(d)
        return i, p.returncode, out
    obs = []
    todo = {}
    with ThreadPoolExecutor(vp.NPROC) as ex:
        res = list(ex.map(one, enumerate(cases)))
    for i, rc, out in res:
        f, files, std = cases[i]
        fl = [{"lines": [{"k": lines[x][0], "id": x} for x in seq], "nl": nl, "open": opn} for seq, nl, opn in files]
        if rc not in (0, 1):
            ck.violation("run", "the program %s on %s" % ("does not end" if rc is None else "ended with %d" % rc, fl), {"files": fl, "fmt": f})
            continue
        need = set()
        for seq, _, _ in files:
            c = 0
            for x in seq:
                if lines[x][0] in "cl":
                    c = x
                else:
                    need.add((c, x))
                    c = 0
            if c:
                need.add((c, 1))
        for c, s in need:
            if (f, c, s) not in block:
                todo[f, c, s] = True
        obs.append((f, need, {"fmt": f, "files": fl, "rc": rc, "raw": out}))
    with ThreadPoolExecutor(vp.NPROC) as ex:
        for (f, c, s), p in ex.map(solo, sorted(todo)):
            block[f, c, s] = [num(x) for x in cut(p.stdout)] if p is not None else [-1]
    fin = []
    for f, need, o in obs:
        o["blocks"] = [[c, s, block[f, c, s]] for c, s in sorted(need)]
        o["out"] = [num(x) for x in cut(o.pop("raw"))]
        fin.append(o)
    ck.validate_cases("files", "T_Cli", cases=fin, env={"MODE": "run"}, note="sets of files; standard input or named files, standard output or -o")
    shutil.rmtree(cli.dir)
