"""Dictionaries and texts for the output formats of Jumandic models."""
import random
import gen_an, p_i01

UNK = [l for l in p_i01.DIC.split("\n") if l.startswith("UNK_")]
# part of speech, sub, conjugation form, conjugation type
POS = [("助詞", "格助詞", "*", "*"), ("助詞", "*", "*", "*"), ("名詞", "普通名詞", "*", "*"), ("名詞", "*", "*", "*"), ("名詞", "人名", "*", "*"),
       ("動詞", "*", "基本形", "母音動詞"), ("動詞", "*", "基本連用形", "子音動詞ラ行"), ("動詞", "*", "*", "子音動詞ラ行"),
       ("接尾辞", "形容詞性述語接尾辞", "基本形", "イ形容詞アウオ段"), ("特殊", "記号", "*", "*"), ("接続詞", "*", "*", "*"),
       ("副詞", "変副詞", "*", "*"), ("名詞", "*", "基本形", "変活用"), ("判定詞", "*", "基本形", "判定詞"), ("形容詞", "*", "語幹", "イ形容詞イ段"), ("変品詞", "*", "*", "*")]
FEATS = ["NIL", "NIL", "NIL", "カテゴリ:人", "x y", "自他動詞:他:成す/なす;他:する/する", "a:b c:d e", 'q"q z:"v"', "c,d k:v,w", "代表表記:a/b", "k:", "k: m"]
CHARS = list("にがなり私魔法あーアイッabＡ1２")
SPECIAL = [" ", "\t", ",", '"', "\\", "|", ":", ";", "_", "@", "#", "/", "*", "\r", "、", "　", "'", "-"]


def csv(f):
    if any(x in f for x in ',"\n\r') or (f and f[0] == '"'):
        return '"' + f.replace('"', '""') + '"'
    return f


def dic(rng):
    rows, surfs = [], []
    for _ in range(rng.randint(4, 25)):
        r = rng.random()
        if r < .35 and surfs:
            s = rng.choice(surfs)
        elif r < .5:
            s = rng.choice(SPECIAL)
        elif r < .6:
            s = rng.choice(SPECIAL) + rng.choice(CHARS) + rng.choice(SPECIAL + [""])
            s = s.replace("\t", "x")
        else:
            s = "".join(rng.choice(CHARS) for _ in range(rng.choice([1, 1, 2, 2, 3])))
        surfs.append(s)
        pos = rng.choice(POS if rng.random() < .7 else POS[:6])
        base = s if rng.random() < .6 else rng.choice(["る", 'b"c', "d,e", "に", s + "る"])
        read = s if rng.random() < .6 else rng.choice(["よみ", 'r"', ",", "に", " "])
        can = rng.choice(["*", "*", "成る/なる", base.replace("\t", "t") + "/" + read, 'c",/x', "a b"])
        rows.append([s, "0", "0", "0", *pos, base, read, can, rng.choice(FEATS)])
        if rng.random() < .3:
            # the same word with another meaning
            r2 = list(rows[-1])
            r2[rng.choice([10, 11])] = rng.choice(["*", "鳴る/なる", "z"])
            rows.append(r2)
    return rows, surfs


def text(rng, surfs):
    r = rng.random()
    if r < .02:
        return ""
    t = ""
    for _ in range(rng.randint(1, 6)):
        x = rng.random()
        t += rng.choice(surfs) if x < .55 else rng.choice(SPECIAL) if x < .7 else rng.choice(CHARS) if x < .9 else rng.choice(["わぁい", "すごーい", "ねえっ", "がーん", "３５", "ドキドキ"])
    return t.replace("\n", "")


def job(ck, tag, n, confs, per, auto=.2, rt=.0):
    rng = random.Random(ck.seed * 97 + sum(map(ord, tag)))
    fn = ck.path(tag + ".job")
    with open(fn, "w") as h:
        for i in range(n):
            rows, surfs = dic(rng)
            df = ck.path("%s%d.csv" % (tag, i))
            open(df, "w", newline="").write("\n".join(UNK + [",".join(csv(f) for f in r) for r in rows]) + "\n")
            h.write("MODEL @jumandic %s\n" % df)
            for _ in range(confs):
                c = gen_an.conf(rng, rng.random() < .4, rng.random() < auto)
                c.setdefault("astep", 0)
                c["n"] = rng.choice([1, 1, 2, 3, 5, 9])
                if rng.random() < .6 and not c["astep"]:
                    c["beam"] = max(c["beam"], c["n"])
                h.write(gen_an.cline(c))
                h.write("W %d 14\n" % rng.randrange(10000))
                h.write("SEP %s\n" % gen_an.hx(rng.choice([" ", " ", "|", "", "--", "　"]).encode()))
                for _ in range(per):
                    h.write("COM %s\n" % gen_an.hx(rng.choice(["", "", "S-ID:1 x", "# y"]).encode()))
                    h.write("RT %d\n" % (rng.random() < rt))
                    h.write("IN %s\n" % gen_an.hx(text(rng, surfs).encode()))
    return fn
