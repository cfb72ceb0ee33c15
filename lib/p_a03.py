import random
import gen, gen_an, vp
from p_a02 import gen_write

TECHNIQUE = 'TLA+ specification of the unknown-word rules over character classes and dictionary words (Unknown.tla); the candidates proposed by the real rules are validated against it'
NOTE = 'Random rules, dictionaries and inputs over alphabets chosen per rule; every proposed candidate with span, fields and placeholder values, and every candidate that has to be proposed. Sampled; the small letters after れ ぜ よ (listed twice in the table of the code) are left out.'

NUM = list("12３0一二十百千万数何幾分のぶん,，.．・・キロメガミリ年")
NORM = list("かけぇえいーー〜っッぁあゃカアねにん日しぃう")
ONO = list("ほげホゲﾎｹあ")
KIND = {"numeric": NUM, "normalize": NORM, "onomatopeia": ONO}
FRAG = {"numeric": ["ぶんの", "分の", "キロ", "メガ", "数", "何", ",123", ",1234", ".5", "・5", "10", "二十", "幾万", "ギガ", "テラ", "十", "．3", "数キロ", "ミリ"],
        "normalize": ["ねー", "ねぇ", "かぁぁ", "っっ", "あっ", "すー", "けー", "ーー", "ーっ", "ヶ", "カッ", "っー", "かー〜", "ゎ", "っ1", "っ、", "っa"],
        "onomatopeia": ["ほげほげ", "げほげほ", "ホゲンホゲン", "あいうえあいうえ", "ﾎｹﾎｹ", "ーほーほ", "日本日本", "あああああああああ", "ほほほほ"]}


def respell(rng, w):
    """a spelling the normalisation could undo"""
    out = ""
    low = {"あ": "ぁ", "い": "ぃ", "う": "ぅ", "え": "ぇ", "お": "ぉ", "わ": "ゎ"}
    for i, c in enumerate(w):
        r = rng.random()
        if i and r < 0.3 and c in "あいうえ":
            out += "ー"
        elif i and r < 0.6 and c in low:
            out += low[c]
        else:
            out += c
        if rng.random() < 0.3:
            out += rng.choice(["ー", "っ", "ぁ", "ーー", "っっ", "ッ", "ぃ", "ぇ", "〜"])
    return out


def rule_inputs(rng, kind, ab, surf, n, maxlen=9):
    for _ in range(n):
        r, t = rng.random(), ""
        if kind == "normalize" and r < 0.6:
            t = "".join(respell(rng, rng.choice(surf)) for _ in range(rng.randint(1, 2)))
        else:
            while len(t) < rng.randint(1, maxlen):
                x = rng.random()
                t += (rng.choice(FRAG[kind]) if kind in FRAG and x < 0.5 else
                      rng.choice(surf) if x < 0.65 else rng.choice(ab if x < 0.9 else gen.ALL))
        if any(a + b in t for a in "れぜよ" for b in "ぁぃぅぇぉ"):
            continue
        if kind == "onomatopeia" and rng.random() < 0.3:
            t = t + rng.choice(["", "ほ"])
        yield t[:maxlen]
    if kind == "numeric" and rng.random() < 0.3:
        k = rng.choice([63, 64, 65, 66, 67])
        yield "1" * k + rng.choice(["", "年", "キロ", ",123", "数十", "1"])


def run(ck):
    vp.build(["vh_core"])
    rng = random.Random(ck.seed * 7907 + 3)
    n = 500 if ck.thorough else 110
    job, out, mf, ms = ck.path("a03.job"), ck.path("obs.ndjson"), ck.path("models.json"), []
    kinds = ["numeric", "normalize", "onomatopeia", "chunking", "single"]
    with open(job, "w") as h:
        h.write("DUMP in ib cp nodes fields ph\n")
        for i in range(n):
            k = kinds[i % 5] if i % 7 else "mix"
            ab = rng.sample(KIND[k], min(len(KIND[k]), 8)) if k in KIND else gen.alphabet(rng)
            s, d, ab, surf, m, line = gen_an.model(
                ck, rng, "a03", i, ab=ab, cover=0.6, kinds=None if k == "mix" else (k,), nmax=3, nrows=20,
                words=[w for f in ([k] if k in FRAG else list(FRAG)) for w in FRAG[f]], lists=True, atleast=1)
            ms.append(m)
            h.write(line + "CONF beam=1\n")
            for t in rule_inputs(rng, k if k != "mix" else rng.choice(kinds), ab, surf, 18):
                h.write("IN %s\n" % gen_an.hx(t.encode()))
    gen_write(mf, ms)
    vp.harness("vh_core", ["an", job, out], timeout=500)
    ck.validate_cases("candidates", "T_Unknown", file=out, env={"MODE": "unk", "MODELS": mf},
                      note="%d random models, 18 inputs each" % n)
