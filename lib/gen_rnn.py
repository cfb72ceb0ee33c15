"""Recurrent networks whose scores are exact: units are saturated, all numbers are multiples of a quarter."""
import itertools, struct
import gen

P = [108641969, 116049371, 125925907, 133333309, 145678979, 175308587, 197530793, 234567803, 251851741, 264197411,
     330864029, 399999781, 407407183, 459258997, 479012069, 545678687, 560493491, 607407037, 629629243, 656789717,
     716048933, 718518067, 725925469, 733332871, 753085943, 755555077, 782715551, 790122953, 812345159, 814814293,
     893826581, 923456189, 940740127, 953085797, 985184539, 990122807]
M64 = 1 << 64


def maxent(order, hmax, w, hist, word):
    """the direct connections of the network: hashed n-grams of words, the latest word first"""
    res = 0
    for i in range(order):
        x = P[0] * P[1] % M64
        for j in range(1, i + 1):
            x = (x + P[(i * P[j] + j) % len(P)] * (hist[j - 1] + 1)) % M64
        res += w[(x % hmax + word) % M64 % hmax]
    return res


def q(rng, n=16):
    return rng.randint(-n, n) / 4.0


def network(rng, fn, words):
    V, E = len(words), rng.choice([1, 2, 3, 4, 5, 8, 9])
    order = rng.choice([1, 2, 2, 3, 3, 4])
    while (V + 1) ** order > 2500:
        order -= 1
    hmax = rng.choice([1, 2, 7, 16, 31, 50])
    emb = [[100 * (2 * rng.randint(-2, 1) + 1) for _ in range(E)] for _ in range(V)]
    nce = [[q(rng) for _ in range(E)] for _ in range(V)]
    mat = [[200 * rng.randint(-2, 2) for _ in range(E)] for _ in range(E)]
    me = [q(rng) for _ in range(V + hmax)]
    lnz = q(rng, 40)
    with open(fn, "w", encoding="utf-8", newline="") as h:
        for w in words:
            h.write("%s %d\n" % (w, rng.randint(1, 100)))
    with open(fn + ".nnet", "wb") as h:
        h.write(struct.pack("<QQI?f?64sII", 60000 + E, V + hmax, order, True, lnz, False, b"sigmoid", 1, 0))
        for x in emb + nce + mat + [me]:
            h.write(struct.pack("<%df" % len(x), *x))
    ids = range(-1, V)
    tab = [int(maxent(order, hmax, me, t[:-1], t[-1]) * 64) for t in itertools.product(ids, repeat=order)]
    return {"E": E, "V": V, "ord": order, "emb": emb, "nce": [[int(x * 64) for x in r] for r in nce], "mat": mat,
            "tab": tab, "lnz": int(lnz * 64)}


def vocabulary(rng, d, fields, ab, tr, eos, unk, sep):
    """[(text, values)]: words of the dictionary, and words it does not have"""
    bad = set(' "\n\r\t,') | {sep}
    out = {}
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        r = rng.choice(d.rows)
        v = [r[f] for f in fields]
        k = rng.random()
        if k < 0.35:
            for i, f in enumerate(fields):
                if f == tr:
                    v[i] = gen.word(rng, ab, rng.choice([1, 1, 2]))
        elif k < 0.45:
            v[rng.randrange(len(v))] = rng.choice(["zz", rng.choice(d.rows)[rng.choice(fields)]])
        t = sep.join(v)
        if any(x in bad for y in v for x in y) or t.strip() == "" or t in (eos, unk) or any(ord(x) < 33 for x in t):
            continue
        if not all(v):
            continue  # networks whose words have empty fields are refused
        out[t] = v
    items = list(out.items())
    rng.shuffle(items)
    if unk:
        items.insert(rng.randint(0, len(items)), (unk, []))
    return [(eos, [])] + items
