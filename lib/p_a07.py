import random
import gen_an, vp

TECHNIQUE = 'TLA+ specification of accepted texts (byte-level decoder, limits); outcomes of the real analyser for valid, damaged, empty, oversized and limit-length texts, one analyser after another text, are validated'
NOTE = 'Random byte strings around valid text, truncated and overlong sequences, every length around the byte limit and the limit of 16-bit positions; models whose rules cover every character. Sampled except for the limits.'


def damaged(rng, ab, surf):
    """texts around validity: random bytes, cut sequences, unassigned and control characters"""
    r = rng.random()
    if r < 0.2:
        return bytes(rng.choice([0, 9, 10, 13, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc3, 0xdf, 0xe0, 0xe3, 0xed, 0xef,
                                 0xf0, 0xf4, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff]) for _ in range(rng.randint(1, 5)))
    if r < 0.45:
        t = "".join(chr(rng.choice([0, 1, 9, 10, 13, 0x7f, 0x85, 0xa0, 0xad, 0x200b, 0x2028, 0xfeff, 0xfffe, 0xffff, 0xe000,
                                    0x10ffff, 0x1f600, 0x0378, 0x3099, 0x309a, 0xfffd, 0x20000, 0x07ff, 0x0800, 0xd7ff]))
                    if rng.random() < 0.6 else rng.choice(ab) for _ in range(rng.randint(1, 5)))
        return t.encode()
    b = bytearray("".join(rng.choice(surf) if rng.random() < 0.5 else rng.choice(ab + ["é", "𠮷"])
                          for _ in range(rng.randint(1, 4))).encode())
    if r < 0.6:
        return bytes(b[:rng.randrange(len(b) + 1)])
    if r < 0.7:
        return bytes(b[rng.randrange(len(b)):])
    if r < 0.85:
        k = rng.randrange(len(b))
        b[k] = rng.choice([b[k] ^ 0x80, b[k] ^ 0x40, b[k] ^ 0x20, rng.randrange(256)])
    return bytes(b)


def run(ck):
    vp.build(["vh_core"])
    rng = random.Random(ck.seed * 65537 + 7)
    n = 200 if ck.thorough else 50
    job, out = ck.path("a07.job"), ck.path("obs.ndjson")
    with open(job, "w") as h:
        h.write("DUMP conf ib path\nFRESH 0\n")
        for i in range(n):
            s, d, ab, surf, m, line = gen_an.model(ck, rng, "a07", i, cover=1.0, nmax=2, lists=True)
            h.write(line)
            for _ in range(3):
                c = gen_an.conf(rng, rng.random() < 0.4, rng.random() < 0.25)
                c["maxin"] = mx = rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 40, 4096])
                h.write(gen_an.cline(c) + gen_an.wline(rng))
                for _ in range(40):
                    r = rng.random()
                    b = damaged(rng, ab, surf)
                    if r < 0.15 and mx < 100:
                        # exactly at and around the limit
                        b = (b"".join(rng.choice(ab).encode() for _ in range(mx + 2)))[:max(0, mx + rng.choice([-1, 0, 0, 1]))]
                    elif r < 0.2:
                        b = b"a" * max(0, mx + rng.choice([-1, 0, 1])) if mx < 100 else b""
                    elif r < 0.25:
                        b = b""
                    if rng.random() < 0.1:
                        h.write("UPTO %d\n" % rng.randint(1, 5))
                    h.write("IN %s\n" % gen_an.hx(b))
        # the limits: default byte limit, and positions of 16 bits
        sf, df = ck.path("lim.spec"), ck.path("lim.csv")
        open(sf, "w").write("field 1 w string trie_index\nunk u template row 1 : single family_anything surface to [ w ]\nngram [ w ]\n")
        open(df, "w").write("x\nab\nあ\n")
        h.write("MODEL %s %s -\n" % (sf, df))
        h.write(gen_an.cline({"beam": 1}) + "W 5 8\n")
        for u, k in [(b"a", 4095), (b"a", 4096), (b"a", 4097), ("あ".encode(), 1365), ("あ".encode(), 1366), ("𠮷".encode(), 1024), (b"\xe3\x81", 2048), (b"a", 1)]:
            h.write("REP %s %d\n" % (u.hex(), k))
        for c in ({"beam": 1}, {"beam": 2, "gbeam": 2, "rcheck": 1, "rbeam": 1}):
            h.write(gen_an.cline(dict(c, maxin=300000)) + "W 5 8\n")
            for u, k in [(b"a", 32764), (b"a", 32765), (b"a", 32766), (b"a", 32767), (b"a", 32768), (b"a", 65530), (b"a", 65532), (b"a", 65533), (b"a", 65534), (b"a", 65535), (b"a", 65536), (b"a", 65537),
                         (b"ab", 16382), ("あ".encode(), 32765), (b"ab", 32767), ("あ".encode(), 65533), ("あ".encode(), 65534), (b"a", 131072), (b"x", 7), (b"a", 300001)]:
                h.write("REP %s %d\nREP %s 3\n" % (u.hex(), k, u.hex()))
    vp.harness("vh_core", ["an", job, out], timeout=600)
    ck.validate_cases("outcomes", "T_Input", file=out, note="%d random models, 3 settings each, 40 texts each; limit texts" % n)
