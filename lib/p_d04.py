import os, random, subprocess
import concurrent.futures as cf
import p_i01, vp

TECHNIQUE = 'TLA+ specification of the model file format and of saving page by page (ModelFile.tla, MC_ModelFile.tla: crashes and cuts at any step); files that the real saver writes, and cut, damaged and half written copies of them, are loaded and validated against it by TLC'
NOTE = 'Part lists, block sizes and damages are generated; every cut of the first page and around the ends of blocks for some files, samples for the others. Damage is of the first page (contents have no checksum). Crashes while saving are modelled; on the real code the saver is stopped by a file size limit.'


def varint(n):
    return 1 if n < 128 else 1 + varint(n // 128)


def hlen(parts):
    """length of the header in a file whose blocks start at pages"""
    off, n = 4096, varint(len(parts))
    for k, c, bs in parts:
        n += varint(k) + varint(len(c)) + len(c) + varint(len(bs)) + varint(off)
        for _, z in bs:
            n += varint(off) + varint(z)
            off = (off + z + 4095) // 4096 * 4096
        n += varint(off)
    return n, off


def job(ck, n):
    rng = random.Random(ck.seed * 17 + 3)
    lines = []

    def sz():
        return rng.choice([0, 1, 3, 4, 100, 1000, 4095, 4096, 4097, 8192, 9000, 12288, rng.randint(1, 20000)])

    def block():
        z = sz()
        return (rng.randint(0, 250), z)

    def emit(parts, pre, limit, cuts, dmg):
        ps = ";".join("%d:%s:%s" % (k, c.hex() or "-", ",".join("%d.%d" % b for b in bs)) for k, c, bs in parts)
        lines.append("FILE pre=%s limit=%d hlen=%d parts=%s cuts=%s dmg=%s" % (
            pre, limit, hlen(parts)[0], ps, ",".join(map(str, cuts)),
            ",".join("+".join("%d.%d" % x for x in d) for d in dmg)))

    for i in range(n):
        parts = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            c = rng.choice([b"", b"x", "第一部".encode(), b"a,b;c:d\n\0e", bytes(rng.randrange(256) for _ in range(rng.choice([3, 127, 128, 300])))])
            parts.append((rng.choice([0, 1, 2, 3]), c, [block() for _ in range(rng.choice([0, 1, 1, 2, 2, 4, 7]))]))
        h, end = hlen(parts)
        if rng.random() < 0.15 or i < 12:
            # around the biggest header that fits
            want = rng.choice([4060, 4070]) + (i % 12 if i < 12 else rng.randint(0, 20)) + (10 if i < 12 else 0)
            parts = parts[:2] or [(1, b"", [block()])]
            h, end = hlen(parts)
            pad = want - h
            k, c, bs = parts[0]
            parts[0] = (k, c + b"c" * max(0, pad), bs)
            while hlen(parts)[0] > want and len(parts[0][1]) > 0:
                parts[0] = (k, parts[0][1][:-1], bs)
            h, end = hlen(parts)
        pre = rng.choice(["none", "none", "again", "again", "10", "5000", "100000"])
        limit = 0
        if rng.random() < 0.2:
            limit = rng.choice([1, 4095, 4096, 4097, max(1, end - 4096), max(1, end - 1), rng.randint(1, end + 100)])
        cuts = {0, 1, 6, 7, 8, 9, 10, -1, -2, -4096, -4097} | {8 + h + d for d in (-1, 0, 1, 2, 3)} | {rng.randint(0, max(1, end)) for _ in range(6)}
        off = 4096
        for _, _, bs in parts:
            for _, z in bs:
                cuts |= {off, off - 1, off + 1, off + z - 1, off + z}
                off = (off + z + 4095) // 4096 * 4096
        if i % 25 == 0 and h < 300:
            cuts |= set(range(0, h + 20))
        if i % 25 == 1:
            cuts |= set(range(max(0, 4096 - 30), 4096 + 30))
        dmg = []
        for _ in range(25):
            top = 8 + min(h + 2, 4080)
            d = [(rng.randint(0, top if rng.random() < 0.9 else 4095),
                  rng.choice([0, 1, 2, 5, 0x7f, 0x80, 0xff, rng.randrange(256)])) for _ in range(rng.choice([1, 1, 1, 2, 4]))]
            if rng.random() < 0.15:
                p = rng.randint(8, top)
                d = [(p + j, 0xff) for j in range(rng.choice([4, 8, 9, 10, 12]))] + [(p + 9, 1)]
            d = [(p, b) for p, b in d if p < 4096]
            if d:
                dmg.append(d)
        emit(parts, pre, limit, sorted(cuts, key=abs), dmg)
        if i % 5 == 0 and h < 4000:
            # stopped while it is written over a file that was complete
            emit(parts, "none", 0, [], [])
            _, e1 = hlen(parts)
            more = [(k, c, [(s + 1, z) for s, z in bs]) for k, c, bs in parts] + [(1, b"m", [(3, 5000), (4, 9000)])]
            emit(more, "again", rng.choice([e1, e1 + 1, e1 + 8192, 4096]), [], [])
    # one with a part bigger than the biggest pages
    emit([(0, b"big", [(7, 100), (9, 2300000)]), (1, b"", [(5, 1)])], "none", 0, [-1, 8192, 2200000], [])
    fn = ck.path("d04.job")
    open(fn, "w").write("\n".join(lines) + "\n")
    return fn


def run(ck):
    vp.build(["vh_core", "vh_jumandic", "jumanpp_v2"])
    mb, ms = (3, 3) if ck.thorough else (2, 2)
    r = vp.model_check("MC_ModelFile", "SPECIFICATION Spec\nCONSTANTS MaxBlock = %d\nMaxBlocks = 3\nSaves = %d\nINVARIANTS Whole\nCHECK_DEADLOCK FALSE\n" % (mb, ms))
    ck.model("MC_ModelFile", r, "files of up to 3 blocks of up to %d pages, up to %d savings over each other, ended anywhere, cut anywhere" % (mb, ms))
    n = 1000 if ck.thorough else 120
    out = ck.path("obs.ndjson")
    vp.harness("vh_core", ["mfile", job(ck, n), out], timeout=600)
    ck.validate_cases("files", "T_ModelFile", file=out, note="%d model files with cuts and damages" % (n + 1))
    # whole models, cut, given to the analyser
    rng = random.Random(ck.seed)
    cli = p_i01.Cli(ck)
    data = open(cli.model, "rb").read()
    n = 60 if ck.thorough else 16
    cuts = [0, 1, 100, 4095, 4096, len(data) - 1, len(data) - 4096] + [rng.randint(0, len(data) - 1) for _ in range(n)]

    def one(i):
        fn = ck.path("cut%d.model" % i)
        open(fn, "wb").write(data[:cuts[i]])
        r = cli.run(["--model=" + fn], b"a\n", model=False).returncode
        os.unlink(fn)
        return r
    with cf.ThreadPoolExecutor(vp.NPROC) as ex:
        rs = list(ex.map(one, range(len(cuts))))
    for c, r in zip(cuts, rs):
        if r <= 0 or r >= 128:
            ck.violation("cut-program", "jumanpp_v2 with a model cut at %d of %d bytes: exit status %d" % (c, len(data), r),
                         {"cut": c, "status": r})
