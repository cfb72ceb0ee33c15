import os
import vp

TECHNIQUE = 'TLA+ decoder and classifier, all code points and short byte strings validated against the real code'
NOTE = 'All code points and all byte strings over a representative byte set up to a bound go through the real decoder and classifier; the TLA+ definition decides. Class tables are bound by range definitions written from the documentation of the classes.'

BYTES = "007f80bfc1c3dfe0e3edeff0f4f7f8ff"


def run(ck):
    vp.build(["vh_util"])
    n = 4
    alpha = BYTES if ck.thorough else "417f80bfc3e0edeff0f7f8ff"
    bs = ", ".join(str(int(alpha[i:i + 2], 16)) for i in range(0, len(alpha), 2))
    r = vp.model_check("MC_Utf8", """SPECIFICATION Spec
CONSTANTS Bytes = {%s}
 MaxLen = %d
INVARIANTS Cover Canonical
PROPERTIES Sticky Monotone
""" % (bs, n))
    ck.model("MC_Utf8", r, "all strings of up to %d bytes over representatives of every byte class" % n)
    f = ck.path("all.ndjson")
    vp.harness("vh_util", ["utf8_all", f, n, alpha])
    ck.validate_cases("utf8-exhaustive", "T_Utf8", file=f)
    f = ck.path("rnd.ndjson")
    vp.harness("vh_util", ["utf8_random", f, ck.seed, 40000 if ck.thorough else 4000])
    ck.validate_cases("utf8-random", "T_Utf8", file=f)
    f = ck.path("cls.ndjson")
    if os.path.exists(f):
        os.unlink(f)
    vp.harness("vh_util", ["utf8_class", f, 0, 0x10000, 1])
    vp.harness("vh_util", ["utf8_class", f, 0x10000, 0x110000, 1 if ck.thorough else 32])
    ck.validate_cases("classes", "T_Utf8", file=f, note="all code points of the BMP, others in blocks")
