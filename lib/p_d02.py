import vp

TECHNIQUE = 'TLA+ reader automaton checked exhaustively, every short file replayed into the real reader'
NOTE = 'Every file up to length 6 (8 thorough) over a five-letter alphabet plus random longer files is read by the real reader and its rows, fields and line numbers must be those of the specification. Bounded by length and alphabet.'


def run(ck):
    vp.build(["vh_util"])
    n = 8 if ck.thorough else 6
    r = vp.model_check("MC_Csv", """SPECIFICATION Spec
CONSTANTS Alphabet = {97, 44, 34, 10, 13}
 MaxLen = %d
 Sep = 44
 Quote = 34
INVARIANTS RoundTrip Agrees Shape
PROPERTIES Monotone Sticky
""" % n)
    ck.model("MC_Csv", r, "all files of up to %d characters over {a , \" LF CR}" % n)
    f = ck.path("all.ndjson")
    vp.harness("vh_util", ["csv_all", f, n])
    ck.validate_cases("csv-exhaustive", "T_Csv", file=f, note="every file up to length %d, read by the real reader" % n)
    f = ck.path("rnd.ndjson")
    vp.harness("vh_util", ["csv_random", f, ck.seed, 20000 if ck.thorough else 3000, ck.path("tmp.csv")])
    ck.validate_cases("csv-random", "T_Csv", file=f, note="random files, separators, quotes, line ends; memory and file")
