import gen_fmt, vp

TECHNIQUE = 'TLA+ specification of the texts of all output formats (Formats.tla, CsvReader.tla); the output of the real formatters for random Jumandic models and texts is validated against it'
NOTE = 'The texts of the JUMAN, morph, full morph, segmented and dictionary subset formats for the same analysis are compared with the specification byte by byte (the dictionary subset row by row after reading it as CSV, and after importing it as a dictionary again). Words consist of or contain separators, quotes, blanks and backslashes; a half-width blank or quote inside a longer word is a documented limitation of the JUMAN format, and is only compared with the text the format gives.'


def run(ck):
    vp.build(["vh_jumandic"])
    n = 250 if ck.thorough else 60
    out, tab = ck.path("obs.ndjson"), ck.path("tables.json")
    vp.harness("vh_jumandic", ["jfmt", gen_fmt.job(ck, "i07", n, 3, 5, rt=.25), out, tab], timeout=600)
    ck.validate_cases("texts", "T_Formats", file=out, env={"MODE": "texts", "MODELS": tab}, note="%d models, 3 settings, 5 texts each" % n)
