import gen_feat, vp
from p_a05 import collect

TECHNIQUE = 'TLA+ specification of match features (conditions over strings, lists, key-value lists, empty markers); the hashes of templates that see only a match are functions of, and separated by, the outcome the specification computes from the rows of the dictionary'
NOTE = 'Models with 1 to 70 match features (more than one 32-bit word of bits) with inline data and data files, over dictionaries with list fields; every dictionary entry of the sentences analysed. Rows that rules for unknown words copy are matched at build time.'


def run(ck):
    vp.build(["vh_core"])
    n = 250 if ck.thorough else 80
    mf = ck.path("models.json")
    cases = collect(ck, "d03", n, 14, gen_feat.match_feats(ck.path), mf, nrows=24, maxlen=6, cover=0.8)
    ck.validate_cases("match", "T_Features", cases=cases, env={"MODELS": mf},
                      note="%d random models with up to 70 match features, 14 sentences each" % n)
