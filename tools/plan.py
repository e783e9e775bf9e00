"""What the check of each property runs (see ../check.py)."""

DOM = "texts are valid UTF-8 without NUL and U+FFFD"
RND = "generated inputs are a sample beyond the exhaustively enumerated small ones"


def P(cap, rule, assumptions=(), **kw):
    d = {"max": cap, "rule": rule,
         "assumptions": [DOM, RND, *assumptions]}
    d.update(kw)
    return d


def mc(cfg, n=2, tiers=("quick", "thorough"), **kw):
    """An exhaustive check of a design specification; n: states it has at least."""
    return dict(module=cfg.split("_")[0], cfg=cfg, min_states=n, tiers=tiers, **kw)


def deep(cfg, n=2, **kw):
    return mc(cfg, n, ("thorough",), workers="4", **kw)


def bad(cfg):
    """A design with a planted mistake, which TLC must reject."""
    return mc(cfg, 0, fails=True, workers="1")


def gen(cfg, n, tiers=("quick", "thorough")):
    """TLC enumerates at least n inputs for the replay on the real code."""
    return dict(module=cfg.split("_")[0], cfg=cfg, min=n, tiers=tiers)


Q, T = ("quick",), ("thorough",)

DESIGN = {
    "C01": dict(mc=[mc("GlobMC_q", 50000), mc("GlobMC_u", 50000), mc("GlobMC_live"), bad("GlobMC_bad"),
                    deep("GlobMC_x", 100000), deep("GlobMC_t", 500000)],
                gen=[gen("Inputs_glob", 2000, Q), gen("Inputs_globt", 30000, T)]),
    "C02": dict(mc=[mc("ParseMC_q", 10000), mc("ParseMC_c", 10000), deep("ParseMC_t", 100000)]),
    "C03": dict(mc=[mc("NormMC_q", 5000), mc("NormMC_b", 2000), bad("NormMC_bad")],
                gen=[gen("NormMC_g", 100), gen("NormMC_h", 1000, T)]),
    "C04": dict(mc=[mc("TrieMC_q", 10000), mc("TrieMC_live"), bad("TrieMC_bad"), deep("TrieMC_t", 500000)],
                gen=[gen("RegistryMC_qglob", 2000)]),
    "C05": dict(mc=[mc("DottedMC_d", 50000), mc("DottedMC_live"), bad("DottedMC_bad")],
                gen=[gen("Inputs_dotted", 4000, Q), gen("Inputs_dottedt", 30000, T)]),
    "C06": dict(mc=[mc("DottedMC_q", 50000), bad("DottedMC_bad"), deep("DottedMC_t", 400000)],
                gen=[gen("RegistryMC_qdotted", 1500)]),
    "C07": dict(mc=[mc("RegistryMC_rglob", 50000), mc("RegistryMC_rdotted", 50000), mc("RegistryMC_rtags", 50000)],
                gen=[gen("RegistryMC_g" + k, 1500, Q) for k in ("glob", "dotted", "tags")]
                + [gen("RegistryMC_t" + k, 70000, T) for k in ("glob", "dotted", "tags")]),
    "C08": dict(mc=[mc("SeriesMC_q", 10000), mc("QueryMC_q", 1000), bad("QueryMC_bad"),
                    deep("SeriesMC_t", 50000), deep("QueryMC_t", 5000)]),
    "C09": dict(mc=[mc("TagMC_q", 300000), mc("TagMC_live"), bad("TagMC_bad1"), bad("TagMC_bad2"),
                    deep("TagMC_t", 500000)],
                gen=[gen("Inputs_tags", 1500, Q), gen("Inputs_tagst", 20000, T)]),
    "C10": dict(mc=[mc("TagTreeMC_q", 100000), mc("TagTreeMC_w", 100000), mc("TagTreeMC_live"), bad("TagTreeMC_bad"),
                    deep("TagTreeMC_t", 2000000)],
                gen=[gen("RegistryMC_qtags", 1500)]),
    "C11": dict(mc=[mc("TagPathMC_q", 10000), mc("TagPathMC_s", 10000), deep("TagPathMC_t", 100000)]),
    "C12": dict(mc=[mc("EscapeMC_q", 60000), mc("EscapeMC_k", 1000), deep("EscapeMC_t", 50000)]),
    "C13": dict(mc=[mc("ExpandMC_q", 200000), bad("ExpandMC_bad"), deep("ExpandMC_t", 3000000)]),
    "C14": dict(mc=[mc("ExpandMC_r", 150000), mc("ExpandMC_live"), bad("ExpandMC_bad"), deep("ExpandMC_t", 3000000)],
                gen=[gen("ExpandMC_g", 4000, Q), gen("ExpandMC_h", 20000, T)]),
    "C15": dict(mc=[mc("RangesMC_q", 300000), mc("RangesMC_live"), bad("RangesMC_bad1"), bad("RangesMC_bad2"),
                    deep("RangesMC_t", 3000000)]),
    "C16": dict(mc=[mc("StoreMC_q", 10000), bad("StoreMC_bad1"), bad("StoreMC_bad2"), deep("StoreMC_t", 50000)],
                gen=[gen("StoreMC_g", 12000, Q), gen("StoreMC_h", 60000, T)]),
    "C17": dict(mc=[mc("SharedMC_q", 4000), mc("SharedMC_live"), bad("SharedMC_bad1"), bad("SharedMC_bad2"),
                    deep("SharedMC_t", 500000)]),
    "C18": dict(mc=[mc("SampleMC_q", 40000), mc("SampleMC_live"), bad("SampleMC_bad"), deep("SampleMC_t", 200000)]),
    "C19": dict(mc=[mc("LevelsMC_q", 50000), deep("LevelsMC_t", 300000)]),
    "C20": dict(mc=[mc("ItemMC_q", 10000), bad("ItemMC_bad"), deep("ItemMC_t", 100000)]),
    "C21": dict(mc=[mc("GlobMC_q", 50000), mc("GlobMC_u", 50000), mc("DottedMC_d", 50000)]),
    "C22": dict(mc=[mc("ComposeMC_q", 20000), bad("ComposeMC_bad1"), bad("ComposeMC_bad2"),
                    deep("ComposeMC_t", 200000)]),
}

BATCH = ("a record is one history of 4-24 additions and matches on one tree, each step checked against the "
         "registry state machine and individual matching; non-trivial: ")

PLAN = {
    "C01": P(30000,
             "a record is one glob with 8-20 subjects (all token sequences up to length 3, then random ones); "
             "non-trivial: the glob matches some of its subjects and not others"),
    "C02": P(50000,
             "a record is one text (all texts up to 5 symbols over two bracket alphabets, then random ones); "
             "non-trivial: it has a bracket"),
    "C03": P(10000,
             "a record is one glob with 3 other spellings (all token pairs, then random ones); "
             "non-trivial: the normalized text differs from the glob"),
    "C04": P(4500, BATCH + "some match reports some but not all registered globs", trace="TraceBatch"),
    "C05": P(35000,
             "a record is one dotted glob with its paths, as text and as parts with every permitted length; "
             "non-trivial: it matches some of its paths and not others"),
    "C06": P(4500, BATCH + "some match reports some but not all registered globs", trace="TraceBatch"),
    "C07": P(5000, BATCH + "at least one addition succeeds and one fails", trace="TraceBatch"),
    "C08": P(25000,
             "a record is one query text (or list of conditions) with its terms, normalized text and the terms of "
             "that text; non-trivial: it is accepted with at least one term or rejected with one quoted argument"),
    "C09": P(25000,
             "a record is one list of terms with its tag sets in slice and map form; non-trivial: it matches some "
             "of them and not others"),
    "C10": P(2500, BATCH + "some match reports some but not all registered queries", trace="TraceBatch"),
    "C11": P(40000,
             "a record is one tagged path decoded by all variants of its format; non-trivial: it has a pair"),
    "C12": P(40000,
             "a record is one byte string escaped, unescaped and round-tripped by all variants with a prior buffer; "
             "non-trivial: something has to be escaped or unescaped"),
    "C13": P(30000,
             "a record is one expression and its expansions; non-trivial: it expands to two or more texts"),
    "C14": P(28000,
             "a record is one expression expanded with limits and step by step; non-trivial: two or more texts"),
    "C15": P(25000,
             "a record is one class text or a set of ranges with membership, location, merge and print operations; "
             "non-trivial: the set is not empty"),
    "C16": P(40000,
             "a record is one history of stores, resets and reads of one store; non-trivial: it has two or more stores"),
    "C17": P(600,
             "a record is one set of shared parsed objects matched by 4-8 concurrent readers under the race detector "
             "in two rounds; non-trivial: the readers get some matches", race=True, recorded=True,
             assumptions=["a data race is what Go's race detector reports on the executed schedules"]),
    "C18": P(30000,
             "a record is one glob with 6-12 samples; non-trivial: the glob has a wildcard", recorded=True),
    "C19": P(50000,
             "a record is one text (or list of texts) with the values of every helper; non-trivial: it has a dot or a "
             "wildcard"),
    "C20": P(25000,
             "a record is one item (or list item) with its subjects; non-trivial: it is found in some of them"),
    "C21": P(50000,
             "a record is one glob or dotted glob; non-trivial: it has a wildcard"),
}

PLAN["C22"] = P(3500,
                "a record is one sequence of globs whose items are appended one by one (or of texts, or of child nodes "
                "of a lookup); non-trivial: two or more are joined")

for _k, _v in DESIGN.items():
    PLAN[_k].update(_v)
