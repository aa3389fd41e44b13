"""Per-property job tables: harness binary, entries, bounds."""

COMMON_ASSUMPTIONS = [
    "rustc 1.99.1 LLVM IR (opt-level 2, fat LTO, debug assertions and overflow checks on, panic=abort) is the encoded artefact; "
    "the std library, petgraph, pest, itertools, conllx and fixedbitset are executed symbolically too, not stubbed",
    "environment model: malloc never fails, getrandom returns fixed bytes per seed, writes to stderr are discarded",
]


def J(entry, *params, reach=(), **kw):
    d = dict(entry=entry, params=list(params), reach=list(reach))
    d.update(kw)
    return d


PROPS = {}


def prop(pid, bin, quick, bounds, thorough=None, assumptions=()):
    PROPS[pid] = dict(bin=bin, quick=quick, thorough=thorough, bounds=bounds, assumptions=list(assumptions))


# large trees (see `big` in model.rs): shape * 100 + words
BIG = (140, 240, 340, 440, 540, 640)


def big(pid, jobs):
    for j in jobs:
        j["icount"] = 300_000_000 if max(j["params"] + [0]) < 50 else 2_000_000_000
    PROPS[pid]["quick"] += jobs
    trees = [p for j in jobs if pid not in ("P06", "P10", "P20", "P22", "P24") and j["entry"] != "p11_decode" for p in j["params"][:2] if p >= 100]
    b = PROPS[pid]["bounds"]
    if [p for p in trees if p < 1000] and "large trees" not in b:
        b += "; large trees of up to %d words in six fixed shapes with symbolic content" % max(p % 100 for p in trees if p < 1000)
    if [p for p in trees if p >= 1000] and "every 31st" not in b:
        b += "; very large trees (up to 300 words, 150 levels, chains of 140 nodes) with every 31st node symbolic"
    PROPS[pid]["bounds"] = b


OPS = {0: (1,), 1: (1, 2), 2: (1,), 3: (1, 2), 4: (1, 2, 3), 5: (1, 2), 6: (1,), 7: (1, 2, 3, 4)}
prop("P02", "p02",
     [J("p02_op", op, 3, 3, 1, reach=r) for op, r in OPS.items()] +
     [J("p02_op", op, 4, 3, 0) for op in OPS if op != 7] +
     [J("p02_op", op, 1, 2, 0) for op in OPS if op != 7],
     "trees of 1..4 terminals and up to 3 nonterminals")
prop("P01", "p01",
     [J("p01_seq", 3, 2, 2, op, 0, reach=(1,)) for op in range(14)] +
     [J("p01_seq", 2, 3, 2, op, 0, reach=(1,)) for op in range(14)] +
     [J("p01_seq", 4, 2 if op in (0, 5, 6, 12) else 3, 1, op, 1, reach=(1,)) for op in range(14)],
     "trees of 2..4 terminals and up to 3 nonterminals, two operations (one for 4 terminals)")
prop("P03", "p03",
     [J("p03_proj", 4, 3, 1, 1, reach=(1, 2, 3)), J("p03_proj", 5, 4, 0, 1), J("p03_proj", 5, 2, 1, 1), J("p03_proj", 6, 3, 0, 1), J("p03_proj", 7, 3, 0, 0),
      J("p03_proj", 3, 3, 1, 2)],
     "trees of 3..7 terminals and up to 2..4 nonterminals; nodes created in arbitrary order up to 5 terminals")
prop("P12", "p12",
     [J("p12_chain", 2, 4, 1, 4, 0, reach=(1, 2)), J("p12_chain", 3, 4, 0, 4, 3), J("p12_chain", 4, 3, 0, 3, 1), J("p12_chain", 1, 5, 0, 5, 2), J("p12_chain", 3, 3, 1, 3, 3)],
     "trees of 1..4 terminals and up to 5 nonterminals, delimiters of one (any ASCII punctuation) or two characters")
prop("P14", "p14",
     [J("p14_filter", 3, 3, 1, reach=(1,)), J("p14_filter", 4, 3, 0), J("p14_filter", 2, 4, 1)],
     "trees of 2..4 terminals and up to 4 nonterminals, three labels, every accepted set")
prop("P15", "p14",
     [J("p15_insert", 3, 3, 1, reach=(1,)), J("p15_insert", 4, 2, 1), J("p15_insert", 5, 2, 0), J("p15_insert", 1, 2, 0, reach=(2,))],
     "trees of 1..5 terminals and up to 3 nonterminals, three labels, selectors by label (one or all but one), inserted label possibly selected itself")
prop("P16", "p14",
     [J("p16_reattach", 3, 3, 1, reach=(1, 2)), J("p16_reattach", 4, 3, 0), J("p16_reattach", 2, 4, 1)],
     "trees of 2..4 terminals and up to 4 nonterminals, predicates by tag (one or all but one of three), every attachment node")
prop("P17", "p17",
     [J("p17_project", 3, 3, 1, k, reach=(1,) if k != 2 else (2, 3)) for k in range(5)] + [J("p17_project", 4, 3, 0, k) for k in range(5)] + [J("p17_project", 1, 2, 0, k) for k in range(5)],
     "trees of 1..4 terminals and up to 3 nonterminals, predicates by label (one or all but one of three)")
prop("P18", "p17",
     [J("p18_pos", 3, 3, reach=(1, 2)), J("p18_pos", 4, 2), J("p18_pos", 5, 1), J("p18_pos", 1, 1)],
     "trees of 1..5 terminals and up to 3 nonterminals, tag sequences up to one longer than the sentence")
prop("P21", "p21",
     [J("p21_query", 3, 3, 1, 0, reach=(1,)), J("p21_query", 2, 2, 2, 1), J("p21_query", 4, 3, 0, 1), J("p21_query", 4, 2, 1, 0), J("p21_query", 1, 3, 1, 1), J("p21_query", 3, 2, 1, 0, 1), J("p21_query", 2, 2, 2, 0, 1), J("p21_labels", reach=(1,))],
     "trees of 1..4 terminals and up to 3 nonterminals with up to 2 secondary edges between arbitrary nodes; label sets over five labels")
prop("P22", "p21",
     [J("p22_span", 5, reach=(1,)), J("p22_span", 6), J("p22_edit", 5, reach=(1,)), J("p22_edit", 6), J("p22_block", 6, 0, reach=(1,)), J("p22_block", 5, 1), J("p22_block", 4, 62)],
     "all pairs of nonempty sets of up to 6 positions; all edit sequences turning one into another, and moves of all subsets at once")
prop("P19", "p19",
     [J("p19_two", 2, 2, 1, 0, reach=(1, 2)), J("p19_two", 3, 1, 1, 0), J("p19_two", 3, 2, 0, 0), J("p19_two", 1, 2, 1, 1)] + [J("p19_attr", 3, 2, 0, k, reach=(1, 2)) for k in range(5)] + [J("p19_attr", 1, 2, 0, k) for k in range(5)],
     "pairs of trees of 1..4 terminals and up to 2 nonterminals")
prop("P20", "p19",
     [J("p20_parse", 2, 2, 1, reach=(1,)), J("p20_parse", 3, 1, 1), J("p20_ops", 3, 1, reach=(1, 2)), J("p20_ops", 2, 2)],
     "feature texts of up to 3 parts, keys and values of up to 2 printable ASCII characters; up to 3 map operations")
prop("P09", "p09",
     [J("p09_code", 3, 4, 1, 0, reach=(1,)), J("p09_code", 4, 4, 0, 0), J("p09_code", 5, 3, 0, 0), J("p09_code", 1, 3, 0, 0), J("p09_code", 2, 4, 0, 0), J("p09_code", 4, 3, 0, 1, reach=(2,)),
      J("p09_spine", 13, 0, 1, reach=(1,)), J("p09_spine", 13, 1, 0), J("p09_spine", 13, 2, 1), J("p09_spine", 7, 3, 1), J("p09_spine", 14, 4, 0), J("p09_spine", 13, 4, 1)],
     "projective trees of 1..5 terminals and up to 4 nonterminals, spines of up to 14 words (counts up to 13, offsets down to -12)")
prop("P10", "p09",
     [J("p10_rel", 3, 0, 0, reach=(1, 2)), J("p10_rel", 2, 1, 0), J("p10_rel", 4, 0, 1), J("p10_abs", 2, 1, reach=(1,)), J("p10_abs", 3, 0), J("p10_text", reach=(1, 2, 3))],
     "sequences of up to 4 labels with one-digit counts and offsets, of 2 labels with counts 1..29 and offsets -99..99; single labels of up to 2 printable ASCII characters, possibly followed by a two-byte one, with counts up to 999")
prop("P11", "p09",
     [J("p11_decode", 4, 3, 0, reach=(1, 3, 4)), J("p11_decode", 3, 3, 1), J("p11_decode", 3, 5, 0), J("p11_decode", 5, 2, 0), J("p11_decode", 1, 2, 1), J("p11_repair", 4, reach=(1,)), J("p11_dummy", 3, 3, 1), J("p11_dummy", 4, 3, 0)],
     "sequences of 1..5 labels with counts up to 5")
prop("P13", "p13",
     [J("p13_tokens", 2, 2, 1, reach=(1,)), J("p13_tokens", 3, 1, 1), J("p13_tokens", 3, 2, 0), J("p13_tokens", 1, 1, 0),
      J("p13_code", 3, 3, 0, 0, reach=(1,)), J("p13_code", 3, 2, 1, 1), J("p13_code", 4, 3, 0, 0), J("p13_code", 4, 2, 0, 1), J("p13_code", 1, 3, 0, 1), J("p13_code", 2, 3, 0, 1), J("p13_code", 3, 2, 0, 0, 1), J("p13_code", 1, 2, 0, 1, 1), J("p13_code", 2, 2, 0, 1, 1),
      J("p13_bad", 2, 3, reach=(1, 2, 3)), J("p13_bad", 1, 4), J("p13_bad", 3, 2), J("p13_bad", 0, 0)],
     "trees of 1..4 terminals and up to 3 nonterminals; sentences of 0..3 tokens with labels of up to 4 printable ASCII bytes")
prop("P04", "p04",
     [J("p04_trip", 2, 2, f, 1, 2, 0, reach=(1,)) for f in range(3)] + [J("p04_trip", 2, 2, f, 0, 2, 1) for f in range(3)] + [J("p04_trip", 1, 2, f, 0, 3, 0) for f in range(3)] +
     [J("p04_trip", 3, 2, f, 0, 2, 0) for f in range(3)] + [J("p04_trip", 4, 3, f, 1, 1, 0) for f in range(3)] + [J("p04_trip", 5, 4, f, 0, 1, 0) for f in range(3)] +
     [J("p04_trip", 3, 3, f, 2, 1, 0, reach=(1, 2)) for f in range(3)] + [J("p04_trip", 3, 3, f, 1, 1, 1) for f in range(3)] + [J("p04_trip", 4, 2, 2, 2, 1, 1), J("p04_trip", 1, 0, 2, 0, 3, 0)],
     "trees of 1..5 terminals and up to 4 nonterminals; one field of up to 3 arbitrary printable ASCII characters (or with a two-byte UTF-8 character, or a special token) per tree, streams of 3 trees")
prop("P05", "p04",
     [J("p05_text", n, f, reach=(2,)) for n in (0, 1, 2, 3, 4) for f in (2,)] + [J("p05_text", n, f, reach=(1, 2)) for n in (5, 6) for f in range(3)] + [J("p05_text", 7, 0, reach=(1, 2)), J("p05_text", 7, 1)] +
     [J("p05_edit", i, i % 3, 1, reach=(1, 2)) for i in range(8)] + [J("p05_edit", i, (i + 1) % 3, 1, reach=(1, 2)) for i in range(8)] +
     [J("p05_edit", 1, 2, 2), J("p05_edit", 2, 1, 2), J("p05_edit", 0, 2, 2), J("p05_edit", 6, 2, 2), J("p05_edit", 4, 1, 2)] +
     [J("p05_utf8", 8, f, n, reach=(1, 2)) for f in range(3) for n in (2, 3)],
     "all strings of up to 7 characters over ( ) space newline return tab - : = a; eight complete trees of up to 29 bytes with one or two ASCII bytes replaced, inserted or deleted, or a character of two or three bytes inserted")
prop("P06", "p04",
     [J("p06_lines", n, m, reach=(1, 2) if m == 0 else (1, 2, 3)) for n in (1, 2, 3) for m in (0, 1)] +
     [J("p06_split", 0, 0, 0, reach=(1,)), J("p06_split", 1, 2, 0), J("p06_split", 3, 1, 0), J("p06_split", 2, 1, 2), J("p06_split", 2, 2, 5)] + [J("p06_cut", m, f, reach=(2,) if f == 0 else (1,)) for m in (0, 1) for f in (0, 1)],
     "streams of up to 3 lines (trees, comments, six kinds of malformed lines) with and without a final line break, LF or CRLF; trees of up to 13 tokens broken into lines at every subset of the gaps; streams of two trees cut or failing at every byte")
prop("P07", "p07",
     [J("p07_trip", 2, 2, 2, 0, 0, reach=(1,)), J("p07_trip", 1, 4, 0, 0, 1), J("p07_trip", 3, 3, 1, 0, 0, reach=(1, 2)), J("p07_trip", 3, 2, 0, 0, 1), J("p07_trip", 2, 2, 1, 0, 2), J("p07_trip", 4, 2, 1, 0, 0), J("p07_trip", 5, 3, 0, 0, 0),
      J("p07_trip", 2, 2, 1, 1, 0), J("p07_trip", 2, 2, 0, 1, 1), J("p07_trip", 2, 2, 0, 2, 0), J("p07_trip", 1, 2, 0, 2, 1), J("p07_trip", 2, 2, 0, 3, 0), J("p07_trip", 2, 2, 0, 4, 1),
      J("p07_stream", 2, reach=(1,)), J("p07_stream", 3), J("p07_bad", 2, 2, reach=(1,))],
     "trees of 1..5 terminals and up to 4 nonterminals, up to 2 secondary edges; one field of two arbitrary printable ASCII characters, of up to 40 bytes, with two-byte characters, or a special token per tree; streams of up to 3 trees")
prop("P08", "p07",
     [J("p08_table", *a) for a in ((1, 0, 1), (0, 1, 1), (2, 0, 1), (1, 1, 0), (1, 2, 0), (2, 2, 0), (3, 2, 1), (2, 3, 1), (4, 2, 1), (2, 2, 3), (3, 1, 3))] + [J("p08_table", 2, 2, 2, reach=(1, 2))] +
     [J("p08_edit", i, 1, 0, 0, reach=(1, 2, 3)) for i in range(6)] + [J("p08_edit", 0, 2, 0, 0)] +
     [J("p08_fields", 0, n, 0) for n in range(9)] + [J("p08_fields", 1, n, 0) for n in range(8)] + [J("p08_fields", 1, 8, 1), J("p08_fields", 0, 9, 1)],
     "all parent tables of up to 4 words and 3 nodes; lines of 0..9 fields, one of them arbitrary; six complete sentences with one or two ASCII bytes replaced, inserted or deleted")
prop("P24", "p07",
     [J("p24_seq", 1, 0, reach=(1, 2)), J("p24_seq", 2, 0, reach=(1, 2, 3)), J("p24_seq", 2, 1), J("p24_seq", 3, 0), J("p24_cut", 0, reach=(2,)), J("p24_cut", 1, reach=(1,))],
     "streams of up to 3 pieces, each one of two well-formed sentences, nine malformed ones or an unfinished one, with five kinds of text in between; streams of two sentences cut or failing at every byte")
prop("P25", "p25",
     [J("p25_write", f, 1, 1, 2, reach=(1, 2)) for f in range(5)] + [J("p25_write", f, 2, 0, 1, reach=(1, 2)) for f in (0, 1, 2, 4)] +
     [J("p25_write", 3, 2, 0, 1, reach=(1, 2))] + [J("p25_read", f, 1, reach=(1,)) for f in range(3)] + [J("p25_read", f, 2) for f in (1, 2)],
     "one or two trees of up to 3 words in every output format, up to two events (end of a piece, interruption, lasting or passing failure, nothing accepted) at every byte; "
     "input texts of two trees (and a malformed line) delivered in up to three pieces with or without interruptions, cut at every byte",
     assumptions=["the output and the input are a Write and a BufRead object of the harness"])
prop("P23", "p23",
     [J("p23_run", 3, 2, 6, 7, 0, 0, 0, reach=(1, 2)), J("p23_run", 1, 2, 6, 7, 0, 0, 0), J("p23_run", 3, 2, 1, 0, 2, 0, 0, reach=(1,)), J("p23_run", 3, 2, 1, 6, 2, 0, 0), J("p23_run", 3, 2, 1, 2, 2, 0, 0),
      J("p23_run", 3, 1, 6, 7, 1, 0, 0), J("p23_run", 2, 1, 1, 0, 9, 0, 0), J("p23_run", 2, 2, 1, 0, 3, 0, 0), J("p23_run", 1, 2, 1, 0, 2, 0, 0), J("p23_run", 2, 1, 5, 2, 9, 0, 0),
      J("p23_run", 2, 1, 6, 5, 1, 1, 0, reach=(2,))] + [J("p23_run", 2, 1, 6, 5, 1, k, 8, reach=(2,)) for k in (2, 3, 4)] +
     [J("p23_run", 1, 1, 6, 7, 0, 7, 0, reach=(1, 3)), J("p23_run", 2, 1, 1, 1, 1, 7, 0, reach=(1, 3)), J("p23_run", 1, 1, 6, 7, 0, 8, 0, reach=(1,))] +
     [J("p23_run", 1, 1, a, b, 0, 5, 0, 50, reach=(1, 3)) for a, b in ((2, 2), (1, 1))] + [J("p23_run", 1, 1, a, 3, 0, 6, 0, 90, reach=(1, 3)) for a in (0, 1, 4)],
     "files of two trees, the first of 1..3 terminals and up to 2 nonterminals with symbolic words, tags and edge labels; all pairs of formats; "
     "all option subsets with 2 terminals, pairs of options with 3; fixed option arguments (three prefixes) and label files of two labels, written in two ways, or empty; broken input of four kinds, no input, one file that can't be opened; one short transfer, interruption or failure at every byte of the first 50 of the output or 90 of the input",
     assumptions=["the program's file operations (open64, read, write, close, fstat64, lseek64, fcntl, isatty, exit) are replaced by in-memory files; its arguments reach it through std's start-up hook; clap, std::io and stdinout are executed symbolically"])

big("P02", [J("p02_op", op, s, 4, 0) for op in (1, 2, 3, 4) for s in BIG] + [J("p02_op", op, s, 4, 0) for op in (0, 5, 6) for s in (216, 416, 516, 616)] + [J("p02_op", 7, s, 3, 1) for s in (212, 412)])
big("P01", [J("p01_seq", s, 4, 1, op, 0) for op in (1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13) for s in (240, 440, 540)] + [J("p01_seq", s, 4, 1, op, 0) for op in (0, 5, 6) for s in (416, 516)] +
    [J("p01_seq", s, 3, 2, op, 1) for op in (2, 3, 4, 7, 10, 11, 12) for s in (408, 507)])
big("P03", [J("p03_proj", s, k, 0, 1) for s, k in ((260, 0), (460, 3), (460, 7), (560, 0))] + [J("p03_proj", s, 4, 1, 1) for s in (440, 540)])
big("P12", [J("p12_chain", s, 9, 0, 9, 0) for s in BIG] + [J("p12_chain", 616, 20, 1, 20, 1)])
big("P14", [J("p14_filter", s, 5, o) for s in BIG for o in (0, 1)])
big("P15", [J("p15_insert", s, 5, o) for s in BIG for o in (0, 1)])
big("P16", [J("p16_reattach", s, 5, o) for s in (240, 340, 440, 540, 640) for o in (0, 1)])
big("P17", [J("p17_project", s, 5, o, k) for s in (240, 340, 440, 540, 640) for o in (0, 1) for k in range(5)])
big("P18", [J("p18_pos", s, 3) for s in (212, 412, 512)])
big("P21", [J("p21_query", s, 5, 0, o) for s in (140, 240, 440, 540, 640) for o in (0, 1)] + [J("p21_query", s, 3, 1, 1) for s in (208, 410, 508)])
PROPS["P22"]["bounds"] += "; the same with up to 59 words in front"
big("P22", [J("p22_span", 4, 30, k) for k in range(4)] + [J("p22_span", 3, 59, k) for k in range(4)] + [J("p22_edit", 4, 30), J("p22_edit", 3, 59)])
big("P19", [J("p19_two", s, 3, 0, 2) for s in (210, 410, 510)] + [J("p19_attr", s, 3, 0, k) for s in (210, 412, 510) for k in (0, 1, 3, 4)])
big("P09", [J("p09_code", s, 9, o, 0) for s in (130, 240, 340, 530, 630) for o in (0, 1)] + [J("p09_code", 430, 4, 0, 1)])
big("P13", [J("p13_tokens", s, 4, 1) for s in (125, 225, 425)] + [J("p13_code", s, 9, 0, k) for s in (230, 330, 530, 630) for k in (0, 1)])
PROPS["P11"]["bounds"] += "; sequences of 12 labels with counts up to 1, 8 with counts up to 2, 3 with counts up to 10, 2 with counts up to 20"
big("P11", [J("p11_dummy", s, 3, 0) for s in (106, 408, 506)] + [J("p11_dummy", 604, 2, 0)] + [J("p11_decode", 12, 1, 0), J("p11_decode", 8, 2, 0), J("p11_decode", 2, 20, 0), J("p11_decode", 3, 10, 0), J("p11_repair", 5)])
big("P04", [J("p04_trip", s, 9, f, 0, 1, k) for s in (130, 240, 340, 530, 630) for f in range(3) for k in (0, 1)] + [J("p04_trip", 430, 4, 2, 2, 1, 0)])
big("P07", [J("p07_trip", s, 9, o, 0, 0) for s in (130, 240, 440, 530, 630) for o in (0, 1)] + [J("p07_trip", s, 3, 0, 0, 1) for s in (206, 407, 506)])

PROPS["P20"]["bounds"] += "; eleven keys of which one is symbolic; values with ':' and multi-byte characters"
big("P20", [J("p20_many", 11, reach=(1,)), J("p20_parse", 2, 4, 1), J("p20_parse", 1, 3, 5)])
PROPS["P06"]["bounds"] += "; streams of 12 lines of which one is arbitrary"
big("P06", [J("p06_lines", 12, m, 1) for m in (0, 1)])
PROPS["P24"]["bounds"] += "; streams of 12 sentences of which one is arbitrary"
big("P24", [J("p24_seq", 12, 1, 1)])
big("P07", [J("p07_stream", 12, 1)])
PROPS["P10"]["bounds"] += "; sequences of 8 labels with fixed offsets up to 300 and 6 with counts up to 65536"
big("P10", [J("p10_rel", 4, 0, 0), J("p10_rel", 8, 0, 1, 1), J("p10_abs", 4, 0), J("p10_abs", 6, 0, 1)])

# very large trees: shape * 1000 + words
FLAT, RIGHT, LEFT, INTER, BAL, CHAIN = 1300, 2130, 3130, 4150, 5150, 6020
big("P01", [J("p01_seq", s, 4, 1, op, 0) for op in (1, 2, 3, 4, 7, 8, 10, 11, 12, 13) for s in (FLAT, RIGHT, INTER)] + [J("p01_seq", 6020, 140, 1, op, 0) for op in (2, 3, 4, 8, 9)] + [J("p01_seq", 1200, 4, 1, op, 0) for op in (0, 5, 6)])
big("P02", [J("p02_op", op, s, 4, 0) for op in (1, 2, 3, 4) for s in (FLAT, RIGHT, INTER)] + [J("p02_op", op, s, 4, 0) for op in (0, 5, 6) for s in (1140, 4140)] + [J("p02_op", 5, 2080, 4, 0)])
big("P03", [J("p03_proj", s, 4, 1, 1) for s in (FLAT, RIGHT, INTER)] + [J("p03_proj", 5140, 4, 1, 1)])
big("P12", [J("p12_chain", s, 9, 0, 9, 0) for s in (FLAT, RIGHT, BAL)] + [J("p12_chain", CHAIN, 140, o, 140, o) for o in (0, 1)] + [J("p12_chain", CHAIN, 140, 0, 140, 0, 1)])
PROPS["P12"]["bounds"] += "; one node with an empty or longer label"
big("P12", [J("p12_chain", 3, 3, 0, 3, d, k) for d in (0, 1) for k in (1, 2)] + [J("p12_chain", 2, 4, 1, 4, 2, k) for k in (1, 2)])
big("P14", [J("p14_filter", s, 5, 0) for s in (FLAT, LEFT, INTER)] + [J("p14_filter", CHAIN, 140, 0)])
big("P15", [J("p15_insert", s, 5, 0) for s in (FLAT, RIGHT, INTER)])
big("P16", [J("p16_reattach", s, 5, 0) for s in (FLAT, 3070, INTER)] + [J("p16_reattach", 6020, 70, 0)])
big("P17", [J("p17_project", s, n, 0, k) for s, n in ((FLAT, 5), (LEFT, 5), (INTER, 5), (CHAIN, 140)) for k in range(5)])
big("P18", [J("p18_pos", s, 5) for s in (FLAT, RIGHT, INTER)])
big("P21", [J("p21_query", s, n, 0, 0) for s, n in ((FLAT, 5), (LEFT, 5), (INTER, 5), (CHAIN, 140))])
PROPS["P22"]["bounds"] += ", the smaller sets with up to 255"
big("P22", [J("p22_span", 3, n, k) for n in (62, 130) for k in range(4)] + [J("p22_span", 2, 255, k) for k in range(4)] + [J("p22_edit", 4, 62), J("p22_edit", 3, 130), J("p22_edit", 2, 255)])
big("P19", [J("p19_two", s, 3, 0, 1) for s in (FLAT, RIGHT, INTER)] + [J("p19_attr", s, 3, 0, k) for s in (1130, 2130, 4080) for k in range(5)])
big("P20", [J("p20_many", 80)])
big("P09", [J("p09_code", s, 9, 0, 0) for s in (FLAT, RIGHT, LEFT, BAL)] + [J("p09_code", CHAIN, 140, 0, 0), J("p09_code", 4140, 4, 0, 1)])
PROPS["P10"]["bounds"] += "; 300 labels of which one is arbitrary; up to 4 offsets and 6 counts among the largest and smallest representable numbers"
big("P10", [J("p10_rel", 300, 0, 1, 2), J("p10_rel", 4, 0, 1, 3), J("p10_rel", 2, 0, 0, 3), J("p10_abs", 5, 0, 1, 1)])
PROPS["P11"]["bounds"] += "; up to 300 labels of which one is arbitrary, counts up to 40"
big("P11", [J("p11_dummy", s, n, 0) for s, n in ((FLAT, 5), (RIGHT, 5), (CHAIN, 140))] + [J("p11_decode", 80, 8, 0, 1), J("p11_decode", 300, 1, 0, 1)])
big("P13", [J("p13_tokens", s, 4, 1) for s in (1140, 4140)] + [J("p13_code", s, n, 0, k) for s, n in ((FLAT, 5), (RIGHT, 5), (LEFT, 5), (BAL, 5), (CHAIN, 140)) for k in (0, 1)])
big("P04", [J("p04_trip", s, n, f, 0, 1, 0) for s, n in ((FLAT, 5), (RIGHT, 5), (LEFT, 5), (BAL, 5), (CHAIN, 140)) for f in range(3)] + [J("p04_trip", s, n, f, 0, 1, 1) for f, (s, n) in enumerate(((FLAT, 5), (LEFT, 5), (CHAIN, 140)))])
big("P07", [J("p07_trip", s, n, 0, 0, 0) for s, n in ((FLAT, 5), (RIGHT, 5), (INTER, 5), (CHAIN, 140))] + [J("p07_trip", 3130, 5, 0, 0, 1), J("p07_stream", 40, 1)])
PROPS["P06"]["bounds"] += "; streams of 70 lines of which one is arbitrary"
big("P06", [J("p06_lines", 70, m, 1) for m in (0, 1)])
PROPS["P24"]["bounds"] += "; streams of 70 sentences of which one (at 10 places) is arbitrary"
big("P24", [J("p24_seq", 70, 1, 1)])

# words numbered as in large corpora, small trees with many inner nodes, records on arbitrary nodes
PROPS["P08"]["bounds"] += "; sentence and node numbers among 12 values up to the largest representable one"
big("P08", [J("p08_ids", reach=(1, 2))])
PROPS["P07"]["bounds"] += "; sentence numbers up to the largest representable one"
PROPS["P12"]["bounds"] += "; recorded chains of up to 3 labels on any two nodes of trees of up to 3 terminals and 2 nonterminals; trees collapsed again after another unary node was inserted"
big("P12", [J("p12_restore", 3, 2, 1, 0, 2, reach=(1, 2)), J("p12_restore", 2, 2, 1, 1, 3), J("p12_restore", 1, 2, 1, 1, 2), J("p12_restore", 408, 3, 0, 0, 2), J("p12_restore", 507, 3, 0, 0, 2)] +
    [J("p12_again", 3, 3, 1, 0, reach=(1, 2)), J("p12_again", 1, 3, 0, 1), J("p12_again", 2, 3, 1, 1), J("p12_again", 540, 4, 0, 0), J("p12_again", 4140, 4, 0, 0)])
big("P14", [J("p14_filter", 1, 4, 1), J("p14_filter", 5, 2, 0)])
big("P15", [J("p15_insert", 2, 3, 1)])
big("P16", [J("p16_reattach", 1, 4, 0), J("p16_reattach", 5, 2, 0)])
big("P01", [J("p01_seq", 1, 3, 2, op, 0) for op in range(14)])
big("P02", [J("p02_op", op, 2, 3, 1) for op in OPS])
big("P11", [J("p11_dummy", 1, 3, 1), J("p11_dummy", 2, 4, 1)])
big("P17", [J("p17_project", 2, 4, 1, k) for k in range(5)])
PROPS["P13"]["bounds"] += "; one attribute of one word of several characters, with multi-byte ones, or of up to 70 bytes"
big("P13", [J("p13_tokens", 1, 1, 0, 1), J("p13_tokens", 2, 1, 1, 1), J("p13_code", 2, 1, 0, 1, 2), J("p13_code", 3, 2, 0, 0, 2), J("p13_code", 1, 2, 0, 1, 2)])

# more than 256 levels
DEEP = "; trees of more than 256 levels (290 words below right-branching nodes, chains of 270 unary nodes)"
for p, jobs in {
    "P01": [J("p01_seq", 2290, 4, 1, op, 0) for op in (3, 8)], "P04": [J("p04_trip", 2290, 5, f, 0, 1, 0) for f in range(3)],
    "P07": [J("p07_trip", 2290, 5, 0, 0, 0)], "P09": [J("p09_code", 2290, 5, 0, 0), J("p09_code", 6020, 270, 0, 0)],
    "P12": [J("p12_chain", 6020, 270, 0, 270, 0)], "P13": [J("p13_code", 2290, 5, 0, k) for k in (0, 1)],
    "P14": [J("p14_filter", 6020, 270, 0)], "P17": [J("p17_project", 6020, 270, 0, k) for k in range(5)],
    "P21": [J("p21_query", 6020, 270, 0, 0)],
}.items():
    PROPS[p]["bounds"] += DEEP
    big(p, jobs)

prop("P26", "p19",
     [J("p26_set", 1, 1, 3, 0, 1, reach=(1,)), J("p26_set", 2, 1, 2, 1, 2, reach=(1,)), J("p26_set", 3, 2, 1, 1, 2), J("p26_set", 2, 2, 2, 0, 1)],
     "trees of 1..3 terminals and up to 2 nonterminals, up to 3 changes, texts of up to 2 printable ASCII characters")
big("P26", [J("p26_set", s, 4, 1, 0, 1) for s in (212, 412, 510)] + [J("p26_set", s, 4, 1, 0, 1) for s in (FLAT, RIGHT, INTER)])


def deep(pid, *jobs):
    """further jobs of the thorough tier, after the quick ones"""
    for j in jobs:
        j["icount"] = 2_000_000_000
        j["time"] = 1800.0
    P = PROPS[pid]
    P["thorough"] = (P["thorough"] or []) + list(jobs)


F3 = range(3)
deep("P01", *[J("p01_seq", 4, 3, 1, op, 0) for op in range(14)], *[J("p01_seq", 3, 3, 2, op, 0) for op in range(14)], *[J("p01_seq", 2, 2, 3, op, 0) for op in range(14)])
deep("P02", *[J("p02_op", op, 5, 3, 0) for op in OPS], *[J("p02_op", op, 4, 3, 1) for op in OPS])
deep("P03", J("p03_proj", 4, 4, 1, 1), J("p03_proj", 6, 4, 0, 1), J("p03_proj", 7, 4, 0, 1), J("p03_proj", 8, 3, 0, 0))
deep("P04", *[J("p04_trip", 3, 3, f, 1, 2, 0) for f in F3], *[J("p04_trip", 2, 3, f, 1, 3, 0) for f in F3], *[J("p04_trip", 6, 4, f, 0, 1, 0) for f in F3])
deep("P05", *[J("p05_text", 7, f) for f in F3], J("p05_text", 8, 0), *[J("p05_edit", i, f, 2) for i in range(8) for f in F3])
deep("P06", *[J("p06_lines", 4, m) for m in (0, 1)], J("p06_split", 4, 2, 0), J("p06_split", 3, 2, 2))
deep("P07", J("p07_trip", 3, 3, 2, 0, 0), J("p07_trip", 4, 3, 1, 0, 1), J("p07_trip", 2, 3, 2, 1, 0), J("p07_stream", 4))
deep("P08", J("p08_table", 3, 3, 1), J("p08_table", 4, 3, 1), J("p08_table", 5, 2, 0), *[J("p08_edit", i, 2, 0, 0) for i in range(6)], J("p08_fields", 1, 8, 0))
deep("P09", J("p09_code", 4, 4, 1, 0), J("p09_code", 5, 4, 0, 1), J("p09_code", 6, 4, 0, 0), J("p09_code", 7, 3, 0, 0))
deep("P10", J("p10_rel", 5, 0, 1), J("p10_rel", 3, 1, 0), J("p10_abs", 3, 1), J("p10_abs", 5, 0))
deep("P11", J("p11_decode", 5, 3, 0), J("p11_decode", 4, 4, 1), J("p11_decode", 6, 2, 0), J("p11_decode", 150, 12, 0, 1), J("p11_repair", 6), J("p11_dummy", 4, 4, 1))
deep("P12", J("p12_chain", 4, 4, 1, 4, 0), J("p12_chain", 3, 5, 1, 5, 3), J("p12_chain", 5, 4, 0, 4, 0), J("p12_restore", 3, 3, 1, 1, 3), J("p12_again", 4, 4, 1, 0))
deep("P13", J("p13_tokens", 3, 2, 1), J("p13_tokens", 4, 2, 0), J("p13_code", 4, 3, 1, 0), J("p13_code", 4, 4, 0, 1), J("p13_code", 5, 3, 0, 0), J("p13_bad", 2, 4), J("p13_bad", 3, 3))
deep("P14", J("p14_filter", 4, 4, 1), J("p14_filter", 5, 4, 0))
deep("P15", J("p15_insert", 4, 3, 1), J("p15_insert", 5, 3, 0))
deep("P16", J("p16_reattach", 4, 3, 1), J("p16_reattach", 5, 4, 0))
deep("P17", *[J("p17_project", 4, 3, 1, k) for k in range(5)], *[J("p17_project", 5, 3, 0, k) for k in range(5)])
deep("P18", J("p18_pos", 4, 3), J("p18_pos", 5, 2), J("p18_pos", 6, 2))
deep("P19", J("p19_two", 3, 2, 1, 0), J("p19_two", 2, 3, 1, 0), J("p19_two", 4, 2, 0, 0), *[J("p19_attr", 4, 3, 0, k) for k in range(5)])
deep("P20", J("p20_parse", 3, 2, 1), J("p20_parse", 5, 1, 1), J("p20_ops", 4, 1), J("p20_ops", 3, 2))
deep("P21", J("p21_query", 4, 3, 1, 0), J("p21_query", 3, 3, 2, 1), J("p21_query", 5, 3, 0, 1))
deep("P22", J("p22_span", 7), J("p22_edit", 7), J("p22_span", 8))
deep("P23", J("p23_run", 3, 2, 6, 7, 9, 0, 0), J("p23_run", 2, 2, 1, 0, 9, 0, 0), J("p23_run", 2, 2, 6, 7, 2, 0, 0), J("p23_run", 2, 2, 1, 2, 9, 0, 0),
     *[J("p23_run", 1, 1, a, b, 0, 5, 0, 200) for a, b in ((2, 2), (1, 1), (6, 7))], *[J("p23_run", 1, 1, a, 3, 0, 6, 0, 300) for a in (0, 1, 4)])
deep("P24", J("p24_seq", 3, 1), J("p24_seq", 4, 0))
deep("P25", *[J("p25_write", f, 2, 1, 2) for f in range(5)], *[J("p25_read", f, 3) for f in F3])
deep("P26", J("p26_set", 2, 2, 3, 0, 1), J("p26_set", 3, 2, 2, 1, 1), J("p26_set", 1, 1, 4, 0, 1))
