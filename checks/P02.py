import pjobs
ASSUMPTIONS = pjobs.ASSUME
EXPLANATION = ("the public counting entry point is executed symbolically on files whose bytes are solver variables; the callback asserts that the reported spans are in order and disjoint, each ends right behind "
               "its line's newline (or at the end of the file), none holds two lines, and only white space without a newline is left between or behind them")
COVERS = ["line reported"]
M = [1, 2, 3, 4]


def bounds(tier):
    return ("every file of %s bytes in every language of the parser table; plus the templates of lib/templates.py with every value of their holes, and a text of about 6 bytes for each of the 349 comment and string delimiters in lib/langspec.py with three arbitrary bytes inside and behind; longer free content is outside" % ("4" if tier == "quick" else "1 to 5"))


def jobs(tree, tier):
    out = []
    for n in ((4,) if tier == "quick" else range(1, 6)):
        out += pjobs.langs_jobs(tree, "parse_count.c", "h_count", M, n, pjobs.COUNT)
    return out + pjobs.tmpl_jobs(tree, "parse_count.c", "h_count", [8] if tier == "quick" else M, pjobs.COUNT, con=True)
