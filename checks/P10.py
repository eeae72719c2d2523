import pjobs
ASSUMPTIONS = pjobs.ASSUME
EXPLANATION = ("the same symbolic file is parsed once through the public callback and once through the SourceFile accessors; the lists of locs and parsed languages, and the texts kept for diffs and licences, are asserted to agree with the lines reported")
COVERS = ["lines", "several lines", "several languages"]
W = {0: "totals and texts", 1: "totals"}


def bounds(tier):
    return "every file of %s bytes other than NUL in every language of the parser table; the templates in lib/templates.py with every value of their holes, and a text of about 6 bytes for each of the 349 comment and string delimiters in lib/langspec.py with three arbitrary bytes inside and behind" % ("0, 1 and 3" if tier == "quick" else "0 to 4")


def jobs(tree, tier):
    out = []
    for n in ((0, 1, 3) if tier == "quick" else range(5)):
        out += pjobs.langs_jobs(tree, "totals.c", "h_totals", [0], n, W)
    return out + pjobs.tmpl_jobs(tree, "totals.c", "h_totals", [0], W, con=True)
