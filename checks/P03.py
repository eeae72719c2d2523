import pjobs
ASSUMPTIONS = pjobs.ASSUME
EXPLANATION = "the public counting entry point is executed symbolically on files whose bytes are solver variables; the callback asserts for every reported line: blank if and only if the text of the line is white space"
COVERS = ["line reported"]


def bounds(tier):
    return ("every file of %s bytes in every language of the parser table; plus the templates of lib/templates.py with every value of their holes, and a text of about 6 bytes for each of the 349 comment and string delimiters in lib/langspec.py with three arbitrary bytes inside and behind; longer free content is outside" % ("4" if tier == "quick" else "1 to 5"))


def jobs(tree, tier):
    out = []
    for n in ((4,) if tier == "quick" else range(1, 6)):
        out += pjobs.langs_jobs(tree, "parse_count.c", "h_count", [5], n, pjobs.COUNT)
    return out + pjobs.tmpl_jobs(tree, "parse_count.c", "h_count", [5], pjobs.COUNT, con=True)
