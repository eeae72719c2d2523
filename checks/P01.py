import pjobs
ASSUMPTIONS = pjobs.ASSUME
EXPLANATION = ("the public counting entry point is executed symbolically on files whose bytes are solver variables, once per language; every load, store, free and branch is an obligation "
               "(in bounds, initialised, live), every reported span is asserted to lie inside the file, the heap is asserted to be empty at the end")
COVERS = ["line reported"]


def bounds(tier):
    return ("every file of %s bytes in every language of the parser table; plus the templates in lib/templates.py (embedded languages, multi-line constructs up to about 200 bytes) with every value of their holes, and a text of about 6 bytes for each of the 349 comment and string delimiters in lib/langspec.py with three arbitrary bytes inside and behind; longer free content is outside"
            % ("0 to 2 and 4" if tier == "quick" else "0 to 5"))


def jobs(tree, tier):
    out = []
    for n in ((0, 1, 2, 4) if tier == "quick" else range(6)):
        out += pjobs.langs_jobs(tree, "parse_count.c", "h_count", [0], n, pjobs.COUNT)
    return out + pjobs.tmpl_jobs(tree, "parse_count.c", "h_count", [0], pjobs.COUNT, con=True)
