import pjobs
ASSUMPTIONS = pjobs.ASSUME
EXPLANATION = ("file B with symbolic bytes is parsed through the public entry points, then one of thirteen files that end in the middle of a construct (open comments, strings, queued lines, embedded languages; or B itself) is counted or listed, then B is parsed again: "
               "every report of the second pass over B is asserted to be the report of the first, in number, place, language and kind")
COVERS = ["second report"]
W = {0: "line reports after other files", 1: "entities after other files"}


def bounds(tier):
    return "B: every file of %s bytes in every language of the parser table, the templates in lib/templates.py with every value of their holes; in between: the files listed in harness/history.c, one at a time; and four byte files in the same language and HTML after every beginning of every template (holes filled with x)" % ("2" if tier == "quick" else "0 to 3")


def jobs(tree, tier):
    out = []
    for n in ((2,) if tier == "quick" else range(4)):
        out += pjobs.langs_jobs(tree, "history.c", "h_history", [0, 1], n, W)
    out += pjobs.tmpl_jobs(tree, "history.c", "h_prefix", [0] if tier == "quick" else [0, 1], {0: "line reports after any beginning", 1: "entities after any beginning"})
    return out + pjobs.tmpl_jobs(tree, "history.c", "h_history", [0, 1], W, only=(lambda l, t, ex: bool(ex)) if tier == "quick" else None)
