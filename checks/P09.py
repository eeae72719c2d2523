import pjobs
ASSUMPTIONS = pjobs.ASSUME
EXPLANATION = "one symbolic text is counted as it is and with a newline added; every report of the second is asserted to be that of the first, in language, kind and place"
COVERS = ["second report"]
W = {0: "last newline"}


def bounds(tier):
    return "every text of %s bytes (the last not white space) in every language; the templates up to the end of any of their lines" % ("1, 2, 3 and 4" if tier == "quick" else "1 to 5")


def jobs(tree, tier):
    out = []
    for n in ((2, 4) if tier == "quick" else range(1, 6)):
        out += pjobs.langs_jobs(tree, "lastline.c", "h_lastline", [0], n, W)
    return out + pjobs.tmpl_jobs(tree, "lastline.c", "h_lastline", [0], W, con=True)
