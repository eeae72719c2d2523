import pjobs
ASSUMPTIONS = pjobs.ASSUME
EXPLANATION = "one symbolic text is counted with LF and with other line ends; every report of the second is asserted to be that of the first, in language, kind and place"
COVERS = ["second report"]
W = {0: "CRLF", 1: "CR", 2: "FF"}


def bounds(tier):
    return "every text of %s bytes (newlines at every combination of places) in every language, with CRLF and CR%s; the templates with newlines at their fixed places" % (("4", "") if tier == "quick" else ("1 to 5", " and form feeds"))


def jobs(tree, tier):
    out, modes = [], [0, 1] if tier == "quick" else [0, 1, 2]
    for n in ((4,) if tier == "quick" else range(1, 6)):
        out += pjobs.langs_jobs(tree, "lineends.c", "h_lineends", modes, n, W)
    return out + pjobs.tmpl_jobs(tree, "lineends.c", "h_lineends", modes, W, con=True)
