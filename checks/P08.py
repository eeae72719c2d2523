import pjobs
ASSUMPTIONS = pjobs.ASSUME
EXPLANATION = ("templates of documents with embedded languages and of long multi-line constructs, with symbolic holes, are counted by the real code executed symbolically; "
               "each physical line is asserted to be reported with the language and kind the template states")
COVERS = ["embedded line labelled"]


def bounds(tier):
    return "the templates with expectations in lib/templates.py (about 60 documents of 3 to 9 lines), every value of their holes (lower case letters)"


def jobs(tree, tier):
    return pjobs.tmpl_jobs(tree, "parse_count.c", "h_count", [6], pjobs.COUNT)
