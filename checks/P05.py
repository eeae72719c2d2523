import pjobs
ASSUMPTIONS = pjobs.ASSUME
EXPLANATION = ("the public entity listing entry point is executed symbolically on files whose bytes are solver variables; every memory access is an obligation, every entity is asserted to lie in the file behind the one before, "
               "to have a name, to carry the caller's data and never to be a line count event")
COVERS = ["entity reported"]


def bounds(tier):
    return ("every file of %s bytes in every language of the parser table; plus the templates of lib/templates.py with every value of their holes, and a text of about 6 bytes for each of the 349 comment and string delimiters in lib/langspec.py with three arbitrary bytes inside and behind" % ("0, 2 and 5" if tier == "quick" else "0 to 6"))


def jobs(tree, tier):
    out = []
    for n in ((0, 2, 5) if tier == "quick" else range(7)):
        out += pjobs.langs_jobs(tree, "parse_entities.c", "h_entities", [0, 1], n, pjobs.ENT)
    return out + pjobs.tmpl_jobs(tree, "parse_entities.c", "h_entities", [0, 1], pjobs.ENT, con=True)
