from driver import Job
ASSUMPTIONS = ["the file on disk does not change between the questions; files and directories behave as in model/vstubs.c, libc as in model/vlibc.c, malloc does not fail; licence expressions match nowhere (P24 has them)"]
EXPLANATION = "every sequence of questions (contents, size, language, parsed languages, counts, licences, entities, lines, diff from and to the same contents) is asked of a SourceFile with symbolic contents; each answer is asserted to be that of a new SourceFile"
COVERS = ["contents", "languages"]
OPS = "contents size language parsed counts licences entities lines diff diffed".split()
WHERE = ["on disk", "at a disk path", "in memory"]


def bounds(tier):
    return "contents of up to %s characters over a letter, newline, / * and #, in files of C, Ruby and an ambiguous extension; all sequences of %s questions" % (("3", "2 or 3") if tier == "quick" else ("4", "3 or 4"))


def jobs(tree, tier):
    out = []
    for n, k in (((0, 3), (1, 3), (3, 2)) if tier == "quick" else ((0, 4), (1, 4), (2, 3), (3, 3), (4, 2))):
        for w in range(3):
            for o in range(10):
                out.append(Job("access.c", "h_access", (n, w, o, k), "%d characters %s, %d questions, first %s" % (n, WHERE[w], k, OPS[o]), 700, cost=n + k, merge="parse_,@parser.c", prio="ts,p"))
    return out
