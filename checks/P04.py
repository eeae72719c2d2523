import os
import langspec, pjobs
from driver import Job
ASSUMPTIONS = pjobs.ASSUME + [
    "the comment and string syntax of each language is the one in lib/langspec.py; lines from an unclosed multi-line construct on, and overlapping delimiters such as (*) or /*/, are not judged"]
EXPLANATION = ("a reference lexer (harness/classify.c), driven by a table of each language's comment and string delimiters, computes for every position of a symbolic file whether its line holds code or a comment; "
               "the real parser is executed on the same symbolic file and each reported line kind is asserted to agree")
COVERS = ["line classified"]


def bounds(tier):
    return ("files of exactly %s characters over each language's own alphabet (its delimiters, backslash, a letter, space, newline; 5 to 12 characters, lib/langspec.py), %d languages; and %d longer texts that lead into the language's constructs, one behind or inside the other, with 4 or 5 holes for any character of that alphabet and any of ; ( = 1 tab CR, or, alone on a line within a construct, any byte but NUL; other long constructs are in templates of P08"
            % ("3 and 6" if tier == "quick" else "3 to 7", len(langspec.SPEC), sum(q or tier != "quick" for l in langspec.SPEC for q, _ in langspec.frames(l))))


def jobs(tree, tier):
    h, names = langspec.header(tree.languages)
    with open(os.path.join(tree.dir, "v_spec.h"), "w") as f:
        f.write(h)
    slow = "crystal dmd nsis perl ruby sql".split()
    out = []
    for n in ((3, 6) if tier == "quick" else (3, 4, 5, 6, 7)):
        for i, l in enumerate(names):
            out.append(Job("classify.c", "h_classify", (i, n, 1), "classification: %s, %d characters" % (l, n), 800, pjobs.MERGE, pjobs.PRIO, cost=n + 2 * (l in slow)))
    fr = [(l, q, f) for l in names for q, f in langspec.frames(l)]
    for i, (l, q, f) in enumerate(fr):
        if q or tier != "quick":
            out.append(Job("classify.c", "h_classify", (i, 0, 2), "classification: %s, %r" % (l, f), 800, pjobs.MERGE, pjobs.PRIO, cost=2))
    return out
