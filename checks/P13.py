import tables
from driver import Job
ASSUMPTIONS = ["the rules are those written next to the content tests; what the regular expressions of .pl and .pp find is arbitrary, libmagic is the environment", "libc behaves as in model/vlibc.c, malloc does not fail"]
EXPLANATION = ("ohcount_detect_language is executed on files with an ambiguous extension whose texts are made of the words of the extension's rule in every order, with symbolic separators, and of arbitrary bytes, and, where the rule looks at them, "
               "sets of neighbouring file names; the answer is asserted against an independent statement of the rule")
NAMES = "aspx asx b bas cs dat def mod fs h inc pl pp pro r rs st f m".split()
COVERS = [n for n in NAMES if n not in ("asx",)] + ["no language"]
FILES = ("b", "bas", "h", "m")


def bounds(tier):
    return "%d ambiguous extensions; texts of up to %d of the 8 to 40 words of each extension's vocabulary, each followed by one of 2 to 4 separators; for %s also with 4 sets of file names and with any neighbour of up to 5 characters out of '.fmrxvbapshc+C'; and of 2 or 3 arbitrary bytes but NUL, alone and after any one word (not .f and .m)" % (len(NAMES), 2 if tier == "quick" else 3, ", ".join("." + n for n in FILES))


def jobs(tree, tier):
    tables.header(tree)
    out = []
    for f, n in enumerate(NAMES):
        for k in (0, 1, 2):
            out.append(Job("disamb.c", "h_disamb", (f, k), ".%s, %d words" % (n, k), 700, cost=k * k))
            if n in FILES:
                out.append(Job("disamb.c", "h_disamb", (f, k, 1), ".%s, %d words, file names" % (n, k), 700, cost=2 * k * k))
        if n in FILES:
            out.append(Job("disamb.c", "h_disamb", (f, 1, 2), ".%s, any neighbour" % n, 700, cost=8))
        if n not in ("f", "m"):
            for k in (20, 21) if n == "h" else (20, 21, 30) if n in ("b", "bas") else (30, 31):
                if (n, k) != ("h", 21) or tier != "quick":
                    out.append(Job("disamb.c", "h_disamb", (f, k), ".%s, %d words and %d arbitrary bytes" % (n, k % 10, k // 10), 700, cost=8))
        if n in ("st", "cs") or tier != "quick":
            for s in range(1, 9):
                out.append(Job("disamb.c", "h_disamb", (f, 3, 0, s), ".%s, 3 words, slice %d" % (n, s), 700, cost=8))
    return out
