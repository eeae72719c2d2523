from itertools import combinations
from driver import Job
ASSUMPTIONS = ["PCRE is the environment: each expression of the table matches nowhere or at an arbitrary place of the text, and an excluded term occurs in it or not; that the expressions recognise the licences' texts is left to the tests",
               "libc behaves as in model/vlibc.c, malloc does not fail"]
EXPLANATION = ("ohcount_detect_license is executed with a PCRE stand-in that lets chosen licences match at symbolic places of each language's comments and reports excluded terms nondeterministically; the set of licences listed is asserted to be those with a match that is not excluded "
               "and not inside another's, less the overridden ones, in any language; the text that is searched is asserted to be the comments without indent, punctuation and line ends")
COVERS = ["licence", "overridden", "exclusion", "text"]


def bounds(tier):
    return ("%s of the table's licences, matching at any places in a text of 5 positions; any 3 of 7 licences that have exclusions and overrides, in one language and any 2 of them in two; comments of up to %d symbolic characters over white space, line ends, a letter and an asterisk"
            % ("neighbouring pairs, and all pairs with the first and the last," if tier == "quick" else "all pairs", 4 if tier == "quick" else 6))


def jobs(tree, tier):
    out = [Job("licenses.c", "h_pair", (k,), "two licences, choice %d" % k, 700, cost=4) for k in (range(3) if tier == "quick" else range(3, 3 + 71))]
    for r, langs in ((3, 1), (2, 2)):
        for c in combinations(range(7), r):
            out.append(Job("licenses.c", "h_three", (sum(1 << k for k in c), langs), "special licences %s in %d languages" % (" ".join(map(str, c)), langs), 700, cost=5))
    for n in range(5 if tier == "quick" else 7):
        for p in (0, 1):
            out.append(Job("licenses.c", "h_text", (p, n), "text searched, %d characters, form %d" % (n, p), 700, cost=n))
    return out
