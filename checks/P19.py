from driver import Job
ASSUMPTIONS = ["libc behaves as in model/vlibc.c and malloc does not fail", "for texts over 100000 bytes the external diff command is the environment: its output is arbitrary, what it is given is asserted",
               "the result does not depend on which letters the lines consist of beyond the texts stated in the bounds"]
EXPLANATION = ("ohcount_calc_diff is executed on symbolic texts; its counts are asserted against a longest-common-subsequence table computed over the lines of the same symbolic texts, memory against the heap state before; "
               "the path through temporary files and the diff command is executed with symbolic command output")
COVERS = ["some lines in common", "compared by command"]


def top(tier):
    return 8 if tier == "quick" else 10


def bounds(tier):
    t = top(tier)
    return ("all pairs of texts of together %d bytes at most over a, b and newline; all pairs of texts of together %d lines at most, each one of three letters, or one of three words of which two have the same hash (together %d lines); "
            "output of the diff command: every text of %d characters over <>- 1 and newline" % (t - 1, t, t - 1, 5 if tier == "quick" else 6))


def jobs(tree, tier):
    t, out = top(tier), []
    for n in range(t + 1):
        for m in range(t + 1 - n):
            if n + m < t:
                out.append(Job("diff.c", "h_diff", (n, m, 0), "texts of %d and %d bytes" % (n, m), 800, cost=n + m))
                out.append(Job("diff.c", "h_diff", (n, m, 2), "texts of %d and %d lines of one hash" % (n, m), 800, cost=n + m))
            out.append(Job("diff.c", "h_diff", (n, m, 1), "texts of %d and %d lines" % (n, m), 800, cost=n + m))
    k = 5 if tier == "quick" else 6
    return out + [Job("diff.c", "h_disk", (k, 0, w), "texts over 100000 bytes", 800, cost=9) for w in (0, 1)]
