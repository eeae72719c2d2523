import pjobs
from driver import Job
ASSUMPTIONS = pjobs.ASSUME[:]
EXPLANATION = ("two symbolic files are parsed and diffed by the real code; every count of every language's delta is asserted against the longest common subsequence of the lines the parser reports for the same files, and the net change against the difference of their totals")
COVERS = ["code added and removed", "two languages"]
K = ["c: a / newline space", "shell: a # newline tab", "c: a / newline CR"]


def bounds(tier):
    return ("pairs of files of together %d bytes at most over the alphabets %s, or unreadable files; three pairs of HTML documents with style and script parts with every value (a, b, newline) of their holes" % (6 if tier == "quick" else 8, "; ".join(K)))


def jobs(tree, tier):
    t, out = 6 if tier == "quick" else 8, []
    for k in range(3):
        for n in range(-1, t + 1):
            for m in range(-1, t + 1 - max(n, 0)):
                out.append(Job("sfdiff.c", "h_sfdiff", (n, m, k), "from %d bytes to %d bytes, %s" % (n, m, K[k]), 800, pjobs.MERGE, cost=n + m))
    return out + [Job("sfdiff.c", "h_sfdiff", (0, 0, k), "HTML documents %d" % (k - 2), 800, pjobs.MERGE, cost=9) for k in (3, 4, 5)]
