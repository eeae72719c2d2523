import tables
from driver import Job
ASSUMPTIONS = ["libc behaves as in model/vlibc.c, malloc does not fail", "the file system, libmagic and PCRE are the environment (model/vstubs.c): libmagic's answer is one fixed text or arbitrary bytes before 'script', no regular expression matches"]
EXPLANATION = ("ohcount_detect_language is executed on a file of each ambiguous extension (and without one) whose bytes are symbolic, with and without neighbouring file names; every access is an obligation, "
               "the answer is asserted to be one of the languages the extension's content test chooses from (or of the language table), the heap to be empty and libmagic closed at the end")
COVERS = ["detected", "content test"]
NAMES = ["no extension", "zzz", "ascx", "asx", "b", "bas", "cs", "dat", "def", "f", "fs", "h", "in", "inc", "m", "mod", "pl", "pp", "pro", "r", "rs", "st"]


def bounds(tier):
    return "unreadable files and every content of 0 to %d bytes (0 to %d for .h, .in and .m) for each of %d kinds of file name; libmagic's answer: up to %d arbitrary bytes and 'script'; the 80-byte line buffers are exercised with longer lines by P13" % ((3, 2, len(NAMES), 2) if tier == "quick" else (5, 3, len(NAMES), 4))


def jobs(tree, tier):
    tables.header(tree)
    out = []
    for f, x in enumerate(NAMES):
        top = (2 if tier == "quick" else 3) if x in ("h", "m", "in") else (3 if tier == "quick" else 5)
        for n in range(-1, top + 1):
            for p in ((0, 0), (1, 0), (0, 2))[:3 if f > 1 else 2]:
                out.append(Job("detect.c", "h_safe", (f, n, p[0], p[1] if f < 2 or p[1] == 0 else 1), "%s, %s, variant %d%d" % (x, "%d bytes" % n if n >= 0 else "no contents", p[0], p[1]), 700, cost=n + 5 * (x in "hm")))
    for n in range(1, 3 if tier == "quick" else 5):
        out.append(Job("detect.c", "h_safe", (0, 1, 0, n), "libmagic's answer of %d bytes" % n, 700, cost=n))
    return out
