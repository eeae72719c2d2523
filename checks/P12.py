import tables
from driver import Job
ASSUMPTIONS = ["lib/tables.json holds the documented tables; keys that only the current source has are taken from it", "libc behaves as in model/vlibc.c, malloc does not fail", "libmagic is the environment (model/vstubs.c)"]
EXPLANATION = ("ohcount_detect_language and ohcount_is_binary_filename are executed on symbolic file names and symbolic Emacs mode lines; the answer is asserted against a reference that looks the name up in the documented tables "
               "in the documented order: extension, lower-case extension, mode line, file name, libmagic")
COVERS = ["language known", "no language", "content test", "Emacs mode", "binary name"]
PRE = ["", "f.", "Dir.c/", "Make", "a.b.", "C:\\x."]


def bounds(tier):
    return ("file names of 0 to 2 arbitrary bytes after each of %d prefixes; every extension, file name, language name of the tables with any one byte replaced by any other, with any letters in the other case, one byte longer, or shorter; "
            "mode lines with 0 to %d arbitrary bytes in 8 frames, and with the same variations of language names and extensions; every combination of 15 file names, 10 contents and 6 answers of libmagic" % (len(PRE), 1 if tier == "quick" else 2))


def jobs(tree, tier):
    tables.header(tree)
    out = []
    for p in range(len(PRE)):
        for n in (0, 1, 2):
            out.append(Job("detect.c", "h_name", (p, n), "file name %r and %d bytes" % (PRE[p], n), 700, cost=3 * n))
    for s in range(8):
        for k in (-1, -2, -3):
            for p in ((1,) if tier == "quick" else (1, 4, 5)):
                out.append(Job("detect.c", "h_name", (p, k, 0, s), "extensions, variation %d, slice %d" % (-k, s), 700, cost=9))
            for p in (0, 2):
                out.append(Job("detect.c", "h_name", (p, k, 1, s), "file names, variation %d, slice %d" % (-k, s), 700, cost=5))
            for f in ((1, 3) if tier == "quick" else range(8)):
                for t in (0, 2):
                    out.append(Job("detect.c", "h_mode", (f, k, t, s), "mode line %d, %s, variation %d, slice %d" % (f, "languages" if t else "extensions", -k, s), 700, cost=9))
    for f in range(8):
        for n in range(2 if tier == "quick" else 3):
            out.append(Job("detect.c", "h_mode", (f, n), "mode line %d of %d bytes" % (f, n), 700, cost=3))
    out.append(Job("detect.c", "h_prec", (0,), "order of precedence", 700, cost=9))
    return out
