import tables
from driver import Job
ASSUMPTIONS = ["lib/tables.json holds the documented language names", "libc behaves as in model/vlibc.c, malloc does not fail"]
EXPLANATION = "libmagic's answer is a symbolic text that names an interpreter in one of ten forms; the language ohcount_detect_language answers is asserted to be the one of that name, case aside, or none"
COVERS = ["script of a known language"]


def bounds(tier):
    return "interpreter names of 0 to %d letters and digits, one-letter switches, in ten forms of libmagic's answer" % (3 if tier == "quick" else 4)


def jobs(tree, tier):
    tables.header(tree)
    return [Job("detect.c", "h_magic", (f, n), "form %d, interpreter of %d letters" % (f, n), 700, cost=n) for f in range(10) for n in range(4 if tier == "quick" else 5) if not (f == 9 and n == 0 or f in (3, 4) and n > 2)]
