"""Jobs shared by the parser properties."""
from driver import Job
import templates

MERGE, PRIO = "parse_,@parser.c", "ts,p"


def langs_jobs(tree, harness, entry, modes, n, what, time_s=300, only=None):
    out = []
    for i, l in enumerate(tree.languages):
        if only and l not in only:
            continue
        for m in modes:
            out.append(Job(harness, entry, (i, n, m), "%s: %s, every file of %d bytes" % (what[m], l, n), time_s, MERGE, PRIO, cost=n + (l in ("perl", "ruby", "crystal", "sql", "dmd", "nsis"))))
    return out


def tmpl_jobs(tree, harness, entry, modes, what, time_s=300, only=None, con=False):
    out = []
    for i, (l, text, ex) in enumerate(tree.templates + (tree.constructs if con else [])):
        for m in modes:
            if m == 6 and not ex or only and not only(l, text, ex):
                continue
            out.append(Job(harness, entry, (0, -1 - i, m), "%s: %s, %s" % (what[m], l, templates.show(text)), time_s, MERGE, PRIO, cost=1))
    return out


COUNT = {0: "memory and spans", 1: "order", 2: "no line skipped", 3: "line ends", 4: "one line per report", 5: "blank lines", 6: "expected lines", 8: "every line once"}
ENT = {0: "memory", 1: "order, names and userdata"}
ASSUME = [
    "libc functions used by the parsers (string.h, ctype.h in the C locale, malloc which does not fail) behave as in model/vlibc.c",
    "the generated scanners are the ones ragel and gperf produce from the current .rl and .gperf files with the repository's own scripts",
    "clang's -O0 IR (after mem2reg) means what the compiled program means; each counterexample is confirmed on a gcc ASan/UBSan or clang MSan build before it is reported",
]
