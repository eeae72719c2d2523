from driver import Job
ASSUMPTIONS = ["directories, links and files are an in-memory environment (model/vstubs.c); names are those the harness gives", "libc behaves as in model/vlibc.c, malloc does not fail"]
EXPLANATION = ("ohcount_sourcefile_list_add_directory is executed on directory trees of up to six entries with arbitrary types, hidden or not, and the list it makes is asserted to be exactly the regular files outside hidden directories; "
               "ohcount_sourcefile_list_analyze_languages is executed on such lists with symbolic file contents and asserted against the sums of the files")
COVERS = ["files", "no file", "sums"]
T = ["nothing", "file", "directory", "link to a file", "link to a directory", "fifo", "unreadable directory", "dangling link"]


def bounds(tier):
    return "trees of up to six entries, four levels deep, every combination of entry types (absent, regular file, directory, link to a file or a directory, fifo, unreadable directory, dangling link), names beginning with a dot or not; readdir in both orders, with and without entry types; contents of up to 4 files of one symbolic byte each"


def jobs(tree, tier):
    out = []
    for a in range(1, 8):
        for b in range(0, 8):
            if a == 2 or b in (2, 6) or b == 1 or tier != "quick":
                for f in ((a + b) % 8,) if tier == "quick" else range(8):
                    out.append(Job("list.c", "h_list", (a, b, 0, f), "%s and %s, form %d" % (T[a], T[b], f), 700, cost=30 if a == 2 else 1))
    for a, b in ((1, 1), (2, 1), (2, 2)):
        for f in (0, 4):
            out.append(Job("list.c", "h_list", (a, b, 1, f), "contents, %s and %s, form %d" % (T[a], T[b], f), 700, cost=20))
        for f in (0, 3):
            out.append(Job("list.c", "h_list", (a, b, 2, f), "names of dots, %s and %s, form %d" % (T[a], T[b], f), 700, cost=3))
    return out
