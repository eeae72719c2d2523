from driver import Job
ASSUMPTIONS = ["files, directories, libmagic and PCRE are an in-memory environment (model/vstubs.c)", "libc behaves as in model/vlibc.c (printf included), malloc does not fail"]
EXPLANATION = ("the tool's main is executed on symbolic arguments and files with symbolic content; its output is parsed and asserted to give, for every report, exactly what the library's callbacks say about the same files")
COVERS = ["annotations", "entities", "languages", "help", "licences", "rows by file", "rows by language", "option", "no option"]
CMD = ["annotate", "detect", "help", "individual", "license", "-re", "summary", "none"]


def bounds(tier):
    return ("eight reports (seven options, short and long, and none) over one to four files in one to four languages (one an HTML document with ClearSilver and CSS) of %s symbolic bytes each over letters, comment characters and line ends, with and without a path that does not exist; option words of a dash and one or two arbitrary characters out of 17 and every option cut or extended by a character"
            % ("2 or 3" if tier == "quick" else "up to 4"))


def jobs(tree, tier):
    out = []
    for c in range(8):
        for files, n, f in ([(1, 3, 0), (3, 2, 1), (13, 2, 2), (7, 1, 0), (15, 1, 3), (8, 1, 0), (9, 0, 0), (19, 1, 0), (22, 2, 0), (32, 2, 0), (35, 1, 0), (23, 1, 4)] + ([] if tier == "quick" else [(5, 3, 1), (3, 3, 0), (1, 4, 0), (7, 2, 0), (19, 2, 0), (55, 1, 0)])):
            out.append(Job("cli.c", "h_cli", (c, files, n, f), "report %s, files %d, %d bytes, form %d" % (CMD[c], files, n, f), 700, cost=n * bin(files).count("1")))
    for n in (1, 2):
        out.append(Job("cli.c", "h_flag", (-n,), "option words of %d characters" % n, 700, cost=n))
    for c in range(7):
        for l in (0, 1):
            if (c, l) != (5, 1):
                out.append(Job("cli.c", "h_flag", (c, l), "words like %s, form %d" % (CMD[c], l), 700, cost=1))
    return out
