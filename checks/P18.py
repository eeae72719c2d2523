from driver import Job
ASSUMPTIONS = ["strcmp and malloc (which does not fail) behave as in model/vlibc.c"]
EXPLANATION = "lists are built from additions with every pattern of equal and different language names and symbolic 32-bit counts, directly and through a second list; contents, order, lookups, sums and the compact copy are asserted against per-language bookkeeping in the harness"
COVERS = ["three languages"]


def bounds(tier):
    return ("0 to %d additions, of which 0 to 2 by adding a list; every pattern of equal and different names, equal names at different addresses; every 32-bit value of every count (sums modulo 2^32); "
            "for equality, 'changed' and the compact copy up to 3 additions of counts -1, 0 and 1" % (4 if tier == "quick" else 6))


def jobs(tree, tier):
    top = 4 if tier == "quick" else 6
    return ([Job("loclists.c", "h_delta", (n, m, 0), "%d additions, %d of them by a list: sums" % (n, m), 600, cost=n) for n in range(top + 1) for m in (0, 1, 2) if m <= n] +
            [Job("loclists.c", "h_delta", (n, 0, 1), "%d additions: comparisons" % n, 600, cost=n) for n in range(4)])
