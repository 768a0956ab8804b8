import numpy as np

from ..simcheck import plain_cases

RULE = "distinct (objectives, points, value lattice, ranking limit, front structure) sets compared with brute force"
NEED = {"sets": 2720, "partial-rankings": 1500, "multi-front": 1650, "pairs": 10900}
CHUNK = 4
cases = plain_cases(300, 6000)


def brute_dom(a, b):
    return all(x < y for x, y in zip(a, b))


def brute_ranks(F, nmax):
    M, N = F.shape
    D = np.all(F[:, :, None] < F[:, None, :], axis=0)  # D[i, j]: i dominates j
    left = list(range(N))
    r = [float("inf")] * N
    k, done = 1, 0
    while left and done < nmax:
        front = [j for j in left if not D[left, j].any()]
        for j in front:
            r[j] = k
        done += len(front)
        left = [j for j in left if j not in set(front)]
        k += 1
    return r, k - 1


def gen(rng):
    M = int(rng.choice([1, 2, 2, 2, 3, 4]))
    N = int(rng.choice([1, 2, 3, 5, 8, 12, 20, 35])) if rng.random() < 0.93 else int(rng.integers(60, 140))
    kind = int(rng.integers(7))
    if kind == 0:
        F = rng.normal(size=(M, N))
    elif kind == 1:
        F = rng.integers(0, 3, (M, N)).astype(float)
    elif kind == 2:
        F = rng.integers(0, 3, (M, N))  # integer dtype
    elif kind == 3:  # a chain, shuffled
        F = np.tile(np.arange(N, dtype=float), (M, 1))[:, rng.permutation(N)]
    elif kind == 4:  # an antichain with repeats
        t = rng.integers(0, max(2, N // 2), N).astype(float)
        F = np.vstack([t] + [-t] * (M - 1))
    elif kind == 5:  # huge and tiny values, infinities
        F = 10.0 ** rng.uniform(-300, 300, (M, N)) * rng.choice([-1, 1], (M, N))
        F[rng.random((M, N)) < 0.1] = np.inf
    else:  # repeated columns
        F = rng.normal(size=(M, N))[:, rng.integers(0, max(1, N // 2), N)]
    return F, kind


def run_case(spec, out):
    from pySOT.utils import domination, nd_add, nd_front, nd_sorting

    rng = np.random.default_rng(spec["seed"])
    for _ in range(20):
        F, kind = gen(rng)
        M, N = F.shape
        keep = F.copy()
        for _ in range(4):
            i, j = rng.integers(N, size=2)
            a, b = F[:, i], F[:, j]
            if rng.random() < 0.2 and F.dtype == float:
                b = np.nextafter(a, np.inf)
            r = domination(a, b)
            out.ok("pairs")
            out.check(bool(r) == brute_dom(a.tolist(), b.tolist()), "domination", lambda: "domination(%s, %s) = %s" % (a, b, r))
        want, depth = brute_ranks(F, N)
        ndf, df = nd_front(F)
        ndf, df = list(map(int, ndf)), list(map(int, df))
        front = [j for j in range(N) if want[j] == 1]
        out.check(sorted(ndf) == front and sorted(df) == [j for j in range(N) if want[j] != 1], "front",
                  lambda: "front of\n%s\nis %s, got %s and dominated %s" % (F, front, ndf, df))
        # incremental front, one point at a time
        nd, d = [0], []
        for i in range(1, N):
            nd, d = nd_add(F[:, : i + 1], d, nd)
            if i == N - 1 or rng.random() < 0.2:
                w = [j for j in range(i + 1) if not any(brute_dom(F[:, k].tolist(), F[:, j].tolist()) for k in range(i + 1))]
                out.check(sorted(map(int, nd)) == w and sorted(list(map(int, nd)) + list(map(int, d))) == list(range(i + 1)), "front-update",
                          lambda: "after %d points of\n%s\nfront %s, expected %s" % (i + 1, F, nd, w))
        for nmax in {1, N, int(rng.integers(1, N + 1)), N + 3}:
            w, k = brute_ranks(F, nmax)
            r = np.asarray(nd_sorting(F, nmax), dtype=float)
            out.check(r.shape == (N,) and r.tolist() == w, "ranks", lambda: "ranks of\n%s\nwith limit %d: %s, expected %s" % (F, nmax, r, w))
            if any(np.isinf(w)):
                out.ok("partial-rankings")
            p = rng.permutation(N)
            rp = np.asarray(nd_sorting(F[:, p], nmax), dtype=float)
            out.check(rp.tolist() == [w[j] for j in p], "order-dependent", lambda: "ranks depend on the order of the points of\n%s" % F)
        out.ok("sets")
        if depth > 1:
            out.ok("multi-front")
        out.state(M, N, kind, depth, tuple(sorted(want))[:12])
        out.check(np.array_equal(F, keep), "input-changed", "the objective matrix was modified")
        out.sample(dict(objectives=M, points=N, ranks=want[:12]))
