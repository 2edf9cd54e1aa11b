import numpy as np
import gen
import pyxbuild

BOUND = "random arrays of up to 12 rows with keys up to 2**64-1, all within sentinel-guarded buffers; kernels built from the .pyx sources of the current tree"
M = {}


def prepare():
    pyxbuild.build()
    M.update(pyxbuild.install())


def cases(seed, tier):
    rng = gen.rng_for(seed, "p19")
    for i in range(30000 if tier == "quick" else 600000):
        k = i % 3
        if k == 0:
            pool = [rng.choice([rng.randint(0, 6), rng.randint(0, 2**64 - 1), 2**63, 2**63 - 1, 2**64 - 2, 2**64 - 1, 0]) for _ in range(rng.randint(1, 8))]
            a1 = [rng.choice(pool) for _ in range(rng.randint(0, 12))]
            a2 = sorted(rng.choice(pool) for _ in range(rng.randint(0, 12)))
            if rng.random() < 0.5:
                a1.sort()
            perm = list(range(len(a1)))
            rng.shuffle(perm)
            yield {"kind": "isin", "a1": [[str(x), p] for x, p in zip(a1, perm)], "a2": [str(x) for x in a2]}
        elif k == 1:
            n = rng.randint(0, 12)
            yield {"kind": "mark", "n": n, "idx": [rng.randint(0, n - 1) for _ in range(rng.randint(0, n))] if n else [], "old": [rng.randint(0, 2) for _ in range(n)]}
        else:
            n = rng.randint(1, 12)
            st = rng.randint(1, 4)
            nid, pid = rng.randint(1, n), rng.randint(1, n)
            cnt = rng.randint(0, (n - max(nid, pid)) // st + 1)
            yield {"kind": "sub", "n": n, "nid": nid, "pid": pid, "cnt": cnt, "stride": st, "v": [rng.randint(-9, 9) / 2.0 for _ in range(n)]}


def guarded(vals, dtype, guard, shape=None):
    a = np.full((len(vals) + 6,) + (shape or ()), guard, dtype=dtype)
    if len(vals):
        a[3:3 + len(vals)] = np.array(vals, dtype=dtype)
    return a, a[3:3 + len(vals)]


def check(case):
    if not M:
        prepare()
    k = case["kind"]
    if k == "isin":
        a1 = [[int(x), p] for x, p in case["a1"]]
        keys2 = [int(x) for x in case["a2"]]
        a2 = [[x, 7] for x in keys2]
        b1, v1 = guarded(a1, np.uint64, 5, (2,))
        b2, v2 = guarded(a2, np.uint64, 5, (2,))
        s1, s2 = b1.copy(), b2.copy()
        got = M["graphframe_modules"].fast_not_isin(v1, v2, len(a1), len(a2))
        want = [None] * len(a1)
        for x, p in a1:
            want[p] = x not in keys2
        if list(got) != want:
            yield "fast_not_isin of %s in %s gives %s, expected %s" % (a1, keys2, list(got), want)
        if not (b1 == s1).all() or not (b2 == s2).all():
            yield "fast_not_isin changed its arguments"
    elif k == "mark":
        b, v = guarded(case["old"], np.short, 9)
        ib, iv = guarded(case["idx"], np.int64, 0)
        M["graphframe_modules"].insert_one_for_self_nodes(len(case["idx"]), v, iv)
        want = [1 if i in case["idx"] else o for i, o in enumerate(case["old"])]
        if list(v) != want:
            yield "insert_one_for_self_nodes gives %s, expected %s" % (list(v), want)
        if list(b[:3]) + list(b[-3:]) != [9] * 6:
            yield "insert_one_for_self_nodes wrote outside its array"
    else:
        b, v = guarded(case["v"], np.float64, 1234.5)
        M["reader_modules"].subtract_exclusive_metric_vals(case["nid"], case["pid"], v, case["cnt"], case["stride"])
        want = list(case["v"])
        for i in range(case["cnt"]):
            want[case["pid"] - 1 + i * case["stride"]] -= want[case["nid"] - 1 + i * case["stride"]]
        if list(v) != want:
            yield "subtract_exclusive_metric_vals gives %s, expected %s" % (list(v), want)
        if set(b[:3]) | set(b[-3:]) != {1234.5}:
            yield "subtract_exclusive_metric_vals wrote outside its array"
