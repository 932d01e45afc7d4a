"""dict part of C10: the hash table and the incremental growth, against the plain map of DictTrace"""
import random
import vt
from vt import HARN
import gen_cache


def exec_dict(mode="release"):
    return vt.build("exec_dict", [HARN + "/exec_dict.cpp"], mode)


def hs(rnd, mode, n):
    out = gen_cache.hashes(rnd, mode, n)
    return [h if h & 0xffffffff else 1 for h in out]      # zero is not a hash at this level (C10 checks it through the cache)


MODES = ["rand", "same", "few", "low", "cluster"]


def small(rnd, ops, kind, faults=False):
    cap = rnd.choice([1, 2, 4, 8, 16] if kind == "d" else [4, 4, 8, 8, 16, 32])
    if faults: cap = rnd.choice([1, 2, 4])
    nk = rnd.choice([3, 6, 12, 40]) if kind == "d" else max(3, cap)
    L = ["T %s %d %d" % (kind, cap, nk)] + ["K %d" % (h & 0xffffffff) for h in hs(rnd, rnd.choice(MODES + ["cluster"]), nk)]
    for _ in range(ops):
        r = rnd.random(); k = rnd.randrange(1, nk + 1)
        if r < 0.34: L.append("%s%s %d %d" % ("!%d " % rnd.choice([1, 2, 3]) if faults and rnd.random() < 0.7 else "", rnd.choice("pii"), k, rnd.randrange(1, 1000)))
        elif r < 0.58: L.append("%s %d" % (rnd.choice("dxx"), k))
        elif r < 0.7: L.append("%s %d" % (rnd.choice("glc"), k))
        elif r < 0.72: L.append("r %d" % rnd.choice([1, 2, 3, 5, 7]))
        elif r < 0.725: L.append("Z")
        elif r < 0.75 or nk <= 12: L.append("A")
    L.append("A")
    return "\n".join(L) + "\n"


def window(rnd, ops, cap):
    """operations in the middle of an unfinished growth"""
    thr = cap * 93 // 100
    nk = thr + rnd.choice([1, 20, 200])
    L = ["T d %d %d" % (cap, nk)]
    mode = rnd.choice(["rand", "rand", "few2", "block", "edge"])
    if mode == "rand": H = [rnd.getrandbits(32) | 1 for _ in range(nk)]
    elif mode == "few2": pool = [rnd.getrandbits(32) | 1 for _ in range(nk // 5)]; H = [rnd.choice(pool) for _ in range(nk)]
    elif mode == "block": b = rnd.randrange(1, 9999); H = [b + i // 2 for i in range(nk)]
    else: H = [(cap * 4 - 1 - rnd.randrange(cap // 4)) + (rnd.getrandbits(8) << 20) for _ in range(nk)]
    L += ["K %d" % (h & 0xffffffff or 1) for h in H]
    L.append("F 1 %d 1" % thr)
    if rnd.random() < 0.4: L += ["!%d i %d 5" % (j, thr + 1) for j in (1, 2, 3)] + ["A"]       # growth refused at first
    L.append("i %d 5" % (thr + 1))
    for j in range(ops):
        k = rnd.randrange(1, nk + 1); r = rnd.random()
        if r < 0.25: L.append("i %d %d" % (k, rnd.randrange(1, 1000)))
        elif r < 0.55: L.append("%s %d" % (rnd.choice("dx"), k))
        elif r < 0.8: L.append("%s %d" % (rnd.choice("glc"), k))
        elif r < 0.82: L.append("r %d" % rnd.choice([2, 3, 7, 50]))
        elif r < 0.9: L.append("A")
    L.append("A")
    if rnd.random() < 0.3: L += ["Z", "A", "i 1 3", "i 2 3", "A"]
    return "\n".join(L) + "\n"


def dict_part(chk, _):
    chk.model("RobinHood", "RobinHood_q1.cfg"); chk.model("RobinHood", "RobinHood_q2.cfg")
    if chk.thorough:
        chk.model("RobinHood", "RobinHood_a.cfg", timeout=3000, heap="12g"); chk.model("RobinHood", "RobinHood_b.cfg", timeout=3000)
    b, d = exec_dict(), exec_dict("debug")
    q = 15 if chk.thorough else 1
    r = random.Random("%d/C10/dict" % chk.seed)
    S = [small(r, 220, "t") for _ in range(60 * q)] + [small(r, 220, "d") for _ in range(60 * q)] + [small(r, 160, "d", True) for _ in range(20 * q)]
    S += [window(r, 30, c) for c in (1024, 1024, 1024, 2048) for _ in range(5 * q)]
    vt.validate(chk, "hash table and dict", b, "DictTrace", S)
    vt.validate(chk, "hash table and dict (debug build)", d, "DictTrace", [small(r, 220, k) for k in "td" for _ in range(15 * q)] + [window(r, 20, 1024) for _ in range(3 * q)])
