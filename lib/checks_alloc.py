"""C11 (and the design models used by C07..C09): the page allocator"""
import random
import vt
from vt import HARN


def lru_model(chk):
    chk.model("PageAlloc", "PageAlloc_lru4.cfg"); chk.model("PageAlloc", "PageAlloc_lru3.cfg")
    if chk.thorough:
        chk.model("PageAlloc", "PageAlloc_full.cfg", timeout=1500, heap="12g")


def page_model(chk):
    chk.model("PageAlloc", "PageAlloc_layout.cfg")


def huge_part(chk, tag):
    r = random.Random("%d/%s/huge" % (chk.seed, tag))
    vt.validate(chk, "areas of many megabytes", exec_alloc(), "AllocTrace", [script(r, 100, "huge") for _ in range(120 if chk.thorough else 20)])


def exec_alloc(mode="release"):
    return vt.build("exec_alloc", [HARN + "/exec_alloc.cpp"], mode)


def script(rnd, ops, kind):
    page = rnd.choice([256, 512, 1024, 4096, 65536]); np = rnd.choice([4, 4, 8, 16])
    if kind == "huge": page, np = rnd.choice([1 << 20, 1 << 21, 1 << 23, 1 << 24, 1 << 28]), 4
    L = ["T %d %d" % (page, np)]
    lim = page - 8 if kind != "debug" else page - 16
    def size():
        r = rnd.random()
        if kind == "huge" and r < 0.5: return rnd.randrange(lim // 16, lim // 2)
        if r < 0.35: return rnd.randrange(1, min(lim, 200) + 1)
        if r < 0.5: return rnd.choice([x for x in (1, 7, 8, 9, 47, 48, 49, 55, 56, 57, 63, 64, 65, 111, 112, 113, 120, 127, 128, 129, 191, 192, 255, 256, 511, 512, 1023, 1024) if x <= lim])
        if r < 0.7: return rnd.randrange(1, lim + 1)
        if r < 0.85: return max(1, lim - rnd.choice([0, 0, 1, 7, 8, 63, 64, 71, 72, 73, 80, 100, 128]))
        return max(1, min(lim, (1 << rnd.randrange(3, max(17, page.bit_length()))) + rnd.randrange(-9, 10)))
    live, nid = [], 0
    evict_p = {"noevict": 0, "evict": 0.9, "mixed": 0.5, "debug": 0.5, "hot": 1, "huge": 0.3}[kind]
    for _ in range(ops):
        r = rnd.random()
        if kind == "hot" and r < 0.2 and live:
            x = rnd.choice(live[-4:])
            for _ in range(np + rnd.randrange(0, 2)): L.append("t %d" % x)
            for _ in range(rnd.randrange(1, np + 1)):
                nid += 1; L.append("a %d %d 1" % (nid, lim - rnd.choice([0, 0, 8, 30]))); live.append(nid)
        elif r < 0.45 or not live:
            nid += 1
            L.append("a %d %d %d" % (nid, size(), rnd.random() < evict_p)); live.append(nid)
            if len(live) > 80: live.pop(0)
        elif r < 0.72:
            x = live.pop(rnd.randrange(len(live))); L.append("f %d" % x)
        elif r < 0.85:
            L.append("t %d" % rnd.choice(live[-10:]))
        else:
            L.append("r %d %d" % (rnd.choice(live), size()))
        if rnd.random() < 0.01:
            # free everything, then every page must serve a maximal request
            rnd.shuffle(live)
            for x in range(1, nid + 1): L.append("f %d" % x)
            live = []
            for _ in range(np): nid += 1; L.append("a %d %d 0" % (nid, lim)); live.append(nid)
            if rnd.random() < 0.7:
                for x in live: L.append("f %d" % x)
                live = []
    for x in sorted(range(1, nid + 1), key=lambda _: rnd.random()): L.append("f %d" % x)
    for _ in range(np): nid += 1; L.append("a %d %d 0" % (nid, lim))
    return "\n".join(L) + "\n"


def boundary_scripts(hdr):
    """every request size 1..page-hdr, followed by a neighbour, frees in both orders"""
    out = []
    for page in (256, 512):
        L = ["T %d 4" % page]; nid = 0
        for s in range(1, page - hdr + 1):
            for order in (0, 1):
                a, b, c = nid + 1, nid + 2, nid + 3; nid += 3
                L += ["a %d %d 0" % (a, s), "a %d 1 0" % b, "a %d %d 0" % (c, s)]
                L += ["f %d" % x for x in ((a, b, c) if order == 0 else (c, b, a))]
            if nid > 150:
                out.append("\n".join(L) + "\n"); L = ["T %d 4" % page]; nid = 0
        out.append("\n".join(L) + "\n")
    return out


def c11(chk):
    page_model(chk); lru_model(chk)
    b, d = exec_alloc(), exec_alloc("debug")
    q = 6 if chk.thorough else 1
    for kind, n, ops, bin in (("mixed", 90, 160, b), ("noevict", 50, 160, b), ("evict", 60, 160, b), ("hot", 40, 80, b), ("huge", 24, 100, b), ("debug", 30, 120, d)):
        r = random.Random("%d/C11/%s" % (chk.seed, kind))
        vt.validate(chk, "allocator %s" % kind, bin, "AllocTrace", [script(r, ops, kind) for _ in range(n * q * (3 if chk.thorough else 1))])
    vt.validate(chk, "every size", b, "AllocTrace", boundary_scripts(8))
    vt.validate(chk, "every size (debug build)", d, "AllocTrace", boundary_scripts(16))
