"""C01..C10, C17, C18: the cache API against CacheCore / MCCache / CacheTrace."""
import itertools, os, random
import vt, graph, gen_cache as G
from vt import HARN, BUILD

EXEC = [HARN + "/exec_cache.cpp", HARN + "/vclock.cpp"]


def exec_cache(mode="release"):
    return vt.build("exec_cache", EXEC, mode)


def exec_capi(mode="release"):
    return vt.build("exec_capi", EXEC, mode, defines=["USE_C_API"])


# ------------------------------------------------------------------------ behaviours of the model, replayed
def walk_script(walk, keys, capi=False, page=4096, np=4, dict_size=16, hs=None, evict=True):
    s = G.Script(page, np, dict_size, evict)
    for i, k in enumerate(keys):
        s.key(k, hs[i] if hs else 12345 + i)
    for text in walk:
        op = graph.parse_tla(text); o, k, a = op["o"], op["k"], op["arg"]
        if o in ("set", "add", "replace", "append", "prepend", "cas"):
            v, f, ttl = a
            s.op("s %s %d %d %d %s %s" % (o, k, 0 if capi else f, ttl, "r%d" % k if o == "cas" else "-", ",".join(map(str, v)) or "-"))
        elif o == "get": s.op("g %d %d" % (k, k))
        elif o == "del": s.op("d %d" % k)
        elif o == "touch": s.op("t %d %d" % (k, a))
        elif o in ("incr", "decr"): s.op("a %s %d %s" % (o, k, "".join(map(str, a))))
        elif o == "flush": s.op("f")
        elif o == "tick": s.op("c 1")
        else: raise vt.CheckError("unknown operation of the model: " + o)
    for k in range(1, len(keys) + 1):
        s.op("g %d" % k)
    return s.text()


def model_graph(chk, cfg, rnd, nk, binary, capi=False, max_walks=None):
    """exhaustive check of a configuration, dump its graph, replay a cover of it on the code"""
    dot = os.path.join(BUILD, "tlc", "%s-%d.dot" % (cfg, os.getpid()))
    os.makedirs(os.path.dirname(dot), exist_ok=True)
    try:
        chk.model("MCCacheA", "MCCache_%s.cfg" % cfg, extra=["-dump", "dot", dot], tag=cfg)
        init, g, n = graph.load(dot, drop=("written",))
    finally:
        if os.path.exists(dot): os.remove(dot)
    walks = graph.cover(init, g, rnd, max_walks=max_walks)
    modes = ["rand", "same", "zero"]
    scripts = []
    for i, w in enumerate(walks):
        if capi:
            w = [x for x in w if '"cas"' not in x]
        hs = G.hashes(rnd, modes[i % 3], nk)
        scripts.append(walk_script(w, [b"a", b"bb", b"ccc"][:nk], capi, hs=hs))
    chk.parts["graph %s" % cfg] = {"abstract_states": len(g), "state_operation_pairs": sum(map(len, g.values())), "walks": len(walks)}
    vt.validate(chk, "replay of model behaviours (%s)" % cfg, binary, "CacheTrace", scripts)


# ------------------------------------------------------------------------------------------ random histories
def geometry(rnd, small=True):
    page = rnd.choice([256, 512, 1024, 1024, 2048, 4096] if small else [1024, 4096, 16384, 65536])
    np = rnd.choice([4, 4, 8, 16])
    return page, np


def histories(chk, name, rnd, n, ops, binary, maker, **kw):
    rnd = random.Random("%d/%s/%s" % (chk.seed, chk.prop, name))   # independent of the other parts
    scripts = [maker(rnd, ops, **kw) for _ in range(n)]
    vt.validate(chk, name, binary, "CacheTrace", scripts)


def broad(rnd, ops, **kw):
    page, np = geometry(rnd)
    a = dict(nk=rnd.choice([2, 4, 8, 12]), page=page, np=np, dict_size=rnd.choice([1, 2, 4, 16, 64]), evict=rnd.random() < 0.65,
             sizes=rnd.choice(["mixed", "tiny", "small", "large", "bound"]), nd=rnd.random() < 0.15, clock_p=rnd.choice([0.02, 0.1, 0.25]))
    a.update(kw)
    return G.random_history(rnd, ops, **a)


def old_tokens(rnd, ops):
    """tokens read before and after many thousands of modifications of other items"""
    s = G.Script(1024, 8, 16, rnd.random() < 0.5)
    for i in range(2): s.key(b"k%d" % i, rnd.getrandbits(32))
    for k in (1, 2): s.op("s set %d 0 0 - 49,50" % k)
    for _ in range(ops):
        k = rnd.choice([1, 2]); r = rnd.random()
        if r < 0.12: s.op("Z %d" % rnd.choice([1, 254, 255, 256, 65534, 65535, 65536, 65535, 65536, 131071, 1 << 20 if rnd.random() < 0.05 else 65536]))
        elif r < 0.4: s.op("g %d %d" % (k, k))
        elif r < 0.75: s.op("s cas %d 1 0 r%d 49" % (k, k))
        else: s.op(rnd.choice(["s set %d 0 0 - 50", "a incr %d 3", "s append %d 0 0 - 52", "t %d 77", "s replace %d 0 0 - 51"]) % k)
    return s.text()


def growth(rnd, ops, start=None, extra=12, mode=None, capi=False, evict=True, stats=False):
    """operations placed inside the incremental expansion of a big table.
       The table has `cap' slots; it starts growing when 93% are used."""
    cap = start or rnd.choice([2048, 4096])
    page, np = 65536, 16 if cap <= 4096 else 64
    s = G.Script(page, np, cap, evict, stats=stats, addr=False)
    mode = mode or rnd.choice(["rand", "low", "block", "dup", "edge"])
    n0 = cap * 93 // 100 - rnd.randrange(0, 6)
    n = n0 + extra
    for i in range(n):
        if mode == "rand": h = rnd.getrandbits(32)
        elif mode == "low": h = (rnd.getrandbits(20) << 12) | rnd.randrange(0, 64) if i % 8 == 0 else rnd.getrandbits(32)
        elif mode == "block": h = (i * 3) & 0xffffffff
        elif mode == "dup": h = (i // 3) * 977
        else: h = (cap - 1 - (i % 7)) + cap * rnd.randrange(0, 1 << 10) if i % 5 == 0 else rnd.getrandbits(32)
        s.key(b"key%d" % i, h)
    s.op("F 1 %d" % n0)
    if rnd.random() < 0.5:
        # make holes first
        for k in rnd.sample(range(1, n0 + 1), 6): s.op("d %d" % k)
    nxt = n0 + 1
    for _ in range(ops):
        r = rnd.random()
        if nxt <= n and (r < 0.18 or nxt - n0 < 3):
            k = nxt; nxt += 1
            s.op("s %s %d 0 0 - %s" % (rnd.choice(["set", "add"]), k, ",".join(str(rnd.randrange(48, 58)) for _ in range(3))))
            continue
        if stats and rnd.random() < 0.2: s.op("S")
        k = rnd.randrange(1, nxt) if r < 0.75 else rnd.randrange(max(1, nxt - 8), nxt)
        o = rnd.choice(["g", "g", "g", "d", "d", "set", "set", "replace", "append", "add", "incr", "t"] + ([] if capi else ["cas"]))
        if o == "g": s.op("g %d" % k)
        elif o == "d": s.op("d %d" % k)
        elif o == "t": s.op("t %d 100" % k)
        elif o == "incr": s.op("a incr %d %d" % (k, rnd.randrange(100)))
        elif o == "cas":
            s.op("g %d 1" % k); s.op("s cas %d 1 0 r1 49,50" % k)
        else: s.op("s %s %d %d 0 - %s" % (o, k, 0 if capi else 5, ",".join(str(rnd.randrange(48, 58)) for _ in range(2))))
    s.op("W 1 %d" % n)
    if stats: s.op("S")
    if rnd.random() < 0.5:
        s.op("D 1 %d" % n); s.op("W 1 %d" % n)
        if stats: s.op("S")
    return s.text()


def small_growth(rnd, ops, **kw):
    """tables that start tiny and grow many times with adversarial hashes"""
    a = dict(nk=rnd.choice([20, 40, 70]), page=4096, np=16, dict_size=rnd.choice([1, 1, 2, 4, 8, 16]), evict=True,
             sizes="tiny", mix={"set": 30, "del": 10, "get": 25, "add": 10}, hash_mode=rnd.choice(["same", "zero", "few", "low", "cluster", "rand"]), clock_p=0.02, ttl_p=0.1)
    a.update(kw)
    return G.random_history(rnd, ops, **a)


def starved(rnd, ops, base=None, **kw):
    """allocations of the process fail now and then (the dictionary cannot grow)"""
    out = []; p = rnd.choice([0.3, 0.7, 1])
    for l in (base or small_growth)(rnd, ops, **kw).split("\n"):
        if l[:2] in ("s ", "a ", "g ", "d ", "t ") and rnd.random() < p: l = "!%d %s" % (rnd.choice([1, 1, 2, 3]), l)
        out.append(l)
        if l and l[0] in "!sad" and rnd.random() < 0.2: out.append("S")
    return "\n".join(out)


def evicting(rnd, ops, evict=True, **kw):
    page, np = rnd.choice([(256, 4), (512, 4), (512, 8), (1024, 4), (1024, 8), (1024, 16), (2048, 4), (4096, 4)])
    a = dict(nk=rnd.choice([12, 24, 40]), page=page, np=np, dict_size=rnd.choice([1, 16, 64]), evict=evict,
             sizes=rnd.choice(["mixed", "mixed", "small", "large", "bound", "page"]), clock_p=rnd.choice([0, 0.05, 0.2]), ttl_p=rnd.choice([0, 0.3]),
             mix={"set": 40, "add": 10, "incr": 4, "decr": 3, "append": 6, "prepend": 4, "get": 15, "del": 4, "flush": 0.3, "discard": 2}, sweep_p=0.01)
    a.update(kw)
    return G.random_history(rnd, ops, **a)


def recency(rnd, ops, **kw):
    """reads one item repeatedly, then fills pages under new keys"""
    page = rnd.choice([256, 512, 1024]); np = rnd.choice([4, 4, 8, 8, 16])
    nk = np * 3 + 6
    s = G.Script(page, np, 16, True)
    hs = G.hashes(rnd, "rand", nk)
    for i in range(nk): s.key(b"key%04d" % i, hs[i])
    full = s.blob(page - 8 - 24 - 7 - rnd.choice([0, 0, 1, 8, 30]))
    half = s.blob(page // 2 - 60); small = s.blob(20)
    k = 0
    def fresh():
        # a key that is probably absent: delete it first
        nonlocal k
        k = k % nk + 1
        return k
    for _ in range(ops // 10):
        for _ in range(rnd.randrange(0, 2 * np)):
            x = fresh(); s.op("s set %d %d 0 - %d" % (x, rnd.randrange(9), rnd.choice([full, full, half, small])))
        hot = rnd.randrange(1, nk + 1)
        act = rnd.random()
        s.op("s set %d 0 0 - %s" % (hot, rnd.choice(["49,50", str(small), str(half)])))
        if act < 0.6:
            for _ in range(rnd.choice([1, np, np, np, np + 1])): s.op("g %d" % hot)
        elif act < 0.7: s.op("t %d 50" % hot)
        elif act < 0.8: s.op("a incr %d 5" % hot)
        elif act < 0.9: s.op("s append %d 0 0 - 51" % hot)
        for _ in range(rnd.randrange(1, np + 2)):
            x = fresh()
            while x == hot: x = fresh()
            s.op("s set %d 0 0 - %d" % (x, full))
        s.op("g %d" % hot)
    # absent keys are needed for "new key" stores: interleave deletes in half of the scripts
    if rnd.random() < 0.5:
        out = []
        for l in s.lines:
            out.append(l)
        s.lines = out
    return s.text()


def recency_clean(rnd, ops, **kw):
    """the N-2 guarantee: every page-filling store uses a key that is certainly absent"""
    page = rnd.choice([256, 512, 1024]); np = rnd.choice([4, 5, 8, 16]); np = 4 if np == 5 else np
    rounds = max(2, ops // (3 * np))
    nk = rounds * (np * 2 + 2) + 5 * np + 3
    s = G.Script(page, np, 64, True)
    hs = G.hashes(rnd, rnd.choice(["rand", "few"]), nk)
    for i in range(nk): s.key(b"key%05d" % i, hs[i])
    full = s.blob(page - 8 - 24 - 8 - rnd.choice([0, 1, 16])); half = s.blob(page // 2 - 60); small = s.blob(12); third = s.blob(page // 3)
    k = 0; turn = rnd.randrange(0, rounds + 1)
    for j in range(rounds):
        if j == turn and rnd.random() < 0.6 and k > 2 * np:     # pages with a long history of reads
            for x in rnd.sample(range(k - np, k + 1), rnd.choice([1, 2, np])): s.op("G %d %d" % (x, rnd.choice([300, 1500, 5000, 70000])))
        if j == turn:       # many in a row: the oldest one makes room for the next
            for _ in range(rnd.randrange(2 * np, 4 * np)):
                k += 1; s.op("s set %d 0 0 - %d" % (k, full))
        for _ in range(rnd.randrange(0, np + 1)):
            k += 1; s.op("s set %d 0 0 - %d" % (k, rnd.choice([full, half, small, third])))
        k += 1; hot = k
        s.op("s set %d 0 0 - %d" % (hot, rnd.choice([small, half, third])))
        if rnd.random() < 0.5 and hot > 3:
            s.op("g %d" % rnd.randrange(1, hot)); s.op("s set %d 0 0 - %d" % (rnd.randrange(1, hot), small))
        if rnd.random() < 0.1: s.op("G %d %d" % (hot, rnd.choice([300, 1500, 5000, 70000])))
        for _ in range(np + rnd.randrange(0, 2)): s.op("g %d" % hot)
        for _ in range(np - 2 + rnd.randrange(0, 2)):
            k += 1; s.op("s set %d 0 0 - %d" % (k, full))
        s.op("g %d" % hot)
    return s.text()


def bounds(rnd, ops, page=None, **kw):
    page = page or rnd.choice([256, 256, 512, 1024, 4096, 65536])
    a = dict(nk=6, page=page, np=4, evict=rnd.random() < 0.5, sizes="bound", long_keys=rnd.random() < 0.4, clock_p=0.02, ttl_p=0.1,
             mix={"append": 14, "prepend": 14, "set": 25, "add": 6, "incr": 1, "decr": 1, "discard": 4})
    a.update(kw)
    return G.random_history(rnd, ops, **a)


def maximal(rnd, ops, evict=None, hdr=8, isz=24, page=None):
    """items that fill a page exactly, or nearly so, in a memory that is filled and emptied again and again"""
    page = page or rnd.choice([256, 512, 1024, 4096, 65536, 1 << 20, 1 << 22]); np = 4 if page > 4096 else rnd.choice([4, 8])
    s = G.Script(page, np, 16, rnd.random() < 0.3 if evict is None else evict)
    L = rnd.choice([1, 4, 8, 13])
    nk = np + 3
    for i in range(nk): s.key(bytes([65 + i]) * L, rnd.getrandbits(32))
    top = page - hdr - isz - L
    bl = [s.blob(max(7, top - d)) for d in (0, 0, 0, 1, 2, 7, 8, 9, 24)]
    small = [s.blob(max(7, x)) for x in (page // 8, page // 3, page // 2)]
    for _ in range(ops):
        r = rnd.random(); k = rnd.randrange(1, nk + 1)
        if r < 0.5: s.op("s %s %d 0 0 - %d" % (rnd.choice(["set", "set", "add", "replace"]), k, rnd.choice(bl)))
        elif r < 0.55: s.op("s set %d 0 0 - %d" % (k, rnd.choice(small)))
        elif r < 0.8: s.op("d %d" % k)
        elif r < 0.9: s.op("g %d" % k)
        else: s.op("D 1 %d" % nk)
        if rnd.random() < 0.03:
            s.op("D 1 %d" % nk)
            for k in rnd.sample(range(1, nk + 1), np): s.op("s set %d 0 0 - %d" % (k, bl[0]))
    s.op("W 1 %d" % nk)
    return s.text()


def huge(rnd, ops, evict=None):
    """pages of megabytes"""
    page = rnd.choice([1 << 20, 1 << 21, 1 << 22, 1 << 23])
    a = dict(nk=rnd.choice([6, 12]), page=page, np=4, dict_size=16, evict=rnd.random() < 0.5 if evict is None else evict, sizes=rnd.choice(["mixed", "large", "large", "bound"]), ttl_p=0, clock_p=0,
             mix={"set": 40, "del": 25, "get": 10, "append": 3, "prepend": 3}, sweep_p=0)
    return G.random_history(rnd, ops, **a)


def exact_bounds(page, hdr=8, isz=24):
    """every size from -6 to +6 around the limit for several key lengths, stored, extended, read back"""
    out = []
    for kl in (1, 7, 100, 249, 250, 251, 255, 256, 257, 506):
        if kl + isz + hdr + 20 > page: continue
        s = G.Script(page, 4, 16, False)
        s.key(b"K" * kl, 77); s.key(b"z", 5); s.key(b"q", 77)
        lim = page - hdr - isz - kl
        for d in range(-9, 10):
            n = lim + d
            if n < 16: continue
            b = s.blob(n); b1 = s.blob(n - 8)
            s.op("s set 2 9 0 - 1,2,3")
            s.op("s set 1 7 0 - %d" % b); s.op("g 1"); s.op("g 2")
            s.op("s add 1 3 0 - %d" % b); s.op("g 1"); s.op("d 1")
            # as the result of an append / prepend
            for verb in ("append", "prepend"):
                s.op("s set 1 7 60 - %d" % b1)
                s.op("s %s 1 0 0 - %s" % (verb, ",".join(["65"] * 8))); s.op("g 1"); s.op("g 2")
                s.op("s %s 1 0 0 - 66" % verb); s.op("g 1")
                s.op("d 1")
            s.op("s discard 1 7 0 - %d" % b)
        out.append(s.text())
    return out


def reclaim(rnd, ops, **kw):
    """no evictions: random history, then empty the cache and store maximal items in every page"""
    page, np = rnd.choice([(256, 4), (512, 4), (1024, 4), (1024, 8), (2048, 4), (4096, 16)])
    nk = rnd.choice([10, 20, 40])
    t = G.random_history(rnd, ops, nk=nk, page=page, np=np, evict=False, stats=False, sizes=rnd.choice(["mixed", "small", "large", "bound", "page"]),
                         clock_p=0.1, ttl_p=0.3, dict_size=rnd.choice([1, 16]), keylens=[4], final=False,
                         mix={"set": 40, "add": 12, "append": 10, "prepend": 8, "del": 22, "replace": 10, "discard": 8, "flush": 2, "incr": 3, "decr": 2})
    lines = t.splitlines()
    nb = sum(1 for l in lines if l.startswith("B "))
    lines.insert(1 + nk, "")  # keep order of declarations
    full = 1000 + nb
    lines = [l for l in lines if l]
    lines.append("B %d %d" % (full, page - 8 - 24 - 4))
    tail = ["S"]
    how = rnd.random()
    if how < 0.5: tail += ["D 1 %d" % nk]
    elif how < 0.75: tail += ["c 2000000000" if False else "c 40", "D 1 %d" % nk]
    else:
        ks = list(range(1, nk + 1)); rnd.shuffle(ks); tail += ["d %d" % k for k in ks]
    tail += ["S"]
    ks = list(range(1, nk + 1)); rnd.shuffle(ks)
    for k in ks[:np]: tail.append("s set %d 1 0 - %d" % (k, full))
    tail.append("S")
    tail += ["g %d" % k for k in ks[:np]]
    tail += ["D 1 %d" % nk, "S"]
    return "\n".join(lines + tail) + "\n"


def steady(rnd, ops, **kw):
    """bounded live data forever: few small items in a no-eviction cache must never run out of memory"""
    page, np = rnd.choice([(1024, 4), (2048, 4), (4096, 4)])
    a = dict(nk=3, page=page, np=np, evict=False, sizes="small", clock_p=0.1, ttl_p=0.3, sweep_p=0.01,
             mix={"set": 30, "add": 10, "replace": 10, "append": 10, "prepend": 10, "del": 12, "discard": 6})
    a.update(kw)
    return G.random_history(rnd, ops, **a)


def arith_grid(rnd, n, capi=False):
    """boundary values x boundary deltas, in a roomy and in a nearly full evicting cache"""
    vals = ["0", "1", "5", "9", "10", "98", "99", "999", "1000", "4294967295", "4294967296", "999999999", "9223372036854775807", "9223372036854775808",
            "9999999999999999999", "10000000000000000000", "17999999999999999999", "18446744073709551609", "18446744073709551614", "18446744073709551615",
            "18446744073709551616", "18446744073709551619", "18446744073709551625", "18446744073709551700", "19000000000000000000", "28446744073709551615", "99999999999999999999", "184467440737095516150",
            "00", "01", "00000000000000000000", "000000000000000000000", "", "-", "-0", "+0", "1-", " 0", "0 ", "\n1", "1\r\n", "1e3", "0x1", "\xff", "12:4", "1/2"]
    deltas = [0, 1, 2, 5, 9, 10, 89, 90, 99, 1000, 2**31, 2**32 - 1, 2**32, 10**18, 10**19, 2**63 - 1, 2**63, 2**64 - 10, 2**64 - 2, 2**64 - 1]
    out = []
    pairs = [(v, d, o) for v in vals for d in deltas for o in ("incr", "decr")]
    rnd.shuffle(pairs)
    for i in range(0, min(len(pairs), n), 40):
        s = G.Script(1024, 4, 16, True)
        for j in range(3): s.key(b"n%d" % j, 3 + j)
        for v, d, o in pairs[i:i + 40]:
            k = rnd.randrange(1, 4)
            s.op("s set %d %d %d - %s" % (k, 0 if capi else rnd.choice([0, 9, 65535]), rnd.choice([0, 30]), G.text_pieces(v)))
            s.op("a %s %d %d" % (o, k, d)); s.op("g %d" % k)
            if rnd.random() < 0.4: s.op("a %s %d %d" % (rnd.choice(["incr", "decr"]), k, rnd.choice(deltas))); s.op("g %d" % k)
        out.append(s.text())
    return out


def arith_full(rnd, ops, **kw):
    """counters in a full cache: the new number may need a new block and evict others"""
    page, np = rnd.choice([(256, 4), (512, 4), (1024, 4)])
    nk = rnd.choice([16, 30, 60])
    s = G.Script(page, np, rnd.choice([1, 16, 64]), rnd.random() < 0.85)
    hs = G.hashes(rnd, rnd.choice(["rand", "few", "cluster", "low"]), nk)
    for i in range(nk): s.key(b"n%03d" % i + b"x" * rnd.randrange(0, 30), hs[i])
    b = [s.blob(n) for n in (10, 20, 40, 64, 100)]
    for _ in range(ops):
        k = rnd.randrange(1, nk + 1)
        r = rnd.random()
        if r < 0.35: s.op("s set %d %d 0 - %s" % (k, rnd.randrange(4), G.text_pieces(str(rnd.getrandbits(rnd.choice([3, 10, 30, 64]))))))
        elif r < 0.5: s.op("s set %d %d 0 - %d" % (k, rnd.randrange(4), rnd.choice(b)))
        elif r < 0.9: s.op("a %s %d %d" % (rnd.choice(["incr", "incr", "decr"]), k, G.rnd_delta(rnd)))
        else: s.op("g %d" % k)
    for k in range(1, nk + 1): s.op("g %d" % k)
    return s.text()


# ---------------------------------------------------------------------------------------------- properties
def n(chk, q, t):
    return t if chk.thorough else q


def big_model(chk):
    if chk.thorough:
        chk.model("MCCacheA", "MCCache_full.cfg", timeout=1500, heap="12g")
    

def c01(chk):
    r = random.Random(chk.seed * 1000 + 1); b = exec_cache(); d = exec_cache("debug")
    model_graph(chk, "g01", r, 2, b); big_model(chk)
    histories(chk, "random histories", r, n(chk, 260, 3000), 160, b, broad)
    histories(chk, "random histories (debug build)", r, n(chk, 40, 400), 160, d, broad)
    histories(chk, "evicting histories", r, n(chk, 60, 600), 160, b, evicting)
    histories(chk, "growth histories", r, n(chk, 8, 60), 60, b, growth)
    histories(chk, "nearly equal keys", r, n(chk, 60, 800), 120, b, broad, similar=True)


def c02(chk):
    r = random.Random(chk.seed * 1000 + 2); b = exec_cache()
    model_graph(chk, "g02", r, 1, b); big_model(chk)
    mix = {"set": 10, "add": 14, "replace": 14, "append": 14, "prepend": 14, "cas": 8, "del": 12, "touch": 8, "incr": 4, "decr": 4}
    histories(chk, "conditional operations", r, n(chk, 140, 2000), 160, b, broad, mix=mix, clock_p=0.15)
    histories(chk, "without evictions, scarce memory", r, n(chk, 80, 1000), 160, b, evicting, evict=False, mix=dict(mix, set=20), sizes="large")
    histories(chk, "size errors", r, n(chk, 50, 600), 120, b, bounds)


def c03(chk):
    r = random.Random(chk.seed * 1000 + 3); b = exec_cache()
    model_graph(chk, "g03", r, 2, b); big_model(chk)
    mix = {"gets": 30, "cas": 30, "set": 8, "append": 5, "prepend": 5, "incr": 6, "decr": 4, "touch": 6, "del": 5, "add": 4, "replace": 4, "get": 4}
    histories(chk, "cas histories", r, n(chk, 170, 2500), 160, b, broad, mix=mix, nk=3)
    histories(chk, "cas histories, many keys", r, n(chk, 80, 1000), 200, b, broad, mix=mix, nk=10)
    histories(chk, "cas with evictions", r, n(chk, 40, 500), 160, b, evicting, mix=mix)
    histories(chk, "cas after very many modifications", r, n(chk, 20, 60), 60, b, old_tokens)


def c04(chk):
    r = random.Random(chk.seed * 1000 + 4); b = exec_cache()
    model_graph(chk, "g04", r, 1, b, max_walks=n(chk, 5000, None))
    vt.validate(chk, "boundary grid", b, "CacheTrace", arith_grid(r, 100000))
    mix = {"incr": 40, "decr": 40, "append": 8, "prepend": 4, "touch": 4}
    histories(chk, "random arithmetic", r, n(chk, 90, 1500), 130, b, broad, mix=mix, nk=3)
    histories(chk, "arithmetic under memory pressure", r, n(chk, 60, 1000), 250, b, arith_full)


def c05(chk):
    r = random.Random(chk.seed * 1000 + 5); b = exec_cache()
    model_graph(chk, "g05", r, 1, b); big_model(chk)
    mix = {"touch": 20, "set": 20, "flush": 3}
    histories(chk, "expiring histories", r, n(chk, 140, 2000), 160, b, broad, mix=mix, ttl_p=0.9, clock_p=0.4, nd=False)
    histories(chk, "clock ticks inside operations", r, n(chk, 100, 1500), 80, b, broad, mix=mix, ttl_p=0.9, clock_p=0.3, nd=True, nk=3)
    histories(chk, "time-to-live through the C API", r, n(chk, 40, 400), 100, exec_capi(), broad, mix=mix, ttl_p=0.9, clock_p=0.4, nd=False, capi=True)
    histories(chk, "far future", r, n(chk, 150, 2000), 60, b, G.far_history)
    histories(chk, "far future through the C API", r, n(chk, 80, 800), 60, exec_capi(), G.far_history, capi=True)


def c06(chk):
    r = random.Random(chk.seed * 1000 + 6); b = exec_cache(); d = exec_cache("debug")
    chk.model("MCCacheA", "MCCache_quick.cfg")
    histories(chk, "evicting histories", r, n(chk, 130, 2000), 200, b, evicting)
    histories(chk, "evicting histories (debug build)", r, n(chk, 30, 300), 160, d, evicting)
    histories(chk, "evictions disabled", r, n(chk, 60, 1000), 200, b, evicting, evict=False)
    histories(chk, "arithmetic under memory pressure", r, n(chk, 30, 500), 200, b, arith_full)
    histories(chk, "items that fill pages", r, n(chk, 16, 300), 60, b, maximal)
    histories(chk, "recency", r, n(chk, 20, 300), 160, b, recency)


def c07(chk):
    r = random.Random(chk.seed * 1000 + 7); b = exec_cache()
    import checks_alloc
    checks_alloc.lru_model(chk)
    histories(chk, "recency", r, n(chk, 90, 1500), 220, b, recency)
    histories(chk, "page-filling stores", r, n(chk, 90, 1500), 120, b, recency_clean)
    histories(chk, "evicting histories", r, n(chk, 60, 1000), 200, b, evicting, mix={"get": 40, "touch": 10, "set": 40, "add": 10})


def c08(chk):
    r = random.Random(chk.seed * 1000 + 8); b = exec_cache(); d = exec_cache("debug"); a = exec_cache("asan")
    import checks_alloc
    checks_alloc.page_model(chk)
    ex = []
    for p in (256, 512, 1024, 4096, 65536): ex += exact_bounds(p)
    vt.validate(chk, "every size around the limit", b, "CacheTrace", ex)
    exd = []
    for p in (256, 1024): exd += exact_bounds(p, 16)
    vt.validate(chk, "every size around the limit (debug build)", d, "CacheTrace", exd)
    histories(chk, "boundary sizes", r, n(chk, 90, 1500), 140, b, bounds)
    histories(chk, "layout of evicting histories", r, n(chk, 70, 1000), 180, b, evicting)
    histories(chk, "items that fill pages", r, n(chk, 24, 300), 60, b, maximal)
    histories(chk, "huge pages", r, n(chk, 16, 200), 120, b, huge)
    checks_alloc.huge_part(chk, "C08")
    histories(chk, "layout of random histories (asan)", r, n(chk, 30, 300), 160, a, broad)


def c09(chk):
    r = random.Random(chk.seed * 1000 + 9); b = exec_cache()
    import checks_alloc
    checks_alloc.page_model(chk)
    histories(chk, "reclaim after any history", r, n(chk, 120, 2000), 160, b, reclaim)
    checks_alloc.huge_part(chk, "C09")
    histories(chk, "steady state", r, n(chk, 40, 400), 500, b, steady)
    histories(chk, "items that fill pages", r, n(chk, 24, 300), 60, b, maximal)
    histories(chk, "without evictions", r, n(chk, 50, 800), 200, b, evicting, evict=False, stats=True)
    histories(chk, "statistics of used memory", r, n(chk, 40, 600), 160, b, evicting, stats=True)


def c10(chk):
    r = random.Random(chk.seed * 1000 + 10); b = exec_cache(); d = exec_cache("debug")
    import checks_dict
    checks_dict.dict_part(chk, r)
    r = random.Random("%d/C10/window" % chk.seed)
    S = [growth(r, 60, mode=m, stats=True) for m in ("rand", "low", "block", "dup", "edge") for _ in range(n(chk, 6, 60))]
    S += [growth(r, 120, start=16384, extra=40) for _ in range(n(chk, 2, 12))]
    vt.validate(chk, "expansion window", b, "CacheTrace", S)
    histories(chk, "small tables, adversarial hashes", r, n(chk, 70, 1000), 220, b, small_growth, stats=True)
    histories(chk, "nearly equal keys, colliding hashes", r, n(chk, 30, 400), 120, b, broad, similar=True, hash_mode="same")
    histories(chk, "small tables (debug build)", r, n(chk, 20, 300), 220, d, small_growth)
    histories(chk, "failing allocations", r, n(chk, 30, 400), 220, b, starved)
    histories(chk, "failing allocations during growth", r, n(chk, 6, 60), 60, b, starved, base=growth)


def c17(chk):
    r = random.Random(chk.seed * 1000 + 17); b = exec_capi(); a = exec_capi("asan")
    model_graph(chk, "g02", r, 1, b, capi=True)
    vt.validate(chk, "arithmetic grid", b, "CacheTrace", arith_grid(r, 1200, capi=True))
    histories(chk, "random histories", r, n(chk, 140, 2000), 160, b, broad, capi=True, long_keys=True)
    histories(chk, "random histories (asan)", r, n(chk, 30, 300), 160, a, broad, capi=True, long_keys=True)
    histories(chk, "evicting histories", r, n(chk, 50, 800), 160, b, evicting, capi=True)
    histories(chk, "far future", r, n(chk, 60, 600), 60, b, G.far_history, capi=True)
    histories(chk, "boundary sizes", r, n(chk, 40, 500), 120, b, bounds, capi=True)
    histories(chk, "growth", r, n(chk, 6, 60), 60, b, growth, capi=True)
    histories(chk, "failing allocations", r, n(chk, 20, 200), 160, b, starved, capi=True)
    plans = ["".join(x) for k in range(1, 4) for x in itertools.product("AB0-", repeat=k)]
    vt.validate(chk, "eviction callbacks", b, "CacheTrace", [G.Script(1024, 8).text() + "".join("P %s\n" % x for x in plans[i::4]) for i in range(4)])


def c18(chk):
    r = random.Random(chk.seed * 1000 + 18); b = exec_cache()
    chk.model("MCCacheA", "MCCache_g05.cfg")
    histories(chk, "random histories", r, n(chk, 150, 2000), 160, b, broad, stats=True)
    histories(chk, "evicting histories", r, n(chk, 60, 800), 160, b, evicting, stats=True)
    histories(chk, "without evictions", r, n(chk, 40, 500), 160, b, evicting, stats=True, evict=False)
    histories(chk, "boundary sizes", r, n(chk, 30, 400), 120, b, bounds, stats=True)
    histories(chk, "growth", r, n(chk, 4, 40), 60, b, growth, stats=True)
    import checks_server
    checks_server.stats_part(chk, r)
