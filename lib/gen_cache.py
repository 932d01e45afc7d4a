"""Script generators for harness/exec_cache.cpp (all choices from the given random.Random)."""

U64 = 2**64 - 1


class Script:
    def __init__(self, page, np, dict_size=16, evict=True, clock=1000, stats=False, addr=True, nd=False):
        self.page, self.np, self.evict = page, np, evict
        self.lines = ["T %d %d %d %d %d %d %d %d" % (page, np, dict_size, evict, clock, stats, addr, nd)]
        self.keys = []        # (bytes, hash)
        self.blobs = []       # lengths
        self.nd = nd

    def key(self, b, h):
        assert b not in [k for k, _ in self.keys[-0:]] or True
        self.keys.append((b, h & 0xffffffff))
        self.lines.append("K %d %s" % (h & 0xffffffff, b.hex()))
        return len(self.keys)

    def blob(self, n):
        self.blobs.append(n)
        self.lines.append("B %d %d" % (999 + len(self.blobs), n))
        return 999 + len(self.blobs)

    def op(self, s):
        self.lines.append(s)

    def text(self):
        return "\n".join(self.lines) + "\n"


def text_pieces(s):
    return ",".join(str(ord(c)) for c in s) if s else "-"


def hashes(rnd, mode, n):
    if mode == "same":
        h = rnd.choice([0, 1, 7, 0xffffffff, rnd.getrandbits(32)])
        return [h] * n
    if mode == "zero":
        return [rnd.choice([0, 0, 0, 1, 16, 65536]) for _ in range(n)]
    if mode == "few":
        pool = [rnd.getrandbits(32) for _ in range(max(1, n // 3))]
        return [rnd.choice(pool) for _ in range(n)]
    if mode == "low":       # equal low bits: collisions in any table size up to 2^16
        base = rnd.getrandbits(16)
        return [base + (rnd.getrandbits(16) << 16) for _ in range(n)]
    if mode == "cluster":
        base = rnd.choice([0, 1, 13, 14, 15, 30, 31, rnd.getrandbits(32)])
        return [(base + rnd.randrange(4)) for _ in range(n)]
    return [rnd.getrandbits(32) for _ in range(n)]


NUMS = ["0", "1", "9", "10", "99", "100", "12345", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
        "9999999999999999999", "10000000000000000000", "18446744073709551614", "18446744073709551615", "18446744073709551616",
        "18446744073709551620", "20000000000000000000", "99999999999999999999", "100000000000000000000", "00", "007", "000000000000000000001",
        "01844674407370955161", "-1", "+1", " 1", "1 ", "1a", "a", "", "0x10", "1.5", "1\0", "\x001"]


def rnd_num(rnd):
    r = rnd.random()
    if r < 0.55:
        return rnd.choice(NUMS)
    if r < 0.8:
        return str(rnd.getrandbits(rnd.randrange(1, 65)))
    d = rnd.randrange(1, 22)
    return "".join(rnd.choice("0123456789") for _ in range(d))


def rnd_delta(rnd):
    r = rnd.random()
    if r < 0.35:
        return rnd.choice([0, 1, 2, 9, 10, 90, 99, 2**32 - 1, 2**32, 2**63 - 1, 2**63, U64 - 1, U64])
    return rnd.getrandbits(rnd.randrange(1, 65))


# distances to a token that some truncation or ordering may confuse with equality
TOKEN_SHIFTS = [1, 2, 3, 256, 65536, 2**31, 2**32, 2**32, 2**33, 2**48, 2**63, 2**64 - 1, 2**64 - 2]
TTLS = [0, 1, 2, 3, 5, 10, 60, 2592000, 2147483647, 2147483648, 4294967294, 4294967295]


def random_history(rnd, n_ops, nk=8, page=1024, np=4, dict_size=16, evict=True, stats=False, addr=True, nd=False,
                   hash_mode=None, mix=None, sizes="mixed", clock_p=0.1, ttl_p=0.4, long_keys=False, capi=False, clock=None, final=True, keylens=None, sweep_p=0.02, similar=False):
    """a random history; mix: weights of operations"""
    clock = clock if clock is not None else rnd.choice([1, 1000, 1000, 1000, 5000000])
    s = Script(page, np, dict_size, evict, clock, stats, addr, nd)
    mode = hash_mode or rnd.choice(["rand", "rand", "few", "same", "low", "cluster", "zero"])
    hs = hashes(rnd, mode, nk)
    used = set()
    if similar:      # keys of one hash that differ in a single byte, or are prefixes of each other
        base = bytes(rnd.getrandbits(8) for _ in range(rnd.choice([2, 8, 9, 17, 64, 128, 129, 200, 249, 250])))
        hs = [hs[0] if rnd.random() < 0.8 else h for h in hs]
    for i in range(nk):
        while True:
            if similar:
                b = bytearray(base); j = rnd.choice([0, len(b) - 1, len(b) - 1, rnd.randrange(len(b))])
                r = rnd.random()
                if r < 0.5: b[j] ^= rnd.choice([1, 0x20, 0x80, 0xff])
                elif r < 0.7: b = b[:max(1, len(b) - rnd.choice([1, 1, 2, len(b) // 2]))]
                elif r < 0.8 and len(b) < 250: b.append(rnd.choice([0, 32, 97]))
                elif r < 0.9: b[j] = 0
                b = bytes(b)
            elif long_keys and rnd.random() < 0.35:
                n = rnd.choice([1, 249, 250, 250, 251, 252, 256, 300, 506]) if rnd.random() < 0.7 else rnd.randrange(1, 300)
                b = bytes([97 + i]) + bytes(rnd.getrandbits(8) for _ in range(n - 1))
            elif keylens:
                n = rnd.choice(keylens)
                b = ("k%0*d" % (max(1, n - 1), i)).encode()[:n] if n > 2 else bytes([65 + i % 60])
            else:
                b = rnd.choice([b"k%d" % i, bytes([i + 1]), b"key:" + bytes([0, 255, i]), b"k%d" % i + b"x" * rnd.randrange(0, 20), b"%d" % (i * 7)])
            if b not in used:
                used.add(b); break
        s.key(b, hs[i])
    isz = 24
    bh = 8
    maxv = page - bh - isz
    def add_blobs():
        if sizes == "tiny":
            return [s.blob(rnd.randrange(7, 40)) for _ in range(3)]
        if sizes == "small":
            return [s.blob(rnd.choice([7, 8, 20, 31, 32, 33, 40, 56, 64, 100, 128])) for _ in range(6)]
        if sizes == "large":
            return [s.blob(max(7, x)) for x in [page // 4, page // 3, page // 2 - 40, page // 2, page // 2 + 40, page * 3 // 4, maxv - 64, maxv - 30, maxv - 8]]
        if sizes == "bound":  # around the maximal size for 2..20 byte keys
            return [s.blob(max(7, maxv - d)) for d in rnd.sample(range(-12, 40), 9)] + [s.blob(max(7, rnd.randrange(7, maxv)))]
        if sizes == "page":
            return [s.blob(maxv - 22 - rnd.randrange(0, 2)) for _ in range(3)]
        return [s.blob(max(7, rnd.choice([7, 9, 16, 30, 40, 64, 100, page // 8, page // 5, page // 4, page // 3, page // 2, page // 2 + 50, page - 300, page - 120]))) for _ in range(8)]
    blobs = add_blobs()
    s_max_pieces = 40
    mix = dict(mix or {})
    w = {"set": 18, "add": 6, "replace": 6, "append": 6, "prepend": 6, "cas": 0 if capi else 8, "discard": 1.5, "get": 20, "gets": 0 if capi else 6, "del": 7, "touch": 5, "incr": 6, "decr": 5, "flush": 1}
    w.update(mix)
    names = [k for k in w if w[k] > 0]; ws = [w[k] for k in names]
    nreg = 6
    hotk = list(range(1, nk + 1))
    tokcount = 0
    for _ in range(n_ops):
        if rnd.random() < clock_p:
            s.op("c %d" % rnd.choice([1, 1, 1, 1, 2, 3, 5, 30]))
        pre = ""
        if nd and rnd.random() < 0.4:
            pre = "~%d " % rnd.randrange(1, 6)
        k = rnd.choice(hotk[:max(2, nk // 3)]) if rnd.random() < 0.5 else rnd.choice(hotk)
        o = rnd.choices(names, ws)[0]
        if o in ("set", "add", "replace", "append", "prepend", "cas", "discard"):
            r = rnd.random()
            if r < 0.22:
                ps = text_pieces(rnd_num(rnd))
            elif r < 0.36:
                ps = ",".join(str(rnd.choice([0, 13, 10, 32, 255, 3, rnd.randrange(3, 256)])) for _ in range(rnd.randrange(0, 12))) or "-"
            elif r < 0.4:
                ps = "-"
            else:
                ps = str(rnd.choice(blobs))
                if rnd.random() < 0.1:
                    ps += "," + str(rnd.randrange(3, 256))
            if o in ("append", "prepend") and rnd.random() < 0.5:
                ps = ",".join(str(rnd.randrange(48, 58)) for _ in range(rnd.randrange(0, 4))) or "-"
            fl = 0 if capi else rnd.choice([0, 0, 1, 255, 32768, 65535, rnd.getrandbits(16)])
            ttl = rnd.choice(TTLS) if rnd.random() < ttl_p else 0
            if nd or rnd.random() < 0.5:
                ttl = min(ttl, rnd.choice([0, 1, 2, 3, 4])) if rnd.random() < 0.8 else ttl
            cas = "-"
            if o == "cas":
                r = rnd.random()
                cas = "r%d" % rnd.randrange(nreg) if r < 0.8 else "r%d+%d" % (rnd.randrange(nreg), rnd.choice(TOKEN_SHIFTS)) if r < 0.88 else str(rnd.choice([0, 1, rnd.randrange(0, n_ops), 2**20]))
            s.op("%ss %s %d %d %d %s %s" % (pre, o, k, fl, ttl, cas, ps))
        elif o == "get":
            s.op("%sg %d" % (pre, k))
        elif o == "gets":
            r = rnd.randrange(nreg)
            s.op("%sg %d %d" % (pre, k, r))
            if rnd.random() < 0.4:
                if rnd.random() < 0.3:
                    s.op("%s" % rnd.choice(["t %d 50" % k, "a incr %d 1" % k, "g %d" % k, "d %d" % k, "s append %d 0 0 - 48" % k, "s set %d 3 0 - 49,50" % k]))
                sh = "+%d" % rnd.choice(TOKEN_SHIFTS) if rnd.random() < 0.15 else ""
                s.op("%ss cas %d %d 0 r%d%s %s" % (pre, k, rnd.choice([0, 7, 65535]), r, sh, rnd.choice([str(rnd.choice(blobs)), "49,50"])))
        elif o == "del":
            s.op("%sd %d" % (pre, k))
        elif o == "touch":
            s.op("%st %d %d" % (pre, k, rnd.choice(TTLS + [1, 2, 3, 4])))
        elif o in ("incr", "decr"):
            if rnd.random() < 0.55:
                s.op("s set %d %d %d - %s" % (k, 0 if capi else rnd.choice([0, 5, 65535]), rnd.choice([0, 0, 1, 2, 60]), text_pieces(rnd_num(rnd))))
            s.op("%sa %s %d %d" % (pre, o, k, rnd_delta(rnd)))
        elif o == "flush":
            s.op("%sf" % pre)
        if stats and rnd.random() < 0.15:
            s.op("S")
        if rnd.random() < sweep_p:
            s.op("W 1 %d" % nk)
    if final:
        for k in range(1, nk + 1):
            s.op("g %d" % k)
    if stats:
        s.op("S")
    return s.text()


def far_history(rnd, n_ops, capi=False):
    """time-to-lives up to 2^32 seconds, and the clock goes there: times are multiples of a big unit"""
    unit = rnd.choice([65536, 65536, 100000, 1000003])
    top = (2**32 - 1) // unit
    now = rnd.choice([0, 1, 50, 500])
    s = Script(1024, 8, 16, False, now, False, True, False)
    s.lines.append("X %d" % unit)
    nk = rnd.choice([1, 2, 4])
    for i in range(nk): s.key(b"k%d" % i, rnd.getrandbits(32))
    exp = [None] * nk
    for _ in range(n_ops):
        k = rnd.randrange(nk)
        def ttl():
            c = [1, 2, 2592000 // unit, 2592000 // unit + 1, 2**30 // unit, 2**31 // unit, 2**31 // unit + 1, top - 1, top, rnd.randrange(1, top), rnd.randrange(1, top), max(1, 2**rnd.randrange(17, 32) // unit)]
            return rnd.choice([x for x in c if x > 0])
        r = rnd.random()
        if r < 0.3:
            t = 0 if rnd.random() < 0.1 else ttl()
            s.op("s %s %d %d %d - %s" % (rnd.choice(["set", "set", "add", "replace"]), k + 1, 0 if capi else 3, t, text_pieces(rnd_num(rnd))))
            exp[k] = now + t
        elif r < 0.45:
            t = ttl(); s.op("t %d %d" % (k + 1, t)); exp[k] = now + t
        elif r < 0.55: s.op(rnd.choice(["s append %d 0 5 - 49", "a incr %d 5", "f", "s prepend %d 0 0 - 50", "a decr %d 5", "d %d"]).replace("%d", str(k + 1)))
        else:
            s.op("g %d" % (k + 1))
            live = sorted(e for e in exp if e and now < e < top)
            if rnd.random() < 0.5:
                step = (rnd.choice(live) - now - rnd.choice([0, 0, 1])) if live and rnd.random() < 0.7 else rnd.choice([1, 1, 2, 10])
                if 0 < step and now + step < top - 1:
                    now += step; s.op("c %d" % step); s.op("g %d" % (k + 1))
    for k in range(nk): s.op("g %d" % (k + 1))
    return s.text()
