"""C12..C16, C18 (stats command), C22: the daemon"""
import os, random, signal, socket, struct, time
import vt, server
from server import Session
import gen_cache as G


def n(chk, quick, thorough):
    return thorough if chk.thorough else quick


# ------------------------------------------------------------------------------------------- generators
def rnd_key(rnd, pool):
    return rnd.choice(pool)


def key_pool(rnd, k, longest=250):
    out = []
    while len(out) < k:
        r = rnd.random()
        if r < 0.6: b = b"k%d" % len(out)
        elif r < 0.75: b = bytes(rnd.choice(b"abcXYZ0123456789_-:.!@#%&*()[]{}|/\\\"'<>?~^$+=,;") for _ in range(rnd.randrange(1, 30)))
        elif r < 0.9: b = (b"L%d" % len(out)) + b"x" * (rnd.choice([longest, longest - 1, 100, 40]) - 3)
        else: b = bytes(rnd.choice([200, 255, 128, 233]) for _ in range(rnd.randrange(1, 10))) + b"%d" % len(out)
        if b not in out and b not in (b"noreply",) and b[0] != 0x80: out.append(b)
    return out


def rnd_pieces(rnd, blobs):
    r = rnd.random()
    if r < 0.3: return [ord(c) for c in G.rnd_num(rnd)]
    if r < 0.5: return [rnd.choice([0, 13, 10, 32, 255, 13, 10, rnd.randrange(2, 256)]) for _ in range(rnd.randrange(0, 14))]
    if r < 0.56: return []
    if r < 0.66: return list(rnd.choice([b"\r\n", b"END\r\n", b"STORED\r\n", b"\r\nset k0 0 0 1\r\nx\r\n", b"get k0\r\n", b"noreply", b"\r\n\r\n", b"VALUE k0 0 1\r\nx\r\nEND\r\n"]))
    p = [rnd.choice(blobs)]
    if rnd.random() < 0.15: p.append(rnd.randrange(2, 256))
    return p


VERBS = ["set"] * 20 + ["add"] * 7 + ["replace"] * 7 + ["append"] * 7 + ["prepend"] * 6 + ["cas"] * 9 + ["get"] * 14 + ["gets"] * 16 + ["delete"] * 8 + ["incr"] * 7 + ["decr"] * 6 + ["touch"] * 6 + ["flush_all"] + ["version"]


class Gen:
    """random well-formed requests of one session"""
    def __init__(self, ses, nk=6, sizes=(10, 60, 200, 480, 500, 520, 1000, 5000), ttl_p=0.3, noreply_p=0.15, ns=b"", verbs=None, maxget=6):
        self.s, self.rnd = ses, ses.rnd
        self.keys = [ns + k for k in key_pool(self.rnd, nk, 250 - len(ns))]
        self.blobs = [ses.blobs.new(x + self.rnd.randrange(0, 9)) for x in sizes]
        self.ttl_p, self.noreply_p, self.verbs, self.maxget = ttl_p, noreply_p, verbs or VERBS, maxget

    def cas_token(self, key, conn):
        """a token seen recently on the connection (for the right key with high probability)"""
        rnd = self.rnd
        if rnd.random() < 0.12: return rnd.choice([b"0", b"1", b"2", b"18446744073709551615", b"%d" % rnd.randrange(0, 300)])
        k = "VALUE " + server.enc(key) + " "
        for it in reversed(conn.rep.items[-60:]):
            if it["tok"] > 0 and (it["s"].startswith(k) or rnd.random() < 0.05):
                for t, i in self.s.tokens.ids.items():
                    if i == it["tok"]:
                        return b"%d" % (t if rnd.random() < 0.9 else (t + rnd.choice(G.TOKEN_SHIFTS)) % 2**64)
        return b"%d" % rnd.randrange(0, 50)

    def ttl(self):
        rnd = self.rnd
        if rnd.random() > self.ttl_p: return b"0"
        return b"%d" % (rnd.choice(G.TTLS) if rnd.random() < 0.3 else rnd.choice([1, 2, 3, 4]))

    def next(self, conn, verb=None, noreply=None):
        rnd = self.rnd
        v = verb or rnd.choice(self.verbs)
        key = rnd.choice(self.keys[:max(2, len(self.keys) // 3)]) if rnd.random() < 0.5 else rnd.choice(self.keys)
        nr = [b"noreply"] if (rnd.random() < self.noreply_p if noreply is None else noreply) else []
        num = lambda: b"%d" % G.rnd_delta(rnd)
        if v in ("get", "gets"):
            ks = [rnd.choice(self.keys) for _ in range(rnd.choice([1, 1, 1, 2, 3, rnd.randrange(1, self.maxget + 1)]))]
            if sum(map(len, ks)) > 1500: ks = ks[:2]
            return self.s.req([v.encode()] + ks)
        if v in ("set", "add", "replace", "append", "prepend", "cas"):
            p = rnd_pieces(rnd, self.blobs)
            if v in ("append", "prepend") and rnd.random() < 0.5: p = [rnd.randrange(48, 58) for _ in range(rnd.randrange(0, 3))]
            fl = b"%d" % rnd.choice([0, 0, 1, 9, 10, 255, 1000, 32767, 32768, 65535, rnd.getrandbits(16)])
            w = [v.encode(), key, fl, self.ttl(), b"%d" % len(self.s.blobs.encode(p))]
            if v == "cas": w.append(self.cas_token(key, conn))
            return self.s.req(w + nr, p)
        if v in ("incr", "decr"): return self.s.req([v.encode(), key, num()] + nr)
        if v == "touch": return self.s.req([b"touch", key, b"%d" % rnd.choice(G.TTLS + [1, 2, 3, 4])] + nr)
        if v == "delete": return self.s.req([b"delete", key] + nr)
        if v == "flush_all": return self.s.req([b"flush_all"] + nr)
        return self.s.req([v.encode()])


def quit_pipeline(rnd, s, g, c, cuts=False):
    """some requests and quit at once: everything is answered, then the connection is closed"""
    reqs = [g.next(c) for _ in range(rnd.randrange(0, 5))] + [s.req([b"quit"])]
    reqs[-1].noreply = True
    data = b"".join(r.bytes for r in reqs)
    for r in reqs: c.expect(r)
    at = sorted(rnd.randrange(1, len(data)) for _ in range(rnd.randrange(0, 4))) if cuts else []
    for i, j in zip([0] + at, at + [len(data)]):
        if i < j: c.push(data[i:j])
        if cuts and rnd.random() < 0.5: time.sleep(0.002)
    c.ended(False)


# ------------------------------------------------------------------------------------------------- C12
def s_replies(seed, binary, ops=120, stats=False, memkind="ample", geometry=None, kind=None, sizes=None, flood=False):
    rnd = random.Random(seed)
    kind = kind or rnd.choice(["unix", "unix", "tcp"])
    page, memory = geometry or rnd.choice([("256K", "4M"), ("64K", "1M"), ("1M", "4M"), ("16K", "1M")])
    s = Session(binary, "replies", seed, stats=stats, memkind=memkind, page=page, mem=memory, evict=memkind != "oom", tcp=kind == "tcp", unix=kind == "unix", hashtable=rnd.choice([1, 16, 1024]))
    g = Gen(s, nk=rnd.choice([3, 6, 12]), noreply_p=rnd.choice([0, 0.1, 0.4]), **({"sizes": sizes} if sizes else {}))
    c = s.conn(kind=kind)
    if flood:       # many modifications of an item that is not part of the history
        f = s.conn(kind=kind)
        for _ in range(rnd.choice([1, 3, 3])):
            f.push(b"set flood-%d 0 0 1 noreply\r\nx\r\n" % rnd.randrange(9) * rnd.choice([22000, 22000, 25000])); f.barrier()
    for _ in range(ops):
        if rnd.random() < 0.08: s.tick(rnd.choice([1, 1, 2, 3]))
        if stats and rnd.random() < 0.08: c.do(s.req([b"stats"]))
        c.do(g.next(c))
        if not s.d.alive() or c.eof: break
    for k in g.keys: c.do(s.req([b"gets", k]))
    if stats: c.do(s.req([b"stats"]))
    elif rnd.random() < 0.4: quit_pipeline(rnd, s, g, c)
    return s.finish()


def c12(chk):
    b = server.daemon_binary()
    server.validate(chk, "random requests", s_replies, n(chk, 120, 1500), binary=b)
    server.validate(chk, "random requests (debug build)", s_replies, n(chk, 16, 200), binary=server.daemon_binary("debug"))
    server.validate(chk, "after very many modifications", s_replies, n(chk, 8, 40), binary=b, ops=60, flood=True)
    server.validate(chk, "big values", s_replies, n(chk, 12, 150), binary=b, ops=50, geometry=("1M", "64M"), sizes=(60, 32760, 65400, 65528, 65535, 65536, 70000, 131072, 262140, 524288, 700000))
    server.validate(chk, "scarce memory, evictions disabled", s_replies, n(chk, 24, 300), binary=b, memkind="oom", geometry=("1K", "4K"), sizes=(10, 60, 200, 400, 600, 800))
    server.validate(chk, "scarce memory, evictions", s_replies, n(chk, 24, 300), binary=b, memkind="evict", geometry=("1K", "4K"), sizes=(10, 60, 200, 400, 600, 800))


def stats_part(chk, r):
    server.validate(chk, "stats command", s_replies, n(chk, 24, 300), binary=server.daemon_binary(), stats=True)


# ------------------------------------------------------------------------------------------------- C13
def play(c, reqs, cuts, pace=None, noisy=None):
    """send the concatenation of reqs on c, cut at the byte offsets `cuts'; pace(i) is called after segment i"""
    data = b"".join(r.bytes for r in reqs)
    ends, x = [], 0
    for r in reqs:
        x += len(r.bytes); ends.append(x)
    cuts = sorted(set(k for k in cuts if 0 < k < len(data))) + [len(data)]
    at, done = 0, 0
    for i, k in enumerate(cuts):
        while done < len(reqs) and ends[done] <= k:       # the request is complete with this segment
            c.expect(reqs[done]); done += 1
        c.push(data[at:k]); at = k
        if pace: pace(i)
        if c.eof: return


def s_segments(seed, binary, rounds=12, ops=6, style="random"):
    """pipelines cut at arbitrary places; an observer looks at the cache in the middle"""
    rnd = random.Random(seed)
    kind = rnd.choice(["unix", "tcp"])
    s = Session(binary, "segments", seed, page="256K", mem="4M", tcp=kind == "tcp", unix=kind == "unix")
    big = style == "big"
    g = Gen(s, nk=rnd.choice([2, 4]), noreply_p=rnd.choice([0, 0.2, 0.5]), ttl_p=0,
            sizes=(400, 490, 500, 510, 1500, 20000, 100000, 200000) if big else (7, 20, 60, 118, 125, 130, 350, 370, 480, 500, 700))
    c, o = s.conn(kind=kind), s.conn(kind=kind)
    for _ in range(rounds):
        if s.d.alive() is False or c.eof: break
        if rnd.random() < 0.15: c.close_ops(); c = s.conn(kind=kind)
        reqs = [g.next(c) for _ in range(rnd.randrange(1, ops + 1))]
        total = sum(len(r.bytes) for r in reqs)
        r = rnd.random()
        if r < 0.25: cuts = []
        elif r < 0.45 and not big: cuts = range(1, total, rnd.choice([1, 1, 2, 3, 7, 16]))
        elif r < 0.75: cuts = [rnd.randrange(1, total + 1) for _ in range(rnd.randrange(1, 8))]
        else:       # around CRLFs and request boundaries
            data = b"".join(q.bytes for q in reqs)
            marks = [i for i in range(len(data)) if data[i:i + 2] == b"\r\n"][:40]
            cuts = [m + rnd.choice([-1, 0, 1, 1, 2, 3]) for m in rnd.sample(marks, min(len(marks), rnd.randrange(1, 6)))]
        cuts = list(cuts)[:150]
        def pace(i):
            x = rnd.random()
            if x < 0.5 and len(cuts) < 20: o.do(s.req([b"get", rnd.choice(g.keys)]))      # looks in between, and paces the server
            elif x < 0.6: c.pump(0)
        play(c, reqs, cuts, pace)
        if any(q.noreply for q in reqs): c.barrier()
        else: c.sync()
        if rnd.random() < 0.3:       # an unfinished request, abandoned
            x = s.conn(kind=kind)
            q = g.next(x)
            x.push(q.bytes[:rnd.randrange(1, len(q.bytes))]); o.do(s.req([b"gets"] + g.keys[:4])); x.close()
    if not c.eof and rnd.random() < 0.5: quit_pipeline(rnd, s, g, c, cuts=True)
    for k in g.keys: o.do(s.req([b"gets", k]))
    return s.finish()


def s_slow(seed, binary, gets=60):
    """a client that does not read for a while, with replies far larger than the socket buffers"""
    rnd = random.Random(seed)
    kind = rnd.choice(["unix", "tcp"])
    s = Session(binary, "slow", seed, page="1M", mem="8M", tcp=kind == "tcp", unix=kind == "unix")
    c, o = s.conn(kind=kind, rcvbuf=rnd.choice([4096, 65536])), s.conn(kind=kind)
    ks = [b"big%d" % i for i in range(3)]
    for i, k in enumerate(ks):
        p = [s.blobs.new(rnd.choice([150000, 300000, 700000]))]
        o.do(s.req([b"set", k, b"%d" % i, b"0", b"%d" % len(s.blobs.encode(p))], p))
    reqs = []
    for i in range(gets):
        r = rnd.random()
        if r < 0.6: reqs.append(s.req([b"get"] + [rnd.choice(ks) for _ in range(rnd.randrange(1, 4))]))
        elif r < 0.8: reqs.append(s.req([b"incr", b"cnt", b"1"]))
        else:
            p = [rnd.randrange(32, 127) for _ in range(rnd.randrange(0, 30))]
            reqs.append(s.req([b"set", b"small", b"0", b"0", b"%d" % len(p)], p))
    c.noread = True
    play(c, reqs, [sum(len(r.bytes) for r in reqs) // 2])
    for _ in range(3):       # the others are served meanwhile
        o.do(s.req([b"version"])); o.do(s.req([b"get", b"nothing"]))
    c.noread = False
    c.sync()
    c.do(s.req([b"gets", b"small"]))
    return s.finish()


def s_long(seed, binary, total=40 << 20):
    """a long-lived connection on which the beginning of the next request is always waiting in the buffer"""
    rnd = random.Random(seed)
    kind = rnd.choice(["unix", "tcp"])
    s = Session(binary, "long", seed, page="1M", mem="8M", tcp=kind == "tcp", unix=kind == "unix")
    c, o = s.conn(kind=kind), s.conn(kind=kind)
    ps = [[s.blobs.new(x)] for x in (3000, 300000, 700000, 900000)]
    pend, sent = b"", 0
    def flow(r, last=False):
        nonlocal pend, sent
        data = pend + r.bytes
        k = len(data) if last else len(data) - rnd.randrange(1, 6)
        if not last and pend:       # the end of the request before and the beginning of this one
            k = len(pend) + rnd.randrange(3, len(r.bytes) - 1)
        c.push(data[:k]); pend = data[k:]; sent += k
    while sent < total and not c.eof and s.d.alive() and not s.dead:
        p = rnd.choice(ps)
        r = s.req([b"set", b"k%d" % rnd.randrange(3), b"%d" % rnd.randrange(9), b"0", b"%d" % len(s.blobs.encode(p))], p) if rnd.random() < 0.8 else s.req([b"incr", b"n", b"1"])
        prev = pend
        if prev: c.expect(waiting)
        flow(r)
        if prev: c.sync()
        waiting = r
    if pend:
        c.expect(waiting); c.push(pend); c.sync()
    for k in (b"k0", b"k1", b"k2", b"n"): o.do(s.req([b"gets", k]))
    c.do(s.req([b"get", b"k0"]))
    return s.finish()


def exhaustive_pipeline(rnd, s):
    p = [97, 98, 13, 10, 99]
    return [s.req([b"set", b"a", b"1", b"0", b"5"], p), s.req([b"get", b"a", b"b"]), s.req([b"incr", b"b", b"7"]),
            s.req([b"set", b"b", b"0", b"0", b"1", b"noreply"], [49]), s.req([b"incr", b"b", b"9"]), s.req([b"gets", b"b"])][rnd[0]:rnd[1]]


def s_cuts(seed, binary, lo, hi, first):
    """one cut at every position (first = 0), or a cut at `first' and another one at every later position"""
    kind = "unix"
    s = Session(binary, "cuts", seed, unix=True)
    o = s.conn()
    total = sum(len(r.bytes) for r in exhaustive_pipeline((lo, hi), s))
    for k in range(first + 1, total + 1):
        c = s.conn() if k % 8 == 1 or k == first + 1 else c
        reqs = exhaustive_pipeline((lo, hi), s)
        play(c, reqs, [first, k], lambda i: o.do(s.req([b"get", b"a", b"b"])))
        c.barrier()
        o.do(s.req([b"delete", b"a"])); o.do(s.req([b"delete", b"b"]))
    return s.finish()


def s_cuts_seed(seed, binary, plan):
    i = int(seed.rsplit("/", 1)[1])
    return s_cuts(seed, binary, *plan[i])


def c13(chk):
    b = server.daemon_binary()
    chk.model("MCStream", "StreamConn_q.cfg"); chk.model("MCStream", "StreamConn_t.cfg")
    server.validate(chk, "random pipelines and cuts", s_segments, n(chk, 70, 1200), binary=b)
    server.validate(chk, "random pipelines and cuts (debug build)", s_segments, n(chk, 12, 150), binary=server.daemon_binary("debug"))
    server.validate(chk, "large values", s_segments, n(chk, 16, 200), binary=b, rounds=8, style="big")
    server.validate(chk, "slow reader", s_slow, n(chk, 8, 60), binary=b)
    server.validate(chk, "long-lived connection", s_long, n(chk, 3, 16), binary=b)
    plan = [(0, 6, 0), (0, 2, 0), (2, 6, 0)] + [(0, 6, f) for f in range(1, 90, 13 if not chk.thorough else 1)]
    server.validate(chk, "every cut position", s_cuts_seed, len(plan), binary=b, plan=plan)


# ------------------------------------------------------------------------------------------------- C14
BADNUM = [b"x", b"-1", b"1x", b"x1", b"0x10", b"1.0", b"99999999999999999999", b"184467440737095516160", b"+", b"-", b"1e3", b"\xff", b"one"]


def malformed(rnd, key, page):
    """(words, data, terminator) of a request that is certainly malformed, or raw bytes"""
    k = key
    r = rnd.randrange(12)
    st = rnd.choice([b"set", b"add", b"replace", b"append", b"prepend", b"cas"])
    ar = rnd.choice([b"incr", b"decr"])
    if r == 0:
        v = rnd.choice([b"GET", b"gett", b"sett", b"ge", b"g", b"se", b"incrr", b"del", b"remove", b"flush", b"flush_al", b"flush_alll", b"version2", b"statss", b"x", b"touchh", b"get\tk", b"\x00get", b"decrr", b"appendd", b"prependx",
                        b"gat", b"setq", b"VALUE", b"END", b"ads", b"cad", b"gxt", b"sxt", b"dxcr", b"deletx", b"verxion", b"flush-all", b"xouch", b"stax", b"replaca", b"q", b"quitt", b"aet", b"sdd", b"gas", b"cet"])
        return [v] + ([k] if rnd.random() < 0.7 else []) + ([b"0", b"0", b"1"] if rnd.random() < 0.3 else []), None, None
    if r == 1:
        return [rnd.choice([b"get", b"gets", b"set", b"add", b"replace", b"append", b"prepend", b"cas", b"delete", b"incr", b"decr", b"touch"])], None, None
    if r == 2:
        long = b"y" * rnd.choice([251, 252, 255, 256, 260, 300, 499, 512, 1000, 2040])
        return rnd.choice([[b"get", long], [b"gets", k, long], [b"delete", long], [b"delete", long, b"noreply"], [ar, long, b"1"], [b"touch", long, b"10"], [st, long, b"0", b"0", b"1"]]), None, None
    if r == 3:
        bad = rnd.choice(BADNUM)
        w = [st, k, b"0", b"0", b"1"] + ([b"1"] if st == b"cas" else [])
        i = rnd.choice([2, 3, 4] + ([5] if st == b"cas" else []))
        w[i] = bad if rnd.random() < 0.6 else {2: rnd.choice([b"65536", b"70000", b"4294967295"]), 3: rnd.choice([b"4294967296", b"99999999999"]), 4: rnd.choice([b"4294967296", b"18446744073709551615"]), 5: b"18446744073709551616"}[i]
        return w + ([b"noreply"] if rnd.random() < 0.2 else []), None, None
    if r == 4:
        return [ar, k, rnd.choice(BADNUM + [b"18446744073709551616", b"18446744073709551620", b"20000000000000000000"])], None, None
    if r == 5:
        return rnd.choice([[ar, k], [b"touch", k], [b"touch", k, rnd.choice(BADNUM + [b"4294967296"])]]), None, None
    if r == 6:
        x = rnd.choice([b"noreplyy", b"norepl", b"NOREPLY", b"0", b"x", b"5", b"reply"])
        return rnd.choice([[b"delete", k, x], [ar, k, b"1", x], [b"touch", k, b"1", x], [b"flush_all", x], [b"version", x], [st, k, b"0", b"0", b"1"] + ([b"1"] if st == b"cas" else []) + [x],
                           [b"delete", k, b"noreply", x], [ar, k, b"1", b"noreply", x], [b"touch", k, b"9", b"noreply", b"noreply"], [b"flush_all", b"noreply", x]]), None, None
    if r == 7:
        d = [rnd.choice(b"abc") for _ in range(rnd.randrange(0, 20))]
        t = rnd.choice([b"xx", b"\n\r", b"\rx", b"x\n", b"\r\r", b"\n\n", b"xyz\r\n", b"\n\r\n", b"ab\r\n"])
        w = [st, k, b"0", b"0", b"%d" % len(d)] + ([b"1"] if st == b"cas" else [])
        return w + ([b"noreply"] if rnd.random() < 0.2 else []), d, t
    if r == 8:
        big = rnd.choice([page + 1, page + 2, 2 * page, 10 * page, 2**31 - 1, 2**31, 2**32 - 1])
        return [st, k, b"0", b"0", b"%d" % big] + ([b"1"] if st == b"cas" else []), None, None
    if r == 9:
        return rnd.choice([[b"set", k], [b"set", k, b"0"], [b"set", k, b"0", b"0"], [b"cas", k, b"0", b"0", b"1"], [b"set", b"", b"0", b"0", b"1"], [b"get", b"", k], [b"delete", b"", k], [b"incr", b"", b"1"], [b"", b"get", k], [b""]]), None, None
    if r == 10:
        return [bytes(rnd.choice([x for x in range(1, 256) if x not in (10, 13, 32)]) for _ in range(rnd.randrange(1, 30))).replace(b"\x80", b"a")] + [k] * rnd.randrange(0, 3), None, None
    return [b"stats", rnd.choice([b"items", b"slabs", b"reset", b"x"])], None, None


KNOWN_VERBS = (b"get", b"gets", b"set", b"add", b"replace", b"append", b"prepend", b"cas", b"delete", b"incr", b"decr", b"touch", b"flush_all", b"version", b"stats", b"quit")


def s_malformed(seed, binary, ops=90):
    rnd = random.Random(seed)
    kind = rnd.choice(["unix", "tcp"])
    page = rnd.choice(["16K", "256K"])
    s = Session(binary, "malformed", seed, page=page, mem="4M", tcp=kind == "tcp", unix=kind == "unix")
    g = Gen(s, nk=4, noreply_p=0, ttl_p=0.1, sizes=(10, 60, 200, 480, 1000, 5000))
    c, o = s.conn(kind=kind), s.conn(kind=kind)
    for _ in range(ops):
        if not s.d.alive(): break
        if c.eof: break
        if rnd.random() < 0.5:
            w, d, t = malformed(rnd, rnd.choice(g.keys), server.size_of(page))
            if d is None and w[0] in KNOWN_VERBS and False: pass
            r = s.req(w, d, t) if d is not None else s.req(w)
            r.noreply = False
            c.do(r)
            if rnd.random() < 0.3: o.do(s.req([b"gets"] + g.keys[:3]))
        else:
            c.do(g.next(c))
    for k in g.keys: o.do(s.req([b"gets", k]))
    return s.finish()


def small_lines():
    """every line of a few words over a small vocabulary"""
    U = [b"k", b"7", b"x1", b"noreply", b"-1", b"18446744073709551616"]
    out = []
    def tuples(m):
        t = [[]]
        for _ in range(m):
            t = [a + [u] for a in t for u in U]
        return t
    for v, m in ((b"get", 2), (b"gets", 2), (b"delete", 3), (b"incr", 4), (b"decr", 3), (b"touch", 4), (b"flush_all", 2), (b"version", 1), (b"stats", 1), (b"zap", 2)):
        for j in range(0, m + 1):
            out += [[v] + a for a in tuples(j)]
    # storage headers whose numbers make the request malformed or a one byte value
    for v in (b"set", b"append", b"cas"):
        for fl in (b"0", b"65535", b"65536", b"-1", b"a"):
            for ex in (b"0", b"4294967295", b"4294967296", b"-1", b"a"):
                for ln in (b"1", b"-1", b"a", b"4294967296", b"01"):
                    for tail in ([], [b"noreply"], [b"x"], [b"1"], [b"1", b"noreply"], [b"1", b"x"]):
                        out.append([v, b"k", fl, ex, ln] + tail)
    return out


def near_verbs():
    """every command name with one character changed, dropped, added or in the other case, each with arguments that the command itself would accept"""
    A = {b"get": [b"k"], b"gets": [b"k"], b"delete": [b"k"], b"incr": [b"k", b"1"], b"decr": [b"k", b"1"], b"touch": [b"k", b"1"], b"flush_all": [], b"version": [], b"stats": [], b"quit": [],
         b"set": [b"k", b"0", b"0", b"1"], b"add": [b"n", b"0", b"0", b"1"], b"replace": [b"k", b"0", b"0", b"1"], b"append": [b"k", b"0", b"0", b"1"], b"prepend": [b"k", b"0", b"0", b"1"], b"cas": [b"k", b"0", b"0", b"1", b"1"]}
    out = []
    for v, a in A.items():
        near = {v.upper(), v.capitalize(), v + b"s", v + v, v[::-1]}
        for i in range(len(v)):
            near |= {v[:i] + v[i + 1:], v[:i] + v[i:i + 1] + v[i:], v[:i] + v[i:i + 1].upper() + v[i + 1:], v[:i] + bytes([v[i] ^ 1]) + v[i + 1:], v[:i] + bytes([v[i] | 0x80]) + v[i + 1:], v[:i] + bytes([v[i] & 0x5f or 0x41]) + v[i + 1:]}
            near |= {v[:i] + c + v[i + 1:] for c in (b"x", b"e", b"\0", b"_")}
            near |= {v[:i + 1] + c + v[i + 1:] for c in (b"x", b"\0")}
            if i: near |= {v[:i] + v[i:i + 1] * 0 + v[i + 1:] + v[i:i + 1], v[:i]}
        out += [[x] + a for x in sorted(near) if x not in A and x and x[0] != 0x80 and b" " not in x and b"\n" not in x and b"\r" not in x]
    return out


def s_near(seed, binary, parts):
    """names that are nearly commands: refused, and nothing is executed"""
    i = int(seed.rsplit("/", 1)[1])
    s = Session(binary, "near", seed, unix=True)
    c, o = s.conn(), s.conn()
    o.do(s.req([b"set", b"k", b"3", b"0", b"2"], [52, 50]))
    for j, w in enumerate(near_verbs()[i::parts]):
        r = s.req(w); r.noreply = False
        c.do(r)
        if c.eof or s.dead or not s.d.alive(): break
        if j % 16 == 15: o.do(s.req([b"gets", b"k", b"n"]))
    o.do(s.req([b"gets", b"k", b"n"]))
    return s.finish()


def s_lines(seed, binary, parts, step=1):
    i = int(seed.rsplit("/", 1)[1])
    s = Session(binary, "lines", seed, unix=True)
    c, o = s.conn(), s.conn()
    o.do(s.req([b"set", b"k", b"3", b"0", b"2"], [52, 50])); o.do(s.req([b"set", b"7", b"0", b"0", b"1"], [55]))
    for w in small_lines()[i::parts][::step]:
        data = None
        if w[0] in (b"set", b"append", b"cas"):
            tail = w[5:]
            cas = w[0] == b"cas"
            ok = len(w) > 4 and server.numeric(w[2], 65535) and server.numeric(w[3], 2**32 - 1) and server.numeric(w[4], 1) and \
                ((not cas and tail in ([], [b"noreply"])) or (cas and (tail == [b"1"] or tail == [b"1", b"noreply"])))
            if ok: data = [57]           # send the data block only to those that are well-formed
        r = s.req(w, data)
        c.do(r)
        if c.eof or s.dead or not s.d.alive(): break
        if s.rnd.random() < 0.05: o.do(s.req([b"get", b"k", b"7", b"noreply"]))
    o.do(s.req([b"gets", b"k", b"7"]))
    return s.finish()


def mutate(rnd, data):
    data = bytearray(data)
    for _ in range(rnd.choice([1, 1, 2, 3, 8])):
        if not data: break
        i = rnd.randrange(len(data)); r = rnd.randrange(8)
        if r == 0: data[i] = rnd.randrange(256)
        elif r == 1: del data[i:i + rnd.choice([1, 1, 2, 10])]
        elif r == 2: data[i:i] = bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 2, 5])))
        elif r == 3: data[i:i] = rnd.choice([b"\r\n", b" ", b"\r", b"\n", b"\0", b"  ", b" \r\n", b"noreply", b"4294967295", b"18446744073709551616", b"-1", b"\x80", b"\x81"])
        elif r == 4: j = rnd.randrange(len(data)); data[i:i] = data[j:j + rnd.randrange(1, 40)]
        elif r == 5: data[i:i] = b"a" * rnd.choice([100, 251, 500, 3000])
        elif r == 6: data = data[:i]
        elif r == 7: data[i:i + 1] = rnd.choice([b"get ", b"set ", b"9", b"99999", b" 0 0 300\r\n", b"incr "])
    return bytes(data)


def s_fuzz(seed, binary, streams=60):
    """arbitrary bytes on some connections; an observer's keys and requests are not affected"""
    rnd = random.Random(seed)
    kind = rnd.choice(["unix", "tcp"])
    s = Session(binary, "fuzz", seed, page="16K", mem="16M", tcp=kind == "tcp", unix=kind == "unix")
    g = Gen(s, nk=4, noreply_p=0.1, ttl_p=0, ns=b"protected-", sizes=(10, 60, 200, 480, 1000, 5000), verbs=[v for v in VERBS if v != "flush_all"])
    o = s.conn(kind=kind)
    f = Session.__new__(Session)          # makes requests only
    f.rnd, f.blobs, f.tokens, f.t, f.n, f.dead = rnd, server.Blobs(), server.Tokens(), s.t, 0, False
    fg = Gen(f, nk=4, ns=b"fz", sizes=(10, 60, 200, 480, 1000, 3000))
    class X: rep = server.Replies(f.blobs, f.tokens)
    stalled = []
    for _ in range(streams):
        if not s.d.alive(): break
        x = socket.socket(socket.AF_UNIX if kind == "unix" else socket.AF_INET); x.settimeout(5)
        try:
            x.connect(s.d.path if kind == "unix" else ("127.0.0.1", s.d.tcp))
            r = rnd.random()
            if r < 0.75: data = mutate(rnd, b"".join(fg.next(X).bytes for _ in range(rnd.randrange(1, 7))))
            elif r < 0.85: data = bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 10, 100, 600])))
            elif r < 0.92: data = b"\x80" + bytes(rnd.randrange(256) for _ in range(rnd.choice([0, 5, 23, 100])))
            else: data = rnd.choice([b"get " + b"k" * 40000, b"set fzq 0 0 16000\r\n" + b"z" * 9000, b"\r\n" * 200, b"a" * 70000 + b"\r\n", b"get" + b" fz1" * 3000 + b"\r\n", b"quit\r\nget fz1\r\n"])
            i = 0
            while i < len(data):
                k = rnd.choice([len(data), len(data), 1, 3, 50, 500]); x.send(data[i:i + k]); i += k
                if rnd.random() < 0.2: o.do(g.next(o, noreply=False))
            x.setblocking(False)
            try: x.recv(1 << 20)
            except BlockingIOError: pass
        except OSError:
            pass
        if rnd.random() < 0.2 and len(stalled) < 6: stalled.append(x)       # stays open in the middle of something
        else:
            if rnd.random() < 0.3 and kind == "tcp": x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))     # RST
            x.close()
        o.do(g.next(o, noreply=False))
    for k in g.keys: o.do(s.req([b"gets", k]))
    y = s.conn(kind=kind); y.do(s.req([b"gets"] + g.keys[:3]))
    for x in stalled: x.close()
    o.do(s.req([b"gets"] + g.keys[:3]))
    return s.finish()


def s_limit(seed, binary):
    """a line without end exceeds the receive buffer limit: that connection is closed, the others are served"""
    s = Session(binary, "limit", seed, unix=True)
    c, o = s.conn(), s.conn()
    o.do(s.req([b"set", b"k", b"1", b"0", b"1"], [49]))
    c.s.setblocking(True); c.s.settimeout(60)
    sent = 0
    junk = b"a" * (1 << 20)
    try:
        while sent < 40 << 20:
            sent += c.s.send(junk)
    except OSError:
        pass
    c.s.setblocking(False)
    c.ended(True)
    o.do(s.req([b"gets", b"k"]))
    return s.finish()


def c14(chk):
    a, b = server.daemon_binary("asan"), server.daemon_binary()
    server.validate(chk, "malformed requests", s_malformed, n(chk, 50, 800), binary=b)
    server.validate(chk, "malformed requests (asan)", s_malformed, n(chk, 16, 200), binary=a)
    server.validate(chk, "malformed requests (debug build)", s_malformed, n(chk, 10, 150), binary=server.daemon_binary("debug"))
    server.validate(chk, "every small line", s_lines, 16, binary=b, parts=16)
    server.validate(chk, "nearly commands", s_near, 8, binary=b, parts=8)
    server.validate(chk, "arbitrary bytes (asan)", s_fuzz, n(chk, 40, 600), binary=a)
    server.validate(chk, "receive buffer limit", s_limit, 1, binary=b)


# ------------------------------------------------------------------------------------------------- C15
def bad_header(rnd, u):
    r = rnd.randrange(5)
    if r == 0: return {"hdr": u.header(seq=rnd.choice([1, 2, 255, 256, 65535]))}
    if r == 1: return {"hdr": u.header(npk=rnd.choice([2, 3, 256, 257, 65535]))}
    if r == 2: return {"hdr": u.header(rsv=rnd.choice([1, 128, 256, 65535]))}
    if r == 3: return {"short": rnd.randrange(0, 8)}
    return {"hdr": u.header(seq=1, npk=2)}


def cut_of(rnd, r):
    """an incomplete request: the line or its data block is not complete"""
    n = len(r.bytes)
    return rnd.choice([0, 1, 2, len(r.head) - 1, len(r.head) - 2, len(r.head), n - 1, n - 2, rnd.randrange(0, n)]) if len(r.head) < n else rnd.choice([0, 1, n - 1, n - 2, rnd.randrange(0, n)])


def s_udp(seed, binary, ops=70, noise=False):
    rnd = random.Random(seed)
    s = Session(binary, "udp", seed, udp=True, unix=True, page="256K", mem="4M")
    g = Gen(s, nk=rnd.choice([3, 6]), ttl_p=0, noreply_p=rnd.choice([0.05, 0.3]), ns=b"protected-" if noise else b"",
            sizes=(10, 60, 118, 125, 200, 470, 480, 490, 500, 510, 700, 1000, 1400, 3000), maxget=4)
    big = Gen(s, nk=2, sizes=(20000, 40000, 55000), ns=b"big")
    us = [server.Udp(s) for _ in range(rnd.choice([1, 2, 4]))]
    c = s.conn()
    for i, k in enumerate(big.keys):
        p = [big.blobs[rnd.randrange(3)]]; c.do(s.req([b"set", k, b"%d" % i, b"0", b"%d" % len(s.blobs.encode(p))], p))
    p = [s.blobs.new(150000)]; c.do(s.req([b"set", b"huge", b"0", b"0", b"150000"], p))
    f = Session.__new__(Session)
    f.rnd, f.blobs, f.tokens, f.t, f.n, f.dead = rnd, server.Blobs(), server.Tokens(), s.t, 0, False
    fg = Gen(f, nk=4, ns=b"fz", sizes=(10, 60, 200, 480, 1000, 3000))
    noisy = []
    if noise:
        for _ in range(2):
            x = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); x.connect(("127.0.0.1", s.d.udp)); x.setblocking(False); noisy.append(x)
    class X: rep = server.Replies(f.blobs, f.tokens)
    for _ in range(ops):
        if s.dead or not s.d.alive(): break
        u = rnd.choice(us)
        r = rnd.random()
        if r < 0.4: u.do(g.next(u))
        elif r < 0.5: u.do(g.next(u), **bad_header(rnd, u))
        elif r < 0.6:
            q = g.next(u, verb=rnd.choice(["set", "set", "cas", "append", None]))
            u.do(q, cut=cut_of(rnd, q))
        elif r < 0.65:
            w, d, t = malformed(rnd, rnd.choice(g.keys), 1 << 18)
            q = s.req(w, d, t) if d is not None else s.req(w)
            q.noreply = False; u.do(q)
        elif r < 0.7: u.do(s.req([rnd.choice([b"get", b"gets"]), rnd.choice(big.keys)]))
        elif r < 0.73:           # the reply does not fit in a datagram
            op = u.send(s.req([b"get", b"huge"])); op["lossy"] = True; u.settle()
        elif r < 0.8: c.do(g.next(c))
        elif noise:
            x = rnd.choice(noisy)
            for _ in range(rnd.randrange(1, 4)):
                d = mutate(rnd, struct.pack(">HHHH", rnd.getrandbits(16), 0, 1, 0) + b"".join(fg.next(X).bytes for _ in range(rnd.choice([1, 1, 2]))))
                if rnd.random() < 0.3: d = struct.pack(">HHHH", rnd.getrandbits(16), 0, 1, 0) + d[8:]
                if rnd.random() < 0.05: d = rnd.choice([b"", b"\x80", d[:8] + b"\x80" + d[8:], d[:8] + b"quit\r\n", d[:8] + b"a" * 60000, d[:8] + b"get " + b"fz " * 18000 + b"\r\n"])
                try: x.send(d)
                except OSError: pass
            u.settle()
            for x in noisy:
                try:
                    while True: x.recv(1 << 17)
                except OSError: pass
        else:                    # a burst of several senders
            todo = {id(x): (x, []) for x in us}
            for _ in range(rnd.randrange(2, 10)):
                x = rnd.choice(us); z = rnd.random()
                q = g.next(x, verb=rnd.choice(["get", "gets", "incr", "set", "delete", "append", "add"]))
                if q.op["w"][0] in ("get", "gets") and len(q.op["w"]) > 3: continue
                if z < 0.7:
                    op = x.send(q)
                    if not q.noreply: todo[id(x)][1].append(op)
                elif z < 0.85: x.send(q, **bad_header(rnd, x))
                else: x.send(q, cut=cut_of(rnd, q))
            for x, l in todo.values(): x.settle(l)
    for u in us: u.settle()
    for k in g.keys: c.do(s.req([b"gets", k]))
    for k in g.keys: us[0].do(s.req([b"gets", k]))
    for x in noisy: x.close()
    return s.finish()


def c15(chk):
    b = server.daemon_binary()
    chk.model("UdpServer", "UdpServer_t.cfg" if chk.thorough else "UdpServer_q.cfg")
    server.validate(chk, "datagrams", s_udp, n(chk, 80, 1200), binary=b)
    server.validate(chk, "datagrams (debug build)", s_udp, n(chk, 12, 150), binary=server.daemon_binary("debug"))
    server.validate(chk, "datagrams and noise (asan)", s_udp, n(chk, 24, 400), binary=server.daemon_binary("asan"), noise=True)


# ------------------------------------------------------------------------------------------------- C16
SAFE_NOREPLY = ("set", "add", "replace", "delete", "touch")


def s_conc(seed, binary, ops=150, faults=True):
    """many clients with requests under way at the same time; some of them stall, are slow or go away"""
    rnd = random.Random(seed)
    udp = rnd.random() < 0.7
    s = Session(binary, "conc", seed, tcp=True, unix=True, udp=udp, page="1M", mem="32M")
    g = Gen(s, nk=rnd.choice([1, 2, 3, 5]), noreply_p=0, ttl_p=0, sizes=(10, 60, 200, 480, 500, 3000), maxget=3)
    cs = [s.conn(kind=rnd.choice(["unix", "tcp"])) for _ in range(rnd.choice([2, 3, 4]))]
    us = [server.Udp(s) for _ in range(rnd.choice([1, 2]))] if udp else []
    c0 = s.conn(kind="unix")
    p = [s.blobs.new(700000)]; c0.do(s.req([b"set", b"huge", b"0", b"0", b"700000"], p))
    tails = {id(c): b"" for c in cs}             # bytes of a request that are still to be sent
    busy = {id(u): None for u in us}
    others, lost = [], 0
    def poll(c):
        while c.pump(0): pass
        if not tails[id(c)] and not c.rep.want and c.open_ops:
            c.close_ops(); c.note(o="sync", n=len(c.rep.items))
    def poll_udp(u):
        while u.pump(0): pass
        if busy[id(u)] is not None and busy[id(u)]["rep"]: u.close_ops(); busy[id(u)] = None
    def finish(c):
        if tails[id(c)]:
            for q in pend.pop(id(c)): c.expect(q)
            c.push(tails[id(c)]); tails[id(c)] = b""
    pend = {}
    for _ in range(ops):
        if s.dead or not s.d.alive(): break
        if rnd.random() < 0.35:
            for x in rnd.sample(cs, 2): poll(x)
        r = rnd.random()
        if r < 0.55:
            c = rnd.choice(cs)
            poll(c)
            if tails[id(c)]: finish(c)
            elif len(c.rep.want) < 2:
                qs = [g.next(c)]
                if rnd.random() < 0.2: qs = [g.next(c, verb=rnd.choice(SAFE_NOREPLY), noreply=True)] + qs
                data = b"".join(q.bytes for q in qs)
                if rnd.random() < 0.3:           # the end of it comes later
                    k = rnd.randrange(max(1, len(data) - len(qs[-1].bytes)), len(data))
                    for q in qs[:-1]: c.expect(q)
                    c.push(data[:k]); tails[id(c)] = data[k:]; pend[id(c)] = qs[-1:]
                else:
                    for q in qs: c.expect(q)
                    c.push(data)
        elif r < 0.65 and us:
            u = rnd.choice(us)
            poll_udp(u)
            if busy[id(u)] is None: busy[id(u)] = u.send(g.next(u))
        elif r < 0.72: poll(rnd.choice(cs))
        elif r < 0.76:
            for c in cs: poll(c)
            for u in us: poll_udp(u)
        elif r < 0.80:           # everybody gets what is due
            for c in cs: finish(c); c.sync()
            for u in us:
                if busy[id(u)] is not None: u.until([busy[id(u)]]); u.close_ops(); busy[id(u)] = None
        elif r < 0.84 and faults and len(others) < 8:        # a client that asks for a lot and does not read
            x = socket.socket(socket.AF_UNIX); x.settimeout(5); x.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
            x.connect(s.d.path); x.send(b"get huge\r\n" * rnd.choice([1, 5, 20]) + rnd.choice([b"", b"set zz 0 0 10\r\nab"])); others.append(x)
        elif r < 0.88 and faults and len(others) < 8:        # a client in the middle of a request
            x = socket.create_connection(("127.0.0.1", s.d.tcp), 5)
            q = g.next(c0, verb=rnd.choice(["set", "get", "append", "incr", "delete"])); x.send(q.bytes[:rnd.randrange(0, len(q.bytes) - 1)]); others.append(x)
        elif r < 0.92 and others:            # goes away, orderly or not
            x = others.pop(rnd.randrange(len(others)))
            if x.family == socket.AF_INET and rnd.random() < 0.5: x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            x.close()
        elif r < 0.94 and faults and lost < 1:
            lost += 1
            x = s.conn(kind=rnd.choice(["unix", "tcp"]))
            q = g.next(x, verb=rnd.choice(["set", "add", "delete"]), noreply=True)
            q.op["o"] = "lost"; x.record(q.op); x.push(q.bytes)
            for o in x.open_ops: o["res"] = 10**9
            x.open_ops = []; x.close()
        elif r < 0.96 and len(cs) < 5 and len(s.conns) < 9:
            c = s.conn(kind=rnd.choice(["unix", "tcp"])); cs.append(c); tails[id(c)] = b""
        elif r < 0.97 and len(cs) > 2:
            c = cs.pop(rnd.randrange(len(cs))); finish(c); c.sync(); c.close()
    for c in cs: finish(c); c.sync()
    for u in us:
        if busy[id(u)] is not None: u.until([busy[id(u)]]); u.close_ops(); busy[id(u)] = None
    for k in g.keys: c0.do(s.req([b"gets", k]))
    for x in others: x.close()
    for k in g.keys[:2]: c0.do(s.req([b"gets", k]))
    return s.finish()


def s_hammer(seed, binary, clients=6, each=60):
    """clients in threads on one counter and one list: every reply tells the order"""
    import threading
    rnd = random.Random(seed)
    s = Session(binary, "hammer", seed, tcp=True, unix=True, page="256K", mem="4M")
    c0 = s.conn(); c0.do(s.req([b"set", b"n", b"0", b"0", b"1"], [48]))
    cs = [s.conn(kind=rnd.choice(["unix", "tcp"])) for _ in range(clients)]
    plans = [[rnd.random() for _ in range(each)] for _ in cs]
    lock = threading.Lock(); stamp0 = s.stamp
    def stamp():
        with lock: return stamp0()
    s.stamp = stamp
    reqs = [[s.req([b"incr", b"n", b"1"]) if x < 0.8 else s.req([b"get", b"n"]) if x < 0.9 else s.req([b"decr", b"n", b"3"]) for x in pl] for pl in plans]
    go = threading.Barrier(clients)
    def run(c, rs):
        go.wait()
        for r in rs:
            if s.dead: return
            c.expect(r); c.push(r.bytes)
            c.until(lambda: not c.rep.want)
            c.close_ops()
        c.note(o="sync", n=len(c.rep.items))
    ts = [threading.Thread(target=run, args=(c, r)) for c, r in zip(cs, reqs)]
    for t in ts: t.start()
    for t in ts: t.join()
    c0.do(s.req([b"get", b"n"]))
    return s.finish()


def s_crowd(seed, binary, clients=150):
    """many connections at the same time, opened and closed in any order"""
    rnd = random.Random(seed)
    s = Session(binary, "crowd", seed, tcp=True, unix=True)
    socks = []
    c = s.conn(); c.do(s.req([b"set", b"k", b"1", b"0", b"1"], [49]))
    k = [0]
    for _ in range(clients):
        x = s.conn(kind=rnd.choice(["unix", "tcp"])); socks.append(x)
        if rnd.random() < 0.5:
            y = rnd.choice(socks)
            if rnd.random() < 0.3: y.close(); socks.remove(y)
            else: y.do(s.req([b"incr", b"k", b"1"]))
    rnd.shuffle(socks)
    for x in socks[:60]: x.do(s.req([b"incr", b"k", b"1"]))
    t = s.finish()
    # one history in one line: the operations are sequential, so they are told as those of one connection each (few words)
    return t


def s_scarce(seed, binary):
    """more clients than descriptors: they wait, and are served as soon as others leave"""
    import resource
    rnd = random.Random(seed)
    s = Session(binary, "scarce", seed, tcp=True, unix=True)
    c = s.conn(); c.do(s.req([b"set", b"k", b"1", b"0", b"1"], [49]))
    have = len(os.listdir("/proc/%d/fd" % s.d.p.pid)); room = rnd.choice([3, 6, 12])
    top = max(int(x) for x in os.listdir("/proc/%d/fd" % s.d.p.pid)) + 1
    resource.prlimit(s.d.p.pid, resource.RLIMIT_NOFILE, (max(have, top) + room, max(have, top) + room))
    for _ in range(rnd.choice([1, 2, 3])):
        kind = rnd.choice(["unix", "tcp", "mixed"])
        xs = [s.conn(kind=rnd.choice(["unix", "tcp"]) if kind == "mixed" else kind) for _ in range(room + rnd.choice([2, 6, 20]))]
        for x in xs:
            r = s.req([b"incr", b"k", b"1"]); x.expect(r); x.out += r.bytes
        end = time.time() + 0.1 + rnd.random() * 0.2
        while time.time() < end:
            for x in xs: x.pump(0)
            time.sleep(0.01)
        c.do(s.req([b"get", b"k"]))     # those who are connected are not affected
        left = list(xs); end = time.time() + server.TIMEOUT
        while left and time.time() < end and not s.dead:
            for x in left: x.pump(0)
            for x in [x for x in left if x.rep.done]: x.sync(); x.close(); left.remove(x)
            time.sleep(0.005)
        for x in left: x.sync(); x.close()
        c.do(s.req([b"get", b"k"]))
    x = s.conn(kind=rnd.choice(["unix", "tcp"])); x.do(s.req([b"get", b"k"]))
    return s.finish()


def c16(chk):
    b = server.daemon_binary()
    chk.model("Reactor", "Reactor_q.cfg")
    if chk.thorough: chk.model("Reactor", "Reactor_t.cfg")
    server.validate(chk, "concurrent clients", s_conc, n(chk, 40, 900), binary=b)
    server.validate(chk, "concurrent clients (asan)", s_conc, n(chk, 16, 200), binary=server.daemon_binary("asan"))
    server.validate(chk, "one counter", s_hammer, n(chk, 8, 80), workers=2, binary=b)
    server.validate(chk, "crowd", s_crowd, n(chk, 4, 40), binary=b)
    server.validate(chk, "more clients than descriptors", s_scarce, n(chk, 6, 60), binary=b)
