"""C19 (configurations), C20 (IO buffer), C21 (decimal conversion), C22 (signals)"""
import os, random, signal, socket, struct, subprocess, time
import vt, server
from vt import HARN
from server import Session


# ------------------------------------------------------------------------------------------------- C21
BITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64}
LIM = {t: ((-(1 << b - 1), (1 << b - 1) - 1) if t[0] == "i" else (0, (1 << b) - 1)) for t, b in BITS.items()}


def exec_conv(mode="release"):
    return vt.build("exec_conv", [HARN + "/exec_conv.cpp"], mode)


def conv_values(rnd, t, k):
    lo, hi = LIM[t]
    out = set()
    for e in range(0, 21):
        for m in (1, 2, 5, 9):
            for d in (-2, -1, 0, 1): out |= {m * 10**e + d, -(m * 10**e + d)}
    for b in range(65):
        for d in (-1, 0, 1): out |= {(1 << b) + d, -(1 << b) + d}
    for _ in range(k):
        out.add(rnd.getrandbits(rnd.randrange(1, 65)) * rnd.choice([1, -1]))
        out.add(int("".join(rnd.choice("0001999") for _ in range(rnd.randrange(1, 21)))))
    return sorted(x for x in out if lo <= x <= hi)


def conv_texts(rnd, t, k):
    out = [b"", b"-", b"+", b"--1", b"+1", b"-0", b"00", b"-00", b" 1", b"1 ", b"1\0", b"\0", b"0x1", b"1.", b"1e1", b"\xff", b"-\xff", b"\xb1", b"1\xb1"]
    for t2 in BITS:
        for v in LIM[t2]:
            for d in (-11, -10, -2, -1, 0, 1, 2, 9, 10, 11):
                s = b"%d" % (v + d); out += [s, b"-" + s.lstrip(b"-")]
                for z in (1, 2, 24 - len(s)):
                    if z > 0: out.append((b"-" if s[:1] == b"-" else b"") + b"0" * z + s.lstrip(b"-"))
    for n in range(1, 25):
        for c in b"019": out += [bytes([c]) * n, b"-" + bytes([c]) * (n - 1), b"1" + bytes([c]) * (n - 1), b"0" * (n - 1) + bytes([c])]
    for _ in range(k):
        s = bytearray(b"%d" % rnd.getrandbits(rnd.choice([8, 9, 16, 17, 32, 33, 63, 64, 65, 66])))
        r = rnd.random()
        if r < 0.3: s[rnd.randrange(len(s))] = rnd.randrange(256)
        elif r < 0.4: s.insert(0, 45)
        elif r < 0.5: s = bytearray(rnd.randrange(256) for _ in range(rnd.randrange(0, 25)))
        elif r < 0.6: s = bytearray(rnd.choice(b"0123456789-") for _ in range(rnd.randrange(1, 25)))
        elif r < 0.7: s[rnd.randrange(len(s))] = rnd.choice(b"0123456789")
        out.append(bytes(s[:24]))
    return out


def c21(chk):
    chk.model("MCDecimal", "MCDecimal.cfg")
    b, a = exec_conv(), exec_conv("asan")
    rnd = random.Random("%d/C21" % chk.seed)
    S = []
    for t in BITS:
        vs = conv_values(rnd, t, 20000 if chk.thorough else 300)
        L = ["f %s %d" % (t, v) for v in vs] + ["p %s %s" % (t, (b"%d" % v).hex()) for v in vs]
        L += ["p %s %s" % (t, x.hex() or "-") for x in conv_texts(rnd, t, 20000 if chk.thorough else 600)]
        S += ["T\n" + "\n".join(L[i:i + 400]) + "\n" for i in range(0, len(L), 400)]
    # every value of the small types, every text of up to two bytes
    for t in ("i8", "u8"): S.append("T\nr %s %d %d\n" % ((t,) + LIM[t]))
    step = 1 if chk.thorough else 8
    for t in ("i16", "u16"):
        lo, hi = LIM[t]
        blocks = [(k, min(hi, k + 511)) for k in range(lo, hi + 1, 512)]
        if not chk.thorough: blocks = [x for i, x in enumerate(blocks) if i % 4 == chk.seed % 4 or i in (0, len(blocks) - 1)]
        S += ["T\nr %s %d %d\n" % ((t,) + x) for x in blocks]
    texts = [bytes([x]) for x in range(256)] + [bytes([x, y]) for x in range(256) for y in list(range(43, 60)) + [0, 128, 255]]
    for t in BITS if chk.thorough else ("i8", "u64"):
        S += ["T\n" + "\n".join("p %s %s" % (t, x.hex()) for x in texts[i:i + 500]) + "\n" for i in range(0, len(texts), 500)]
    vt.validate(chk, "conversions", b, "ConvTrace", S)
    edge = ["T\n" + "\n".join("p %s %s" % (t, x.hex() or "-") for x in conv_texts(rnd, t, 0)[:60]) + "\n" for t in BITS]
    vt.validate(chk, "conversions (asan)", a, "ConvTrace", edge + S[::6])


# ------------------------------------------------------------------------------------------------- C20
def exec_iobuf(mode="release"):
    return vt.build("exec_iobuf", [HARN + "/exec_iobuf.cpp"], mode, defines=["FAULT_WRAP_REALLOC"], libs=["-Wl,--wrap=realloc"])


class BufGen:
    """legal scripts need the position after a search: keep the content as run lengths here too"""
    def __init__(self, rnd, ops, maxes, scale):
        self.rnd = rnd
        mx = rnd.choice(maxes)
        init = rnd.choice([0, 1, min(mx, 10), mx, mx // 2, mx + 1 if rnd.random() < 0.2 else mx, 500 if mx >= 500 else 0])
        L = self.L = ["B %d %d" % (init, mx)]
        self.data = bytearray(); rp = 0; rs, ws = [], []; last = 0
        if init > mx: ops = 0
        for _ in range(ops):
            r = rnd.random(); wp = len(self.data)
            if r < 0.34:
                free = mx - wp
                n = max(1, rnd.choice([1, 2, 5, rnd.randrange(1, scale), free, free + 1, free - 1, rnd.randrange(1, mx + 2)]))
                m = rnd.choice([n, n, n, rnd.randrange(0, n + 1)])
                runs, left = [], m
                while left > 0:
                    if rnd.random() < 0.15 and left >= 2: runs += [(13, 1), (10, 1)]; left -= 2; last = 10; continue
                    k = min(left, rnd.choice([1, 1, 2, 3, rnd.randrange(1, scale)])) if len(runs) < 25 else left
                    b = rnd.choice([13, 10, 97, 98, 97, rnd.randrange(256)])
                    if b == last and rnd.random() < 0.7: b = (b + 1) % 256
                    last = b
                    runs.append((b, k)); left -= k
                L.append("w %d %s" % (n, ",".join("%d:%d" % x for x in runs)))
                if n <= free: self.data += b"".join(bytes([b]) * k for b, k in runs)
            elif r < 0.38: L.append("e %d" % max(1, rnd.choice([1, mx - wp, mx - wp + 1, rnd.randrange(1, mx + 1)])))
            elif r < 0.5:
                n = rnd.choice([0, wp - rp, rnd.randrange(0, wp - rp + 1), min(wp - rp, 1)]); L.append("r %d" % n); rp += n
            elif r < 0.53: L.append("a"); rp = wp
            elif r < 0.65:
                t = rnd.choice([b"\r\n", b"\r\n", b"\r\n", b"\n", b"\r", b"ab", b"\r\r", b"a"]); L.append("u " + t.hex())
                k = self.data.find(t, rp)
                if k >= 0: rp = k + len(t)
            elif r < 0.70: L.append("s"); rs.append(rp)
            elif r < 0.75: L.append("S"); ws.append(wp)
            elif r < 0.83:
                if rs and rs[-1] <= rp: L.append("R"); rp = rs.pop()
            elif r < 0.88:
                if ws and rp <= ws[-1] <= wp:
                    L.append("W"); x = ws.pop(); del self.data[x:]
                    if any(y > x for y in rs): L.append("c"); del self.data[:rp]; rp = 0; rs, ws = [], []
            elif r < 0.93: L.append("c"); del self.data[:rp]; rp = 0; rs, ws = [], []
            elif r < 0.94: L.append("z"); self.data = bytearray(); rp = 0; rs, ws = [], []
            else: L.append("n")
        if ops: L.append("n")

    def text(self, faults=False):
        """faults: before a write, memory for the growth it needs is denied"""
        out = []
        for l in self.L:
            if faults and l[:2] == "w " and self.rnd.random() < 0.7: out += ["!1 e " + l.split()[1]] + ["n"] * (self.rnd.random() < 0.5)
            out.append(l)
        return "\n".join(out) + "\n"


def slice_scripts(rnd, count):
    L = []
    for _ in range(count):
        op = rnd.choice(["search", "search", "split", "splitc", "starts", "ends", "has", "eq", "trim"])
        al = rnd.choice([b"ab", b"\r\n", b"\r\na", b"abc \0\xff"])
        a = bytes(rnd.choice(al) for _ in range(rnd.choice([0, 1, 2, 3, 5, 9, 20])))
        if op == "eq": b = a if rnd.random() < 0.4 else bytes(rnd.choice(al) for _ in range(len(a) + rnd.choice([0, 0, 1])))
        elif op == "trim":
            if not a: continue
            b = a[:rnd.randrange(0, len(a) + 1)]
        elif op == "splitc": b = bytes([rnd.choice(al)])
        else:
            b = bytes(rnd.choice(al) for _ in range(rnd.randrange(1, 4)))
            if a and rnd.random() < 0.3: i = rnd.randrange(len(a)); b = a[i:i + rnd.randrange(1, 4)]
            if op == "ends" and (not a or len(b) > len(a)) and not a: continue
        L.append("x %s %s %s" % (op, a.hex() or "-", b.hex() or "-"))
    return "X\n" + "\n".join(L) + "\n"


def c20(chk):
    chk.model("MCIoBuf", "MCIoBuf_q.cfg")
    if chk.thorough: chk.model("MCIoBuf", "MCIoBuf_t.cfg", timeout=3000)
    b, d, a = exec_iobuf(), exec_iobuf("debug"), exec_iobuf("asan")
    rnd = random.Random("%d/C20" % chk.seed)
    q = 15 if chk.thorough else 1
    small = [BufGen(rnd, 150, [1, 2, 3, 5, 8, 20, 100], 6).text() for _ in range(120 * q)]
    mid = [BufGen(rnd, 150, [499, 500, 501, 600, 1000, 1500, 2500, 5000], 200).text() for _ in range(80 * q)]
    big = [BufGen(rnd, 40, [100000, 1 << 20, 3 << 20, 30 << 20], 30000).text() for _ in range(12 * q)]
    vt.validate(chk, "buffer histories", b, "IoBufTrace", small + mid + big)
    vt.validate(chk, "buffer histories (asan)", a, "IoBufTrace", [BufGen(rnd, 120, [1, 3, 8, 100, 500, 1000, 2500], 100).text() for _ in range(40 * q)])
    vt.validate(chk, "buffer histories (debug build)", d, "IoBufTrace", [BufGen(rnd, 120, [1, 3, 8, 100, 500, 1000, 2500], 100).text() for _ in range(30 * q)])
    vt.validate(chk, "failing allocations (asan)", a, "IoBufTrace", [BufGen(rnd, 120, [1, 3, 8, 100, 500, 1000, 2500, 100000], 100).text(True) for _ in range(40 * q)])
    vt.validate(chk, "slices", a, "IoBufTrace", [slice_scripts(rnd, 200) for _ in range(20 * q)])


# ------------------------------------------------------------------------------------------------- C19
def exec_conf(mode="release"):
    return vt.build("exec_conf", [HARN + "/exec_conf.cpp"], mode)


def log2(x):
    return x.bit_length() - 1 if x > 0 and x & (x - 1) == 0 else None


def runnable(m, p, h):
    """may be tried: either refused by the rules, or not too expensive"""
    a, b, c = log2(m), log2(p), log2(h)
    if a is None or b is None or c is None: return c is None or c <= 22 or c >= 32
    if not (8 <= b <= 31 and a >= b + 2 and c <= 31): return c <= 22 or c >= 32
    return a <= 32 and a - b <= 14 and c <= 22


def create_scripts(rnd, count, every):
    odd = [0, 1, 2, 3, 100, 255, 257, 384, 1000, 1023, 4095, 4097, 6 << 10, (1 << 20) - 1, (1 << 20) + 1, 3 << 20, (1 << 31) + 1, (1 << 31) - 1, (1 << 32) - 1, (1 << 32) + 1, (1 << 33) + 512, (1 << 63) + 1, (1 << 63) - 1, (1 << 64) - 1]
    C = []
    def add(m, p, h):
        if runnable(m, p, h): C.append((m, p, h))
    for p in range(0, 64):                      # the borders of every page size
        for d in (-1, 0, 1, 2, 3, 4):
            if 0 <= p + d <= 63: add(1 << p + d, 1 << p, 16)
            if 0 <= p + d <= 63: add(3 << max(0, p + d - 1) & (1 << 64) - 1, 1 << p, 16)
    for x in odd:
        for y in (256, 1024, 1 << 20):
            add(x, y, 16); add(1 << 22, x, 16); add(y * 4, y, x)
    for h in range(0, 23): add(4096, 1024, 1 << h); add(4096, 1024, (1 << h) + 1); add(4096, 1024, max(0, (1 << h) - 1))
    for h in range(32, 64): add(4096, 1024, 1 << h); add(1 << 22, 1 << 20, (1 << h) | 1024)
    for m in range(0, 64):
        for p in (0, 1, 4, 7, 8, 9, 12, 20, 31, 32, 33, 62, 63):
            add(1 << m, 1 << p, 64)
    for _ in range(count):
        f = lambda: rnd.choice(odd) if rnd.random() < 0.2 else (1 << rnd.randrange(0, 64)) + rnd.choice([0, 0, 0, 0, 1, -1, 1 << rnd.randrange(0, 63)])
        m, p, h = (x & (1 << 64) - 1 for x in (f(), f(), rnd.choice([f(), 1, 16, 1024, 65536])))
        add(m, p, h)
        b = rnd.randrange(8, 20); add(1 << b + rnd.randrange(0, 6), 1 << b, 1 << rnd.randrange(0, 12))
    L = ["c %s %d %d %d %d" % ("c" if i % every == 0 else "cpp", m, p, h, rnd.randrange(2)) for i, (m, p, h) in enumerate(C)]
    return ["T\n" + "\n".join(L[i:i + 40]) + "\n" for i in range(0, len(L), 40)]


def fill_scripts(thorough):
    G = []
    for b in range(8, 27):
        for a in range(b + 2, b + 13):
            if a <= 26 or (a == b + 2 and a <= 28): G.append((a, b))
    if thorough: G += [(a, b) for b in range(8, 29) for a in range(27, 31) if b + 2 <= a <= b + 16]
    S = ["T\nf %d %d %d\n" % (1 << a, 1 << b, 1 << ((a + b) % 12)) for a, b in G if thorough or a <= 22 or a - b in (2, 3, 5) ]
    return S


def _listening(pid):
    """endpoints of a process: set of (kind, port or path)"""
    ino = set()
    for fd in os.listdir("/proc/%d/fd" % pid):
        try:
            l = os.readlink("/proc/%d/fd/%s" % (pid, fd))
            if l.startswith("socket:["): ino.add(l[8:-1])
        except OSError: pass
    out = []
    for kind in ("tcp", "tcp6", "udp", "udp6"):
        try:
            for line in open("/proc/%d/net/%s" % (pid, kind)).read().splitlines()[1:]:
                w = line.split()
                if w[9] in ino and (kind.startswith("udp") or w[3] == "0A"): out.append("%s:%d" % (kind[:3], int(w[1].split(":")[1], 16)))
        except OSError: pass
    try:
        for line in open("/proc/%d/net/unix" % pid).read().splitlines()[1:]:
            w = line.split()
            if w[6] in ino and len(w) > 7 and w[3] == "00010000": out.append("unix:" + os.path.basename(w[7]))
    except OSError: pass
    return sorted(out)


def _ask(kind, addr, text=b"version\r\n", end=b"\r\n"):
    """one request; the answer, or None"""
    try:
        if kind == "udp":
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); s.settimeout(3); s.connect(("127.0.0.1", addr))
            for _ in range(3):
                s.send(struct.pack(">HHHH", 7, 0, 1, 0) + text)
                try: return s.recv(65536)[8:]
                except socket.timeout: pass
            return None
        s = socket.socket(socket.AF_UNIX if kind == "unix" else socket.AF_INET); s.settimeout(server.TIMEOUT)
        s.connect(addr if kind == "unix" else ("127.0.0.1", addr))
        s.sendall(text); b = b""
        while not b.endswith(end):
            x = s.recv(65536)
            if not x: break
            b += x
        s.close()
        return b
    except OSError:
        return None


def daemon_try(job):
    """start the daemon with the given options; returns the event"""
    binary, opts, want, extra, evict = job
    base = os.path.join(vt.BUILD, "d"); os.makedirs(base, exist_ok=True)
    import shutil, tempfile, resource
    ev = None
    for attempt in range(8):
        d = tempfile.mkdtemp(dir=base)
        try:
            cmd, has, ports = [binary], {"m": None, "p": None, "h": None}, {}
            for o in opts:
                if o[0] in "mph" and len(o[0]) == 1:
                    has[o[0]] = o[2]; cmd += [x if x is not None else o[2] for x in o[1]] if o[1][-1] is None else [o[1][0] + o[2]]
                else: cmd += o[1]
            for k in ("tcp", "udp"):
                if k in want and want[k] == "default": ports[k] = 11211
                elif k in want: ports[k] = server.free_port(socket.SOCK_STREAM if k == "tcp" else socket.SOCK_DGRAM); cmd += [{"tcp": "-p", "udp": "-U"}[k], str(ports[k])]
                else: cmd += [{"tcp": "-p", "udp": "-U"}[k], "0"]
            path = os.path.join(d, "sock")
            if "unix" in want: cmd += ["-s", path]
            errf = open(os.path.join(d, "err"), "wb")
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=errf, stderr=errf, cwd=d,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)) if "asan" not in binary else None)
            wanted = sorted(["%s:%d" % (k, v) for k, v in ports.items()] + (["unix:sock"] if "unix" in want else []))
            end = time.time() + server.TIMEOUT; served, steady = [], 0
            while time.time() < end and p.poll() is None:
                served = _listening(p.pid)
                if served == wanted: steady += 1
                if steady >= 3 and wanted: break
                if not wanted and time.time() > end - server.TIMEOUT + 1.5: break
                time.sleep(0.005 if steady == 0 else 0.02)
            if p.poll() is None and wanted: time.sleep(0.1); served = _listening(p.pid)
            up = p.poll() is None
            err = open(os.path.join(d, "err"), "rb").read()
            if not up and b"Address already in use" in err and attempt < 7:
                if "default" in want.values(): return None
                continue
            ev = {"o": "daemon", "up": up, "rc": p.returncode if not up else 0, "want": wanted, "served": served, "answers": [], "extra": extra, "stats": False,
                  "cmd": [enc_word(x) for x in cmd[1:]], "err": enc_word(err.decode(errors="replace")[-150:]), "lim": [], "pg": [], "hc": [], "evicts": False, "want_evict": evict}
            for k in "mph":
                ev["has_" + k] = has[k] is not None; ev[k] = list((has[k] or "").encode())
            if up:
                for w in wanted:
                    k = w.split(":")[0]; a = path if k == "unix" else ports[k]
                    r = _ask(k, a)
                    if r and r.startswith(b"VERSION ") and r.endswith(b"\r\n"): ev["answers"].append(w)
                k = wanted[0].split(":")[0] if wanted else None
                st = _ask(k, path if k == "unix" else ports[k], b"stats\r\n", b"END\r\n") if k else None
                if st:
                    st = dict(x.split()[1:] for x in st.decode().splitlines() if x.startswith("STAT") and len(x.split()) == 3)
                    for a, b in (("lim", "limit_maxbytes"), ("pg", "page_size"), ("hc", "hash_capacity")): ev[a] = [int(c) for c in st.get(b, "")]
                    lim, pg = int(st.get("limit_maxbytes", 0)), int(st.get("page_size", 1))
                    ev["stats"] = True; ev["evicts"] = evict
                    if k != "udp" and pg >= 1024 and (lim <= 1 << 24 or (lim <= 1 << 26 and lim // pg <= 64)):      # overfill: evictions or an error
                        n = lim // pg * 2; v = b"x" * (pg - 100); fd = path if k == "unix" else ports[k]
                        bad = 0
                        for i in range(n):
                            r = _ask(k, fd, b"set k%d 0 0 %d\r\n%s\r\n" % (i, len(v), v))
                            if r is None: bad = -10**6; break
                            if r != b"STORED\r\n": bad += 1
                        ev["evicts"] = evict if bad == (0 if evict else n // 2) else (not evict)
            return ev
        finally:
            try: p.kill(); p.wait()
            except Exception: pass
            shutil.rmtree(d, ignore_errors=True)
    return ev


def enc_word(x):
    return "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "?" for c in x)


def daemon_jobs(rnd, binary, q):
    U = {"unix": "path"}
    J = []
    F = {"m": [["-m", None], ["--memory", None], ["-m"], ["--memory="]], "p": [["-P", None], ["--page", None], ["-P"], ["--page="]], "h": [["-H", None], ["--hashtable", None], ["-H"], ["--hashtable="]]}
    def opt(k, text):
        f = rnd.choice(F[k])
        if text == "" or text.startswith("-"): f = F[k][3] if text.startswith("-") else F[k][rnd.choice([0, 3])]
        return (k, f, text)
    def job(m=None, p=None, h=None, want=U, extra="", args=(), evict=True):
        o = [opt(k, v) for k, v in (("m", m), ("p", p), ("h", h)) if v is not None]
        rnd.shuffle(o)
        if args: o.append(("x", list(args)))
        if not evict: o.append(("x", [rnd.choice(["-M", "--oum-error"])]))
        J.append((binary, o, want, extra, evict))
    # amounts
    for m, p in [("4M", "1M"), ("4", "1"), ("4096K", "1024K"), ("1G", "256M"), ("1G", "1"), ("64", None), (None, "16"), (None, "16M"), (None, "16384K"), ("4", None), ("4M", "4K"), ("1K", "1K"), ("4K", "1K"), ("2K", "1K"), ("8G", "2G"), ("4G", "2G"), ("8G", "4G"),
                 ("16G", "4G"), ("8192M", "2048M"), ("0064", "01"), ("64", "32"), (None, "32"), (None, "64"), ("2", None), ("3M", "1K"), ("4M", "3K"), ("0", None), ("0K", "1K"), ("", None), (None, ""), ("K", None), ("M", "1M"), ("4KK", "1K"), ("4k", "1K"), ("4 K", "1K"),
                 ("-4", "1"), ("4M", "-1"), ("-18446744073709551552", None), ("-18446744073709551612M", "1K"), ("18014398509481985K", "256M"), ("18014398509482048K", "1K"), ("17592186044420096", "1M"), ("17179869185G", "1M"), ("18446744073709551616", "1M"), ("36893488147419103232", "1"), ("18446744073709551680", None),
                 (None, "18014398509481985K"), ("4M", "17592186044417"), (None, "18014398509481984K"), ("18446744073709551615", "1"), ("4.0", "1"), ("0x40", "1"), ("4e0", "1"), ("64M ", "1"), ("1T", None), ("4B", "1"), ("4194304", "1M"), ("9007199254740992", "2G"), ("1M", "512K"), ("1M", "256K"), ("16M", "8K")]:
        job(m, p)
    for h in ["1", "2", "16", "1024", "65536", "1048576", "0016", "0", "3", "1000", "65535", "65537", "", "x", "16K", "-1", "-16", "1.0", " 16", "4294967296", "8589934592", "18446744073709551615", "18446744073709551616", "9223372036854775808", "4294967297", "4294968320"]:
        job("4M", "1M", h)
    for _ in range(40 * q):
        a, b = rnd.randrange(10, 29), rnd.randrange(10, 29)
        def text(k):
            us = [(u, s) for u, s in (("K", 10), ("M", 20), ("G", 30), ("", 20)) if s <= k]
            u, s = rnd.choice(us)
            n = str(1 << k - s)
            if rnd.random() < 0.1: n = "0" + n
            if rnd.random() < 0.12: n = str(int(n) + rnd.choice([1, -1, 2, 3]))
            if rnd.random() < 0.05: n = rnd.choice([n + "0", n + "x", "x" + n, n + " ", n + "."])
            return n + u
        if a - b > 14: continue
        job(text(a), text(b), rnd.choice([None, "1", "64", "1024", "4096", "100", "0"]), evict=rnd.random() < 0.6)
    # endpoints
    for w in ({"tcp": 1}, {"udp": 1}, {"tcp": 1, "udp": 1}, {"tcp": 1, "unix": 1}, {"udp": 1, "unix": 1}, {"tcp": 1, "udp": 1, "unix": 1}):
        job("4M", "1M", want=w); job("4M", "1M", want=w, evict=False)
    # evictions are disabled by -M alone, whatever else is given
    for m, p, h in ((None, None, None), (None, "1M", None), ("64", None, None), ("16M", None, None), (None, "16M", None), (None, None, "1024"), ("4M", "64K", "16"), (None, "4M", "1"), ("32M", None, "64")):
        job(m, p, h, evict=False, want=rnd.choice([U, {"tcp": 1}]))
        job(m, p, h, evict=True)
    for a in (["--no-such-option"], ["-z"], ["-p", "x"], ["-p", "65536"], ["-U", "x"], ["-U", "65536"], ["-p", "100000"], ["-p", ""], ["-h"], ["--help"], ["-V"], ["--version"]):
        job("4M", "1M", extra="no", args=a)
    for a in (["-C"], ["--no-cas"], ["-a", "0700"], ["-l", "localhost"], ["extra"]):
        job("4M", "1M", extra="either", args=a)
    J.append((binary, [], {"tcp": "default", "udp": "default"}, "", True))
    J.append((binary, [], {"tcp": "default"}, "", True))
    J.append((binary, [], {"udp": "default"}, "", True))
    return J


def c19(chk):
    import concurrent.futures, json, multiprocessing
    chk.model("MCConfig", "MCConfig.cfg")
    rnd = random.Random("%d/C19" % chk.seed)
    b, a, d = exec_conf(), exec_conf("asan"), exec_conf("debug")
    q = 6 if chk.thorough else 1
    vt.validate(chk, "creation", b, "ConfigTrace", create_scripts(rnd, 600 * q, 3), timeout=300)
    vt.validate(chk, "creation (debug build)", d, "ConfigTrace", create_scripts(rnd, 50 * q, 4)[::3], timeout=300)
    vt.validate(chk, "whole memory used", b, "ConfigTrace", fill_scripts(chk.thorough), timeout=300)
    vt.validate(chk, "whole memory used (debug build)", d, "ConfigTrace", [s for s in fill_scripts(False)][::4], timeout=300)
    if chk.viol: return
    srv = server.daemon_binary()
    jobs = daemon_jobs(rnd, srv, q)
    ctx = multiprocessing.get_context("fork")
    dflt = [j for j in jobs if "default" in j[2].values()]
    rest = [j for j in jobs if "default" not in j[2].values()]
    with concurrent.futures.ProcessPoolExecutor(vt.CORES, mp_context=ctx) as ex: res = list(ex.map(daemon_try, rest))
    res += [daemon_try(j) for j in dflt]
    lines = [json.dumps({"hdr": {"x": 0}, "ev": [e]}, separators=(",", ":")) for e in res if e]
    rej, st, gen = vt.accept("ConfigTrace", lines)
    chk.sample("daemon: " + min(lines, key=len)[:600])
    for j, label, n in rej[:3]:
        k = [i for i, e in enumerate(res) if e][j]
        e = daemon_try((rest + dflt)[k])         # anything depending on timing has to happen again
        if e and not vt.accept("ConfigTrace", [json.dumps({"hdr": {"x": 0}, "ev": [e]})], shards=1)[0]:
            vt.log("not repeated:", label, lines[j]); continue
        chk.violation("daemon configuration: not a behaviour of ConfigTrace: %s: %s" % (label, lines[j][:900]), {"trace.ndjson": lines[j]})
    chk.validated("daemon option strings", len(lines) - len(rej), len(lines), st, gen, distinct=len(set(lines)))


# ------------------------------------------------------------------------------------------------- C22
def s_signals(seed, binary, ops=60, prints=True, style=None):
    """requests with SIGUSR1 at any point; then a terminating signal, whatever the clients are doing"""
    import checks_server as cs
    rnd = random.Random(seed)
    style = style or rnd.choice(["idle", "busy", "stalled", "storm", "udp", "early"])
    s = Session(binary, "signals", seed, tcp=True, udp=True, unix=True, page=rnd.choice(["256K", "1M"]), mem="8M")
    c = s.conn(kind=rnd.choice(["unix", "tcp"])); u = server.Udp(s)
    c.do(s.req([b"version"]))          # it serves now
    g = cs.Gen(s, nk=5); others = []
    usr1 = 0
    def kill(sig):
        nonlocal usr1
        if sig == signal.SIGUSR1: usr1 += 1
        s.d.p.send_signal(sig)
    if style == "early": ops = rnd.randrange(0, 4)
    for _ in range(ops):
        r = rnd.random()
        if r < 0.35:
            for _ in range(rnd.choice([1, 1, 1, 2, 5, 40])): kill(signal.SIGUSR1)
        if r < 0.1: time.sleep(rnd.choice([0.001, 0.01, 0.03]))
        if r < 0.15:                    # the signal in the middle of a request
            q = g.next(c); k = rnd.randrange(0, len(q.bytes))
            c.push(q.bytes[:k]); kill(signal.SIGUSR1)
            if rnd.random() < 0.5: time.sleep(0.01)
            c.expect(q); c.push(q.bytes[k:])
            c.barrier() if q.noreply else c.sync()
        elif r < 0.25: u.do(g.next(u, noreply=False, verb=rnd.choice(["set", "get", "incr", "gets"])))
        else: c.do(g.next(c))
        if s.dead: break
    for k in g.keys: c.do(s.req([b"gets", k]))
    if style in ("busy", "stalled", "storm"):
        big = s.blobs.new(200000); c.do(s.req([b"set", b"big", b"0", b"0", b"200000"], [big]))
    if style in ("stalled", "storm"):
        for _ in range(3):
            x = socket.socket(socket.AF_UNIX); x.settimeout(5); x.connect(s.d.path); x.send(b"get big\r\n" * rnd.choice([1, 30]) + b"set q 0 0 5\r\nab"); others.append(x)
            x = socket.create_connection(("127.0.0.1", s.d.tcp), 5); x.send(rnd.choice([b"", b"get ", b"set a 0 0 100\r\nabc", b"\r"])); others.append(x)
    stop = [False]
    threads = []
    if style in ("busy", "storm", "udp"):
        import threading
        def work(kind):
            try:
                if kind == "udp":
                    x = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); x.connect(("127.0.0.1", s.d.udp))
                    while not stop[0]: x.send(struct.pack(">HHHH", 3, 0, 1, 0) + b"get " + b"k0 " * 20 + b"\r\n")
                else:
                    x = socket.create_connection(("127.0.0.1", s.d.tcp), 5); x.settimeout(3)
                    while not stop[0]: x.sendall(b"get nokey\r\n" * 50); x.recv(100000)
            except OSError: pass
        for kind in (["udp", "udp"] if style == "udp" else ["tcp", "tcp", "udp"]):
            t = threading.Thread(target=work, args=(kind,), daemon=True); t.start(); threads.append(t)
        time.sleep(rnd.choice([0.0, 0.02, 0.1]))
    if style == "storm":
        for _ in range(rnd.randrange(0, 30)): kill(signal.SIGUSR1)
    s.exited = True
    if s.dead: return s.finish()
    if usr1 and prints and style != "storm":        # the last SIGUSR1 had its time
        c.do(s.req([b"version"]))
    kill(rnd.choice([signal.SIGTERM, signal.SIGINT, signal.SIGQUIT]))
    try: rc = s.d.p.wait(server.TIMEOUT)
    except subprocess.TimeoutExpired:
        rc = -99; s.dead = True
        with server._timeouts.get_lock(): server._timeouts.value += 1
    stop[0] = True
    for t in threads: t.join(5)
    c.note(o="exit", n=rc, want=0, usr1=bool(usr1 and prints), printed=len(s.d.err()) > 0)
    for x in others: x.close()
    return s.finish()


def c22(chk):
    chk.model("Signals", "Signals_t.cfg" if chk.thorough else "Signals_q.cfg", timeout=3000)
    rel, dbg, asan = server.daemon_binary(), server.daemon_binary("debug"), server.daemon_binary("asan")
    k = 10 if chk.thorough else 1
    for st in ("idle", "busy", "stalled", "storm", "udp", "early"):
        server.validate(chk, "signals: " + st, s_signals, 10 * k, binary=rel, style=st)
    server.validate(chk, "signals (debug build)", s_signals, 8 * k, binary=dbg)
    server.validate(chk, "signals (asan)", s_signals, 8 * k, binary=asan)
