"""Driving the real daemon (src/server, main.cpp included) and recording histories for ProtoTrace."""
import concurrent.futures, json, mmap, multiprocessing, os, random, re, select, shutil, signal, socket, struct, subprocess, tempfile, threading, time
import vt
from vt import HARN

TIMEOUT = 12.0         # a reply that does not come within this time is missing


def daemon_binary(mode="release"):
    return vt.build("cachelotd", [HARN + "/vclock_shm.cpp"], mode, lib_sources=vt.cachelot_sources() + vt.server_sources(True),
                    libs=["-lboost_program_options", "-lboost_system"])


# --------------------------------------------------------------------------------------------- encoding
_ENC = {}
for _b in range(256):
    _c = chr(_b)
    _ENC[_b] = _c if (_c.isascii() and (_c.isalnum() or _c in "_-:.+")) else "%%%02X" % _b


def enc(b):
    return "".join(_ENC[x] for x in b)


def enc_line(b):
    return " ".join(enc(w) for w in b.split(b" "))


def blob(i, n):
    head = b"\x01%06d" % (i - 1000)
    return (head + bytes(97 + ((i * 31 + p * 7 + p // 26) % 26) for p in range(7, n)))[:n]


class Blobs:
    """opaque values: id 1000.. -> bytes"""
    _cache = {}

    def __init__(self):
        self.len, self.data = [], []

    def new(self, n):
        n = max(7, n)
        i = 1000 + len(self.len)
        key = (i, n)
        if key not in Blobs._cache:
            if len(Blobs._cache) > 400: Blobs._cache.clear()
            Blobs._cache[key] = blob(i, n)
        self.len.append(n); self.data.append(Blobs._cache[key])
        return i

    def encode(self, pieces):
        return b"".join(bytes([p]) if p < 1000 else self.data[p - 1000] for p in pieces)

    def decode(self, b):
        out, i = [], 0
        while i < len(b):
            if b[i] == 1 and b[i + 1:i + 7].isdigit() and len(b[i + 1:i + 7]) == 6:
                j = int(b[i + 1:i + 7])
                if j < len(self.len) and b[i:i + self.len[j]] == self.data[j]:
                    out.append(1000 + j); i += self.len[j]; continue
            out.append(b[i]); i += 1
            if len(out) > 600:
                out.append(999); break
        return out


class Tokens:
    def __init__(self):
        self.ids = {}

    def __call__(self, text):
        if not re.fullmatch(rb"0|[1-9][0-9]{0,19}", text):
            return -1
        return self.ids.setdefault(int(text), len(self.ids) + 1)


# ---------------------------------------------------------------------------------------------- replies
class Replies:
    """incremental tokenizer of the reply stream of one connection"""
    def __init__(self, blobs, tokens):
        self.blobs, self.tokens = blobs, tokens
        self.buf = b""
        self.items = []
        self.raw = 0
        self.want = []          # kinds of the replies still expected
        self.done = 0           # number of completed replies
        self.need = None        # length of the data block under way
        self.st = None

    def feed(self, b):
        self.buf += b; self.raw += len(b)
        while self.step():
            pass

    def step(self):
        if self.need is not None:
            if len(self.buf) < self.need + 2:
                return False
            d, self.buf = self.buf[:self.need + 2], self.buf[self.need + 2:]
            if d.endswith(b"\r\n"):
                self.items.append({"s": "(data)", "tok": 0, "v": self.blobs.decode(d[:-2])})
            else:
                self.items.append({"s": "(broken)", "tok": 0, "v": []})
            self.need = None
            return True
        j = self.buf.find(b"\r\n")
        if j < 0:
            return False
        line, self.buf = self.buf[:j], self.buf[j + 2:]
        w = line.split(b" ")
        it = {"s": enc_line(line), "tok": 0, "v": []}
        if w[0] == b"VALUE" and len(w) in (4, 5) and re.fullmatch(rb"0|[1-9][0-9]{0,8}", w[3]):
            if len(w) == 5:
                it["s"] = enc_line(b" ".join(w[:4])); it["tok"] = self.tokens(w[4])
            self.need = int(w[3])
            self.items.append(it)
            return True
        if w[0] == b"STAT":
            if len(w) == 3 and re.fullmatch(rb"[a-z_]+", w[1]) and re.fullmatch(rb"0|[1-9][0-9]*", w[2]):
                it["s"] = "STAT"
                self.st = self.st or {}
                n = int(w[2]); self.st[w[1].decode()] = n if n < 2**31 else -1
            self.items.append(it)
            return True
        if line == b"END" and self.st is not None:
            it["st"] = self.st; self.st = None
        self.items.append(it)
        if self.want:
            self.want.pop(0)
        self.done += 1
        return True


# ---------------------------------------------------------------------------------------------- daemon
_port_lock = threading.Lock()


def free_port(kind=socket.SOCK_STREAM):
    s = socket.socket(socket.AF_INET, kind); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close()
    return p


class Daemon:
    def __init__(self, binary, args=(), tcp=False, udp=False, unix=True, clock=1000, page="256K", mem="4M", evict=True, hashtable=1024, rlimit=None, real_clock=False):
        base = os.path.join(vt.BUILD, "d"); os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(dir=base)
        self.path = os.path.join(self.dir, "s")
        cf = os.path.join(self.dir, "clock")
        open(cf, "wb").write(struct.pack("q", clock))
        self.cfd = open(cf, "r+b"); self.mm = mmap.mmap(self.cfd.fileno(), 8)
        self.clock = clock
        self.errf = open(os.path.join(self.dir, "err"), "wb")
        self.rc = None
        env = dict(os.environ, VERIF_CLOCK=cf, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1")
        if real_clock: del env["VERIF_CLOCK"]
        self.page, self.mem = page, mem
        for attempt in range(5):
            self.tcp = free_port() if tcp else 0
            self.udp = free_port(socket.SOCK_DGRAM) if udp else 0
            cmd = [binary, "-p", str(self.tcp), "-U", str(self.udp), "-m", mem, "-P", page, "-H", str(hashtable)] + (["-s", self.path] if unix else []) + ([] if evict else ["-M"]) + list(args)
            self.cmd = cmd
            self.p = subprocess.Popen(cmd, stdout=self.errf, stderr=self.errf, env=env, cwd=self.dir, stdin=subprocess.DEVNULL)
            if self._wait_up():
                return
            if self.p.poll() is None:
                self.p.kill(); self.p.wait()
            if b"Address already in use" in self.err():
                continue
            break
        err = self.err(); self.stop()
        raise DaemonDown("daemon did not start (%s): %s" % (" ".join(cmd[1:]), err.decode(errors="replace")[-500:]))

    def _wait_up(self):
        end = time.time() + TIMEOUT
        while time.time() < end:
            if self.p.poll() is not None:
                return False
            try:
                if self.tcp: socket.create_connection(("127.0.0.1", self.tcp), 5).close()
                if os.path.exists(self.path):
                    s = socket.socket(socket.AF_UNIX); s.settimeout(5); s.connect(self.path); s.close()
                elif "-s" in self.cmd:
                    raise OSError
                if self.udp:
                    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); s.settimeout(0.5); s.connect(("127.0.0.1", self.udp))
                    s.send(struct.pack(">HHHH", 1, 0, 1, 0) + b"version\r\n")
                    try: s.recv(100)
                    except socket.timeout: pass     # answering is the business of the checks
                    s.close()
                return True
            except OSError:
                time.sleep(0.003)
        return False

    def tick(self, n):
        self.clock += n
        self.mm[:8] = struct.pack("q", self.clock)

    def err(self):
        self.errf.flush()
        return open(os.path.join(self.dir, "err"), "rb").read()

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        for x in (self.errf, self.cfd):
            x.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class DaemonDown(Exception):
    pass


SIZES = {"K": 1 << 10, "M": 1 << 20, "G": 1 << 30}


def size_of(s):
    return int(s[:-1]) * SIZES[s[-1]] if s[-1] in SIZES else int(s) << 20


# --------------------------------------------------------------------------------------------- session
class Conn:
    def __init__(self, ses, kind="unix", rcvbuf=None):
        self.ses, d = ses, ses.d
        if kind == "unix":
            self.s = socket.socket(socket.AF_UNIX)
            if rcvbuf: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            self.s.settimeout(TIMEOUT); self.s.connect(d.path)
        else:
            self.s = socket.socket(socket.AF_INET)
            if rcvbuf: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            self.s.settimeout(TIMEOUT); self.s.connect(("127.0.0.1", d.tcp))
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.setblocking(False)
        self.rep = Replies(ses.blobs, ses.tokens)
        self.ops = []
        self.open_ops = []        # operations without `res'
        self.mark = 0             # items received when the last operation was closed
        self.eof = False
        self.out = b""            # not yet sent
        self.noread = False
        ses.conns.append(self)

    # -- low level
    def pump(self, timeout=0.0):
        """send what can be sent, receive what is there; True if anything happened"""
        if self.eof: return False
        r, w, _ = select.select([] if self.noread else [self.s], [self.s] if self.out else [], [], timeout)
        did = False
        if w:
            try:
                n = self.s.send(self.out[:65536]); self.out = self.out[n:]; did = True
            except BlockingIOError: pass
            except OSError: self.out = b""
        if r:
            try:
                b = self.s.recv(262144)
                if not b: self.eof = True
                else: self.rep.feed(b)
                did = True
            except BlockingIOError: pass
            except OSError: self.eof = True
        return did

    def push(self, data):
        """send all the bytes now (as one segment if they fit)"""
        self.out += data
        end = time.time() + TIMEOUT
        while self.out and not self.eof and time.time() < end and not self.ses.dead:
            self.pump(0.05)
        if self.out: self.ses.dead = True

    def until(self, cond, may=False):
        end = time.time() + (TIMEOUT if not self.ses.dead else 0)
        while not cond() and not self.eof and time.time() < end:
            self.pump(0.05)
        ok = cond()
        if not ok and not self.eof and not self.ses.dead and not may:      # do not wait again in this session
            self.ses.dead = True
            with _timeouts.get_lock(): _timeouts.value += 1
        return ok

    # -- recording
    def record(self, op):
        op["inv"] = self.ses.stamp(); op["res"] = 0
        self.ops.append(op); self.open_ops.append(op)

    def close_ops(self):
        s = self.ses.stamp()
        for o in self.open_ops: o["res"] = s
        self.open_ops = []
        self.mark = len(self.rep.items)

    def note(self, **kw):
        op = dict(kw); op["inv"] = op["res"] = self.ses.stamp()
        self.ops.append(op)

    def sync(self):
        """all expected replies are here"""
        self.until(lambda: not self.rep.want and not self.out)
        while self.pump(0): pass
        self.close_ops()
        self.note(o="sync", n=len(self.rep.items))

    def barrier(self):
        """a version request, and everything up to its answer"""
        r = self.ses.req([b"version"])
        self.push(r.bytes); self.expect(r)
        k = sum(1 for o in self.open_ops if o.get("w") == ["version"])      # others may still be on their way
        self.until(lambda: sum(1 for x in self.rep.items[self.mark:] if x["s"].startswith("VERSION ")) >= k)
        while self.pump(0): pass
        self.rep.want = []
        self.close_ops()
        self.note(o="sync", n=len(self.rep.items))

    def expect(self, r):
        """the request is completely sent now"""
        self.record(r.op)
        if not r.noreply: self.rep.want.append(1)

    def do(self, r):
        """one request in one segment, wait for its reply (noreply: a barrier)"""
        self.expect(r)
        self.push(r.bytes)
        if r.noreply: self.barrier()
        else: self.sync()

    def ended(self, may):
        self.until(lambda: self.eof)
        self.close_ops()
        self.note(o="closed" if self.eof else "alive", n=len(self.rep.items), may=may, ok=False)

    def close(self):
        try: self.s.close()
        except OSError: pass


def numeric(w, top):
    return w.isdigit() and int(w) <= top


def line_ok(w):
    """LineOK of Proto.tla for requests that end in noreply (decides only what the driver waits for)"""
    v, key = w[0], len(w) > 1 and 1 <= len(w[1]) <= 250
    if v in (b"set", b"add", b"replace", b"append", b"prepend", b"cas"):
        return key and len(w) == (7 if v == b"cas" else 6) and numeric(w[2], 65535) and numeric(w[3], 2**32 - 1) and numeric(w[4], 2**32 - 1) and (v != b"cas" or numeric(w[5], 2**64 - 1))
    if v in (b"incr", b"decr", b"touch"):
        return key and len(w) == 4 and numeric(w[2], 2**64 - 1 if v != b"touch" else 2**32 - 1)
    return (v == b"delete" and key and len(w) == 3) or (v == b"flush_all" and len(w) == 2)


class Req:
    __slots__ = ("op", "bytes", "noreply", "head")


class Session:
    """one history against one daemon"""
    def __init__(self, binary, name, seed, stats=False, memkind="ample", **kw):
        self.rnd = random.Random("%s/%s" % (seed, name))
        self.blobs, self.tokens = Blobs(), Tokens()
        self.d = Daemon(binary, **kw)
        self.conns = []
        self.n = 0
        self.dead = False
        self.stats, self.memkind = stats, memkind
        self.t = self.d.clock
        self.exited = False       # the daemon was told to exit

    def stamp(self):
        self.n += 1
        return self.n

    def conn(self, **kw):
        return Conn(self, **kw)

    def tick(self, n):
        self.d.tick(n); self.t += n

    def req(self, words, pieces=None, term=b"\r\n", raw_data=None):
        """words: list of bytes; pieces: data block"""
        r = Req()
        r.head = b" ".join(words) + b"\r\n"
        body = b""
        if pieces is not None:
            body = self.blobs.encode(pieces) + term
        r.bytes = r.head + body
        cas = 0
        if words[0] == b"cas" and len(words) > 5:
            cas = self.tokens(str(int(words[5])).encode()) if words[5].isdigit() else -1
        r.noreply = words[-1] == b"noreply" and line_ok(words)      # malformed lines are always answered
        r.op = {"o": "req", "t": self.t, "w": [enc(w) for w in words], "kl": [len(w) for w in words], "v": pieces or [],
                "dl": (len(body) - 2) if pieces is not None and term == b"\r\n" else -1, "term": pieces is not None and term == b"\r\n", "cas": cas}
        return r

    def finish(self):
        """the recorded trace"""
        up = self.d.alive() or self.exited
        err = b"" if up else self.d.err()
        rc = self.d.p.returncode
        for c in self.conns:
            c.close_ops(); c.close()
        self.d.stop()
        crash = None if up else "the daemon died: status %s: %s" % (rc, err.decode(errors="replace")[-2500:])
        t = {"hdr": {"nc": len(self.conns), "bl": self.blobs.len, "page": size_of(self.d.page), "memory": size_of(self.d.mem) if size_of(self.d.mem) < 2**31 else -1, "mem": self.memkind, "stats": self.stats, "late": self.dead},
             "ops": [c.ops for c in self.conns], "out": [c.rep.items for c in self.conns]}
        return json.dumps(t, separators=(",", ":")), crash


# ------------------------------------------------------------------------------------- running sessions
_timeouts = multiprocessing.get_context("fork").Value("i", 0)     # sessions in which a reply was missing


def _worker(a):
    fn, seed, kw = a
    if _timeouts.value >= 10:
        return None, "skipped"         # enough evidence
    try:
        return fn(seed, **kw)
    except DaemonDown as e:
        return None, str(e)
    except OSError as e:
        return None, "unreachable: %s" % e


def run_sessions(fn, seeds, workers=None, **kw):
    ctx = multiprocessing.get_context("fork")
    _timeouts.value = 0
    with concurrent.futures.ProcessPoolExecutor(workers or vt.CORES, mp_context=ctx) as ex:
        return list(ex.map(_worker, [(fn, s, kw) for s in seeds]))


def validate(chk, name, fn, n, maxrep=3, workers=None, **kw):
    """run n seeded sessions of fn on the daemon, let TLC decide the recorded histories"""
    if chk.viol:
        return 0             # already decided
    seeds = ["%d/%s/%s/%d" % (chk.seed, chk.prop, name, i) for i in range(n)]
    res = run_sessions(fn, seeds, workers, **kw)
    good = []
    for i, (line, crash) in enumerate(res):
        if crash == "skipped":
            continue
        if crash is None:
            good.append(i)
        elif len(chk.viol) < maxrep:
            again = run_sessions(fn, [seeds[i]], 1, **kw)[0]
            if crash.startswith("unreachable") and again[1] is None:
                vt.log("%s: %s once, not on repetition" % (name, crash)); continue
            chk.violation("%s: crash: %s%s" % (name, crash, "" if again[1] else " (not on the second execution)"), {"session": "%s %s %r" % (fn.__name__, seeds[i], kw), "trace.ndjson": line or "", "crash.txt": crash})
    lines = [res[i][0] for i in good]
    rej, st, gen = vt.accept("ProtoTrace", lines, timeout=840)
    if lines:
        chk.sample("%s: %s" % (name, min(lines, key=len)[:900]))
    for j, label, ev in rej[:maxrep]:
        i = good[j]
        if '"late":true' in lines[j]:          # something did not come in time: it has to happen again
            for _ in range(3):
                l2, c2 = run_sessions(fn, [seeds[i]], 1, **kw)[0]
                if c2 or vt.accept("ProtoTrace", [l2], shards=1)[0]: break
            else:
                vt.log("%s: a reply was late once, not on repetition (%s at %d, %s)" % (name, label, ev, seeds[i]))
                continue
        what = "%s: not a behaviour of ProtoTrace: %s at connection %d operation %d" % (name, label, ev // 10000, ev % 10000)
        try:
            t = json.loads(lines[j]); c = ev // 10000
            what += ": " + json.dumps(t["ops"][c - 1][ev % 10000 - 1])[:500]
        except Exception:
            pass
        chk.violation(what, {"session": "%s %s %r" % (fn.__name__, seeds[i], kw), "trace.ndjson": lines[j]})
    nops = sum(l.count('"o":"req"') + l.count('"o":"dgram"') for l in lines)
    chk.validated(name, len(lines) - len(rej), nops, st, gen, distinct=len(set(lines)))
    return len(rej)


# -------------------------------------------------------------------------------------------------- UDP
class Udp:
    """one UDP client socket; its operations are those of a `connection' of the trace"""
    def __init__(self, ses):
        self.ses = ses
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 400000)
        self.s.connect(("127.0.0.1", ses.d.udp)); self.s.setblocking(False)
        self.ops, self.open_ops, self.by_id = [], [], {}
        self.rep = Replies(ses.blobs, ses.tokens)       # items of all replies (looked at by the generator)
        self.eof = False
        self.rid = ses.rnd.randrange(65536)
        ses.conns.append(self)

    def header(self, seq=0, npk=1, rsv=0):
        while True:
            self.rid = (self.rid + self.ses.rnd.choice([1, 1, 1, 256, 77])) % 65536
            if self.rid not in self.by_id: break
        return struct.pack(">HHHH", self.rid, seq, npk, rsv)

    def send(self, r, hdr=None, cut=None, short=None):
        """r: request; cut: only so many bytes of it; short: only so many bytes of the header"""
        h = hdr or self.header()
        op = dict(r.op); op["o"] = "dgram"
        rid, op["seq"], op["npk"], op["rsv"] = struct.unpack(">HHHH", h)
        body = r.bytes if cut is None else r.bytes[:cut]
        op["hdrlen"], op["complete"], op["h"], op["rep"], op["lossy"] = 8, len(body) == len(r.bytes), h.hex(), [], False
        data = h + body
        if short is not None:
            op["hdrlen"] = short; data = h[:short]
        op["inv"] = self.ses.stamp(); op["res"] = 0
        self.ops.append(op); self.open_ops.append(op); self.by_id[rid] = op
        for _ in range(100):
            try: self.s.send(data); return op
            except BlockingIOError: time.sleep(0.01)
            except ConnectionRefusedError: return op
        return op

    def pump(self, timeout=0.0):
        r, _, _ = select.select([self.s], [], [], timeout)
        if not r: return False
        try: b = self.s.recv(1 << 17)
        except OSError: return False
        rep = Replies(self.ses.blobs, self.ses.tokens); rep.feed(b[8:])
        items = rep.items + ([{"s": "(truncated)", "tok": 0, "v": []}] if rep.buf or rep.need is not None or rep.st is not None else [])
        self.rep.items += items
        op = self.by_id.get(struct.unpack(">H", b[:2])[0]) if len(b) >= 2 else None
        if op is None and self.ops: op = self.ops[-1]
        if op is not None: op["rep"].append({"h": b[:8].hex(), "items": items})
        return True

    def until(self, ops):
        end = time.time() + (TIMEOUT if not self.ses.dead else 0)
        while any(not o["rep"] for o in ops) and time.time() < end and self.ses.d.alive(): self.pump(0.05)
        if any(not o["rep"] for o in ops) and not self.ses.dead:
            self.ses.dead = True
            with _timeouts.get_lock(): _timeouts.value += 1

    def settle(self, ops=()):
        """the replies to ops are here, and the server has looked at everything sent before"""
        self.until(ops)
        b = self.send(self.ses.req([b"version"]))
        self.until([b])
        while self.pump(0): pass
        self.close_ops()

    def close_ops(self):
        s = self.ses.stamp()
        for o in self.open_ops: o["res"] = s
        self.open_ops = []
        if len(self.by_id) > 500: self.by_id = {}

    def do(self, r, **kw):
        """one datagram, and its reply"""
        op = self.send(r, **kw)
        if r.noreply or kw: self.settle()
        else:
            self.until([op]); self.close_ops()
        return op

    def note(self, **kw):
        op = dict(kw); op["inv"] = op["res"] = self.ses.stamp()
        self.ops.append(op)

    def close(self):
        self.s.close()
