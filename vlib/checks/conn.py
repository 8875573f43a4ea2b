"""C12-C15: connections against spec/Conn.tla and spec/Limit.tla; what is executed and answered against spec/Keyspace.tla."""
import itertools, json, os, random, resource, select, socket, struct, threading, time
from .. import core, gen, ks, node, repl, resp
from ..families import MALFORMED_ARGS
from ..ks import *
from ..tour import T0
from .keyspace import N, alive, note


# ------------------------------------------------------------------------------------------------ recording connections
class Sock:
    """a client socket that is only ever read without blocking"""

    def __init__(self, addr):
        self.s = socket.create_connection(addr, timeout=10)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.setblocking(False)
        self.buf = bytearray()
        self.shut = False
        self.bad = None

    def send(self, b):
        self.s.setblocking(True)
        self.s.settimeout(20)
        try:
            self.s.sendall(b)
        except (ConnectionError, TimeoutError):
            pass
        self.s.setblocking(False)

    def poll(self):
        """replies that have arrived"""
        try:
            while True:
                d = self.s.recv(1 << 20)
                if not d:
                    self.shut = True
                    break
                self.buf += d
        except BlockingIOError:
            pass
        except ConnectionError:
            self.shut = True
        out, pos = [], 0
        while self.bad is None:
            try:
                r = resp.parse(self.buf, pos)
            except resp.Bad as e:
                self.bad = str(e)
                break
            if r is None:
                break
            out.append(r[0])
            pos = r[1]
        del self.buf[:pos]
        return out

    misses = 0

    def await_(self, n, shut=False, timeout=6.0):
        """until n replies have arrived or the peer closed (with shut: until it closed)"""
        out = self.poll()
        # where many never come there is no point in waiting long for each
        end = time.time() + (timeout if Sock.misses < 5 else min(timeout, 2) if Sock.misses < 15 else .3)
        while not self.shut and self.bad is None and (shut or len(out) < n) and time.time() < end:
            q = select.poll()
            q.register(self.s, select.POLLIN)
            q.poll(50)
            out += self.poll()
        if not self.shut and self.bad is None and (shut or len(out) < n) and timeout == 6.0:
            Sock.misses += 1
        return out

    def close(self, rst=False):
        if rst:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()


class Items:
    """a stream for one connection: good items are Cmds"""

    def __init__(self, parts, rest=b""):
        """parts: list of (kind, Cmd or bytes)"""
        self.parts, self.rest = parts, rest
        self.data = b""
        self.ends = []
        for k, x in parts:
            self.data += x.bytes() if isinstance(x, Cmd) else x
            self.ends.append(len(self.data))
        self.data += rest
        self.obs = []
        self.replies = []

    def expect(self, to):
        """how many replies, and whether a close, are worth waiting for at position to (only a matter of patience)"""
        n, amb = 0, False
        for (k, _), e in zip(self.parts, self.ends):
            if e <= to:
                if k == "junk":
                    return n, True
                n += 1
        return n, False

    def line(self):
        return {"items": [{"k": k, "end": e} for (k, _), e in zip(self.parts, self.ends)], "seg": self.obs}


def play(nd, its, cuts, width=300, before=None):
    """plays streams in lockstep, each cut into pieces at the given positions; fills obs and the replies of the good items;
    before(r) is called before the r-th pieces are sent"""
    for a in range(0, len(its), width):
        grp = list(zip(its[a:a + width], cuts[a:a + width]))
        socks = [Sock(nd.addr) for _ in grp]
        rounds = max(len(c) for _, c in grp) + 1
        for r in range(rounds):
            live = []
            if before:
                before(r)
            for (it, cut), s in zip(grp, socks):
                if r <= len(cut) and not s.shut:
                    lo = cut[r - 1] if r else 0
                    to = cut[r] if r < len(cut) else len(it.data)
                    s.send(it.data[lo:to])
                    live.append((it, s, to))
            nd.control("settle")
            for it, s, to in live:
                n, shut = it.expect(to)
                got = s.await_(n - len(it.replies), shut)
                it.replies += got
                if s.bad:
                    got.append(None)
                it.obs.append({"to": to, "obs": ["e" if isinstance(x, resp.Error) else "bad" if x is None else "r" for x in got], "shut": s.shut})
                it.bad = s.bad
        for (it, _), s in zip(grp, socks):
            s.close()


def events(it, now):
    """the good items of a played stream, as far as they were answered, for KsTrace"""
    out, j = [], 0
    for k, x in it.parts:
        if j >= len(it.replies):
            # a bad item that closed the connection, or nothing more was answered (judged by ConnTrace)
            break
        v = it.replies[j]
        if k == "good":
            x.raw, x.rep, x.now = v, x.fixed or decode(x.dec, v), now
            out.append(x)
        elif not isinstance(v, resp.Error):
            break
        j += 1
    return out


def judge(chk, its, what):
    its = [it for it in its if it.obs]
    per = max(2000, len(its) // 6 + 1)

    def one(a):
        ch = its[a:a + per]
        p = os.path.join(core.workdir(), "conn.%d.%d.ndjson" % (id(its), a))
        with open(p, "w") as f:
            f.write("\n".join(json.dumps(it.line()) for it in ch) + "\n")
        r = core.tlc("ConnTrace", env={"TRACE": p, "STEPS": sum(len(it.obs) + 1 for it in ch)}, xmx="3g")
        os.unlink(p)
        return ch, r
    for ch, r in core.parallel([lambda a=a: one(a) for a in range(0, len(its), per)], 6):
        if r.ok:
            chk.traces += len(ch)
            chk.events += sum(len(it.obs) for it in ch)
            continue
        mm = r.prints("MISMATCH")
        if not mm:
            raise core.ToolError("ConnTrace failed: " + r.out[-1500:])
        it = ch[mm[0]["i"] - 1]
        o = it.obs[mm[0]["s"] - 1]
        lo = it.obs[mm[0]["s"] - 2]["to"] if mm[0]["s"] > 1 else 0
        line = "%s: after bytes %d..%d of %r%s the server had sent %s%s%s" % (
            what, lo, o["to"], it.data[max(0, o["to"] - 120):o["to"]], " (%d bytes in all)" % len(it.data), o["obs"] or "nothing",
            " and closed" if o["shut"] else "", " malformed: " + it.bad if getattr(it, "bad", None) else "")
        chk.violation(line, "items %r\npieces %r\ndata %r" % ([(k, e) for (k, _), e in zip(it.parts, it.ends)], it.obs, it.data[:4000]))


# ------------------------------------------------------------------------------------------------------------------ C12
OPTS = {b"NX", b"XX", b"GT", b"LT", b"CH", b"INCR", b"GET", b"EX", b"PX", b"EXAT", b"PXAT", b"KEEPTTL", b"BYSCORE", b"BYLEX", b"REV", b"LIMIT", b"WITHSCORES",
        b"REPLACE", b"ABSTTL", b"IDLETIME", b"FREQ", b"SYNC", b"ASYNC", b"OBJECT"}
FROM = {b"SET": 3, b"ZRANGE": 4, b"EXPIRE": 3, b"PEXPIRE": 3, b"EXPIREAT": 3, b"PEXPIREAT": 3, b"RESTORE": 4, b"OBJECT": 1, b"FLUSHALL": 1, b"DEBUG": 1,
        b"ZRANGEBYSCORE": 4, b"ZREVRANGEBYSCORE": 4, b"ZRANGEBYLEX": 4, b"ZREVRANGEBYLEX": 4, b"ZREVRANGE": 4}


def scramble(rng, c):
    """command name and option keywords in random case"""
    f = lambda b: bytes(x ^ 32 if chr(x).isalpha() and rng.random() < .5 else x for x in b)
    w = list(c.wire)
    n = w[0].upper()
    if n in FROM:
        for j in range(FROM[n], len(w)):
            if isinstance(w[j], bytes) and w[j].upper() in OPTS:
                w[j] = f(w[j])
    if n == b"ZADD":
        j = 2
        while j < len(w) and isinstance(w[j], bytes) and w[j].upper() in OPTS:
            w[j] = f(w[j])
            j += 1
    w[0] = f(w[0])
    c.wire = w
    return c


def framed(c, rng):
    """the same request with some arguments sent as simple strings or integers"""
    w = []
    for x in c.wire:
        if isinstance(x, bytes) and rng.random() < .4 and b"\r" not in x and b"\n" not in x:
            if ks.canon_int(x) is not None and rng.random() < .6:
                x = resp.RawFrame(b":%s\r\n" % x)
            else:
                x = resp.RawFrame(b"+%s\r\n" % x)
        w.append(x)
    c.wire = w
    return c


def small_streams(k, rng):
    """short pipelines on keys of the connection's own (k: 4 bytes)"""
    h = lambda t: t + k
    return [
        [SET(h(b"s"), b"a\r\nb"), GET(h(b"s")), DEL(h(b"s"))],
        [INCRBY(h(b"c"), 1, plain=True), INCRBY(h(b"c"), 1, plain=True), Cmd(b"PING\r\n", {"op": "ping"}, "pong"), GET(h(b"c"))],
        [PUSH(h(b"l"), [b"", b"$1\r\nx\r\n"], left=False), LRANGE(h(b"l"), 0, -1), POP(h(b"l"))],
        [HSET(h(b"h"), [(b"f", b"*1\r\n")]), HGETALL(h(b"h")), UNKNOWN(b"NoSuch", b"x")],
        [framed(SET(h(b"s"), b"12", ex=("EX", 5)), rng), framed(INCRBY(h(b"s"), 3), rng), framed(GET(h(b"s")), rng), framed(TTL(h(b"s")), rng)],
        [Cmd(b"PING\r\n", {"op": "ping"}, "pong"), ZADD(h(b"z"), [(1.0, b"\r\n")]), ZRANGE_RANK(h(b"z"), 0, -1, ws=True), PING()],
        [PUSH(h(b"l"), [b"x"]), SET(h(b"l"), b"y", c="NX"), INCRBY(h(b"l"), 1), EXISTS(h(b"l"), h(b"l"))],
    ]


def segmentation(chk, binary, what, chosen, cutter):
    """chosen: indices of the small streams; cutter(length, rng) -> list of cut lists"""
    rng = random.Random("C12/%s/%d" % (what, core.SEED))
    its, cuts, n = [], [], 0
    with node.Node(binary, freeze=T0, workers=1) as nd:
        for si in chosen:
            proto = Items([("good", c) for c in small_streams(b"0000", random.Random(si))[si]])
            for cs in cutter(len(proto.data), rng):
                n += 1
                its.append(Items([("good", c) for c in small_streams(b"%04x" % n, random.Random(si))[si]]))
                cuts.append(cs)
        play(nd, its, cuts)
        alive(chk, nd, what)
    judge(chk, its, what)
    tr = ks.Trace()
    for j, it in enumerate(its):
        if j % 40 == 0:
            tr.reset()
        tr.ev += events(it, T0)
    ks.check_trace(chk, tr, what, jobs=4)
    chk.add("segmentations", len(its))
    chk.sample({"stream": repr(its[0].data[:80]), "cuts": cuts[len(cuts) // 2][:8]})


def pairs(frac):
    def f(n, rng):
        all1 = [[a] for a in range(1, n)]
        all2 = [[a, b] for a in range(1, n) for b in range(a + 1, n)]
        if frac < 1:
            all2 = rng.sample(all2, int(len(all2) * frac))
        return all1 + all2 + [list(range(1, n))] + [[]]
    return f


def randcuts(m):
    return lambda n, rng: [sorted(rng.sample(range(1, n), rng.randrange(3, min(n - 1, 12)))) for _ in range(m)]


def sizes(chk, binary):
    """requests around every internal buffer size, alone, behind one another, cut near their ends"""
    rng = random.Random("C12s/%d" % core.SEED)
    its, cuts = [], []
    tot = 0
    for base in [0, 1, 100, 1000, 4096, 8192, 8192 * 2, 8192 * 4, 65536, 131072, 1 << 20] + ([1 << 22, 1 << 24] if core.thorough() else []):
        for dlt in ([-40, -37, -36, -35, -34, -33, -32, -31, -30, -29, -3, -2, -1, 0, 1, 2, 3] if base <= 65536 else [-1, 0]):
            v = base + dlt
            if v < 0:
                continue
            tot += 1
            k = b"%04x" % tot
            val = bytes([97 + tot % 26]) * v
            parts = [SET(k, val), GET(k), SET(k, b"z"), PUSH(b"L" + k, [val, b"", val[:5]]), LRANGE(b"L" + k, 0, -1), GET(k), DEL(b"L" + k)]
            if rng.random() < .5:
                parts = parts[:3]
            it = Items([("good", c) for c in parts])
            n = len(it.data)
            e = it.ends
            for cs in [[], sorted({min(n - 1, max(1, e[0] + rng.randrange(-3, 4)))}), [x for x in range(8192, n, 8192)][:40], sorted(set(rng.sample(range(1, n), min(n - 1, 5))))]:
                tot += 1
                k2 = b"%04x" % tot
                it2 = Items([("good", retarget(c, k, k2)) for c in parts])
                its.append(it2)
                cuts.append(cs)
    with node.Node(binary, freeze=T0, workers=1) as nd:
        play(nd, its, cuts, width=40)
        alive(chk, nd, "sizes")
    judge(chk, its, "large requests")
    tr = ks.Trace()
    for j, it in enumerate(its):
        if j % 40 == 0:
            tr.reset()
        tr.ev += events(it, T0)
    ks.check_trace(chk, tr, "large requests", jobs=4)
    chk.add("sized_streams", len(its))


def retarget(c, a, b):
    """the same command on another key"""
    c = c.copy()
    c.wire = [x.replace(a, b) if isinstance(x, bytes) and len(x) < 10 else x for x in c.wire]
    c.ev = {k: (W(v.b.replace(a, b)) if isinstance(v, W) else [W(w.b.replace(a, b)) for w in v] if k == "ks" else v) for k, v in c.ev.items()}
    return c


def pipelines(chk, binary, i):
    """long pipelines sent at once or in random pieces while the replies are being read; command names and options in random case"""
    rng = random.Random("C12p/%d/%d" % (core.SEED, i))
    tr = ks.Trace()
    with node.Node(binary, freeze=T0) as nd:
        for r in range(N(6, 60)):
            cl = node.Client(nd.addr, timeout=30)
            tr.reset()
            g = gen.Gen(rng, {"ctr": 3, "txt": 4, "list": 4, "hash": 4, "set": 3, "zset": 4, "zlex": 2, "ttl": 3, "obj": 1}, nkeys=2, big=r % 2 == 0)
            cmds = [FLUSHALL(b"SYNC")]
            while len(cmds) < N(700, 1500):
                c = g.next(nd.now)
                if isinstance(c, int) or c.risky:
                    continue
                cmds.append(scramble(rng, c))
            data = b"".join(c.bytes() for c in cmds)
            mode = r % 3

            def feed():
                try:
                    if mode == 0:
                        cl.s.sendall(data)
                        return
                    p = 0
                    while p < len(data):
                        m = rng2.choice([1, 2, 3, 7, 20, 100, 500, 1447, 8192]) if mode == 1 else rng2.choice([1447, 4096, 8192, 16384])
                        cl.s.sendall(data[p:p + m])
                        p += m
                        if rng2.random() < .02:
                            time.sleep(.001)
                except OSError:
                    pass
            rng2 = random.Random(r)
            t = threading.Thread(target=feed, daemon=True)
            t.start()
            for c in cmds:
                try:
                    v = cl.read()
                    c.rep = c.fixed or decode(c.dec, v)
                except (resp.Closed, resp.Bad, TimeoutError) as e:
                    c.rep = {"k": "closed" if isinstance(e, resp.Closed) else "weird", "v": [], "raw": str(e)}
                c.now = nd.now
                tr.ev.append(c)
                if c.rep["k"] in ("closed", "weird"):
                    break
            t.join(10)
            if cmds[-1].rep and cmds[-1].rep["k"] not in ("closed", "weird"):
                # nothing more may come
                cl.s.settimeout(.05)
                try:
                    x = cl.s.recv(100)
                    chk.violation("a pipeline of %d requests was answered by more replies" % len(cmds), repr(x))
                except TimeoutError:
                    pass
            cl.close()
        alive(chk, nd, "pipelines")
    note(chk, "pipeline", tr)
    ks.check_trace(chk, tr, "pipeline", jobs=4)


def c12(chk, b):
    chk.design(core.tlc_must("MCConn"))
    fr = N(.25, 1)
    core.parallel([lambda i=i: segmentation(chk, b, "request pieces", [i, i + 3] if i != 2 else [2, 5, 6], pairs(fr)) for i in range(3)] +
                  [lambda: segmentation(chk, b, "request pieces at random", list(range(7)), randcuts(N(150, 4000)))] +
                  [lambda: sizes(chk, b)] + [lambda i=i: pipelines(chk, b, i) for i in range(2)], 5)


# ------------------------------------------------------------------------------------------------------------------ C13
def adversarial(rng, pairs_, bigs):
    out = [b""] + [bytes([b]) for b in range(256)]
    sp = [0, 10, 13, 32, 36, 42, 43, 45, 58, 48, 39, 34, 92, 123, 125, 127, 128, 255]
    out += [bytes(p) for p in itertools.product(sp, repeat=2)][::pairs_]
    out += [b"\r\n", b"\n\r", b"\r\n\r\n", b"$5\r\nhello\r\n", b"$-1\r\n", b"*1\r\n$4\r\nPING\r\n", b"+OK\r\n", b"-ERR x\r\n", b":1\r\n", b"*-1\r\n", b"PING\r\n", b"a\r\n+b",
            b"\xed\xa0\x80", b"\xc0\x80", b"\xf5\x80\x80\x80", b"\xef\xbb\xbfx", b"\xff" * 9, "é日本\U0001f600".encode(), b"007", b"+5", b"-0", b"00", b"+0", b"1e3", b"0x10", b" 3", b"3 ",
            b"9223372036854775807", b"9223372036854775808", b"-9223372036854775808", b"-9223372036854775809", b"1.0", b"1.", b".5", b"inf", b"nan", b"-inf", b"true", b"null", b"(nil)",
            b"%s%n{}{:?}", b"\x1b[31m", b"'; DROP", b"\\r\\n", b"{a}", b"{}", b"(", b"[", b"(a", b"[a"]
    for n in bigs:
        out += [bytes(rng.randrange(256) for _ in range(min(n, 3000))).ljust(n, bytes([rng.randrange(256)]))]
    for _ in range(40):
        out.append(bytes(rng.choice([0, 10, 13, 43, 45, 36, 58, 42, 255, 97]) for _ in range(rng.randrange(2, 40))))
    return list(dict.fromkeys(out))


def roles(b, other, rng):
    """b in every role a byte string can have, and everything that reads it back"""
    P = lambda t: t + b if rng.random() < .5 else b + t
    s, l, h, S_, z = P(b"s"), P(b"l"), P(b"h"), P(b"S"), P(b"z")
    cs = [SET(s, b), GET(s), SET(s, other, get=True), SET(s, b, get=True), SET(b, b"kk"), GET(b), EXISTS(b, s), DEL(b),
          PUSH(l, [b, other, b], left=False), PUSH(l, [b]), LRANGE(l, 0, -1), POP(l), POP(l, 2, left=False), LLEN(l),
          HSET(h, [(b, other), (other + b"'", b)]), HGET(h, b), HMGET(h, [b, other + b"'", other]), HGETALL(h), HEXISTS(h, b), HSETNX(h, b, b"no"), HDEL(h, [b]), HGETALL(h),
          SADD(S_, [b, other]), SMEMBERS(S_), SISMEMBER(S_, b), SMISMEMBER(S_, [other, b, b + b"x"]), SREM(S_, [b]), SMEMBERS(S_),
          ZADD(z, [(0.0, b), (0.0, other)]), ZRANK(z, b), ZRANK(z, b, rev=True), ZRANGE_RANK(z, 0, -1, ws=True), ZRANGE_RANK(z, 0, -1, rev=True),
          ZRANGE_LEX(z, ("in", b), ("in", b)), ZRANGE_LEX(z, ("ex", b), ("max",)), ZRANGE_LEX(z, ("min",), ("in", b), rev=True), ZRANGE_SCORE(z, (False, 0.0), (False, 0.0)),
          ZREM(z, [b]), ZRANGE_RANK(z, 0, -1), DUMP(h), EXPIRE(h, 100), TTL(h), PTTL(h), OBJECT(b"FREQ", h), DEBUGOBJ(h),
          SETEX(b, 100, b), GET(b), INCRBY(h, 1), GET(l), DEL(s, l, h, S_, z, b)]
    return cs


def quoting(b):
    """requests whose error replies quote client input; each is answered by one error or by closing"""
    return [[b], [b, b], [b"NOSUCH", b, b"x", b], [b"nosuch" + b], [b"OBJECT", b, b"k"], [b"CONFIG", b], [b"CONFIG", b, b"x"], [b"DEBUG", b, b"k"], [b"SET", b"qk", b"v", b],
            [b"SET", b"qk", b"v", b"EX", b + b"x"], [b"ZADD", b"qz", b + b"x", b"m"], [b"INCRBY", b"qk", b + b"x"], [b"EXPIRE", b"qk", b"1", b + b"!"],
            [b"GET", b"qk", b], [b"ZRANGE", b"qz", b + b"x", b"1"], [b"ZRANGEBYLEX", b"qz", b + b"", b"+"], [b"LPOP", b"ql", b + b"x"], [b"RESTORE", b"qr", b"0", b], [b"RESTORE", b"qr", b"0", b"x", b],
            [b"NOSUCH", resp.RawFrame(b"*2\r\n$%d\r\n%s\r\n:1\r\n" % (len(b), b))], [b"SET", resp.RawFrame(b"*1\r\n$%d\r\n%s\r\n" % (len(b), b)), b"v"]]


KNOWN_NAMES = {x for x in ("ping get set setex psetex incr incrby decr decrby del exists expire pexpire expireat pexpireat ttl pttl lpush rpush lpushx rpushx lpop rpop llen "
                           "lrange hset hsetnx hget hmget hgetall hexists hdel hincrby sadd srem sismember smismember smembers zadd zrem zrank zrevrank zrange zrevrange "
                           "zrangebyscore zrevrangebyscore zrangebylex zrevrangebylex zremrangebyrank zremrangebyscore zremrangebylex dump restore object flushall info debug config "
                           "syncsnapshot").split()}


def binary_roles(chk, binary, strings, part):
    rng = random.Random("C13/%d/%d" % (core.SEED, part))
    with node.Node(binary, freeze=T0) as nd:
        d = ks.Driver(nd, batch=50)
        for n, b in enumerate(strings):
            if n % 10 == 0:
                d.reset()
                d.run(FLUSHALL(b"SYNC"))
            other = rng.choice([b"o", b"\0", b"\xff\xfe", b"$1\r\n", b"-x", strings[rng.randrange(len(strings))][:50]])
            if other == b or other + b"'" == b:
                other = b"oo" if b != b"oo" else b"ooo"
            d.flush()
            d.batch = 1 if len(b) > 10000 else 50       # a pipeline whose replies are not read meanwhile would block both sides
            cs = roles(b, other, rng)
            dump = next(c for c in cs if c.ev["op"] == "dump")
            for c in cs:
                d.do(c)
                if c is dump:
                    d.flush()
                    if c.rep["k"] == "blob":
                        d.do(RESTORE(b + b"r", 0, c.rep["v"].b))
                        d.do(HGETALL(b + b"r"))
        d.flush()
        d.drop()
        alive(chk, nd, "binary strings")
    note(chk, "binary", d.tr)
    ks.check_trace(chk, d.tr, "binary strings", jobs=4)
    chk.add("strings_in_every_role", len(strings))


def quotes(chk, binary, strings):
    """error replies are single well-formed values: the reply to the request after them is its own"""
    rng = random.Random("C13q/%d" % core.SEED)
    its = []
    n = 0
    with node.Node(binary, freeze=T0, workers=1) as nd:
        for b in strings:
            for q in quoting(b):
                if isinstance(q[0], bytes) and q[0].lower().decode("latin1") in KNOWN_NAMES and len(q) == 1:
                    continue
                n += 1
                k = b"%06d" % n
                good = SET(k, k)
                kind, body = "bad", resp.enc(q)
                its.append(Items([("good", SET(k, k)), (kind, body), ("good", GET(k)), (kind, body), ("good", GET(k))]))
        # what may be a valid request after all (say GET k "" ...) is kept out by probing: a request that earns a plain reply is no bad item
        play(nd, its, [[] for _ in its])
        alive(chk, nd, "quoting errors")
    keep = []
    for it in its:
        o = it.obs[0]["obs"]
        if len(o) == 5 and o[1] == "r" and o[3] == "r":
            it.parts = [("good", x) for _, x in it.parts]
            it.plain = True
        keep.append(it)
    judge(chk, keep, "error replies")
    tr = ks.Trace()
    for j, it in enumerate(keep):
        if j % 300 == 0:
            tr.reset()
        if getattr(it, "plain", False):
            it.parts = [(("good" if isinstance(x, Cmd) else "skip"), x) for _, x in it.parts]
            for (k, x), v in zip(it.parts, it.replies):
                if k == "good":
                    x.rep, x.now = decode(x.dec, v), T0
                    tr.ev.append(x)
        else:
            tr.ev += events(it, T0)
    ks.check_trace(chk, tr, "requests after error replies", jobs=4)
    chk.add("quoting_requests", len(its))


def c13(chk, b):
    chk.design(core.tlc_must("MCConn"))
    rng = random.Random("C13/%d" % core.SEED)
    ss = adversarial(rng, N(3, 1), [127, 128, 129, 255, 256, 1000, 4095, 4096, 8190, 8191, 8192, 8193, 16384, 65535, 65536] + [1 << 20] + ([3 << 20, 8 << 20] if core.thorough() else []))
    rng.shuffle(ss)
    core.parallel([lambda i=i: binary_roles(chk, b, ss[i::4], i) for i in range(4)] +
                  [lambda: quotes(chk, b, [s for s in ss if len(s) < 20000][::N(2, 1)])], 5)


# ------------------------------------------------------------------------------------------------------------------ C14
E8 = [b":5\r\n", b"$3\r\nfoo\r\n", b"+foo\r\n", b"-err\r\n", b"$-1\r\n", b"*-1\r\n", b"*-5\r\n", b"$-9223372036854775808\r\n", b"*0\r\n", b"*1\r\n:5\r\n", b"*1\r\n*0\r\n", b"*1\r\n$-1\r\n",
      b"*2\r\n$-1\r\n$1\r\na\r\n", b"*1\r\n$0\r\n\r\n", b"*1\r\n$2\r\n\xff\xfe\r\n", b"*2\r\n$2\r\n\xc3\x28\r\n$1\r\nk\r\n", b"*1\r\n-GET\r\n", b"*1\r\n" * 20 + b"*0\r\n", b"*1\r\n" * 60 + b":1\r\n",
      b"*2\r\n$3\r\nGET\r\n*0\r\n", b"*2\r\n$3\r\nGET\r\n*-1\r\n", b"*2\r\n$3\r\nGET\r\n-x\r\n", b"*2\r\n$3\r\nDEL\r\n$-1\r\n", b"*3\r\n$3\r\nSET\r\n$1\r\nk\r\n*1\r\n$1\r\nv\r\n",
      b"*4\r\n$4\r\nHSET\r\n$1\r\nk\r\n*0\r\n$1\r\nv\r\n", b"*2\r\n:1\r\n:2\r\n", b"*3\r\n$4\r\nMGET\r\n*1\r\n$1\r\na\r\n:1\r\n", b"*1\r\n$9\r\nget\x00\r\n\r\n\xff\r\n"]
JUNK = [b"x\r\n", b"\r\n", b"GET foo\r\n", b"PING foo\r\n", b"ping\r\n", b"*x\r\n", b"*\r\n", b"$\r\n", b"$abc\r\n", b"*1\r\n$3\r\nabcXX", b"$-x\r\n", b":12a\r\n", b":\r\n", b"*1\r\n?",
        b"\x00\x01\x02", b"*1\r\n$99999999999999999999\r\n", b"*99999999999999999999\r\n", b"*2\r\n$3\r\nGET\r\nfoo\r\n", b"+a\nb\r\n", b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03",
        b"GET / HTTP/1.1\r\nHost: x\r\n\r\n", b"*1\r\n" * 3000, b"*1\r\n" * 200000, b"*9\r\n" * 50000, b"*1\r\n$4\r\nPINGPONG\r\n", b"$5\r\nhello!\r\n", b"*2\r\n\r\n", b"*1 \r\n$4\r\nPING\r\n",
        b"* 1\r\n", b"*+1x\r\n", b"*1.0\r\n", b"*0x1\r\n", b"$ 3\r\nabc\r\n", b"\xff" * 5000, b"*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$1\r\nvv\r\n", b"\n", b"\0" * 100, b"*2\r\n$1\r\n", b"!5\r\nhello\r\n"]
JUNK = [j for j in JUNK if j != b"*2\r\n$1\r\n"]


def partials(rng, k):
    full_ = [SET(k, b"hostile").bytes(), PUSH(k, [b"a", b"b"]).bytes(), HSET(k, [(b"f", b"v")]).bytes(), DEL(b"victim").bytes(), FLUSHALL().bytes(), FLUSHALL(b"SYNC").bytes()]
    f = rng.choice(full_)
    return rng.choice([f[:rng.randrange(1, len(f))], f[:rng.randrange(1, len(f))], f[:-1], f[:-2], b"*1000000000\r\n", b"*1000000000\r\n$4\r\nPING\r\n" * 1, b"$9223372036854775807\r\nabc",
                       b"*9223372036854775807\r\n$1\r\na\r\n", b"*3\r\n$3\r\nSET\r\n$100000000\r\nx", b"*1000000000000\r\n$1\r\na\r\n" + b":1\r\n" * 1000, b"$4294967296\r\n", b"*", b"$", b"+", b"-", b":",
                       b"P", b"PIN", b"PING\r", b"*2\r\n*2\r\n*2\r\n", b"*60\r\n" * 60, b"+" + b"a" * 100000, b"*1\r\n$1073741824\r\n" + b"z" * 50000, b":1", b"*1\r"])


def mutate(rng, b):
    """bytes near a request; what they are is told by classify"""
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        p = rng.randrange(len(b)) if b else 0
        x = rng.randrange(6)
        if x == 0 and b:
            b[p] = rng.randrange(256)
        elif x == 1 and b:
            del b[p]
        elif x == 2:
            b.insert(p, rng.choice(b"\r\n$*:+-019 \xff"))
        elif x == 3 and b:
            b[p] ^= 1 << rng.randrange(8)
        elif x == 4:
            q = rng.randrange(len(b) + 1)
            b[p:p] = b[min(p, q):max(p, q)][:20]
        elif b:
            b[p] = rng.choice(b"0123456789-")
    return bytes(b)


def hostile(chk, binary, part, rounds):
    """connections that mix good requests, bad ones, junk and halves, cut anywhere and ended in any way, next to a well-behaved client"""
    rng = random.Random("C14/%d/%d" % (core.SEED, part))
    tr = ks.Trace()
    its = []
    shapes = [s for n in (1, 2, 3) for s in itertools.product(["good", "bad", "junk"], repeat=n) if "junk" not in s[:-1] and s != ("good",) * n]
    with node.Node(binary, freeze=T0, workers=1, env={"RUDIS_server_addr": "127.0.0.1:0"}) as nd:
        d = ks.Driver(nd, tr)
        d.reset()
        g = gen.Gen(rng, {"ctr": 3, "txt": 4, "list": 4, "hash": 4, "set": 3, "zset": 4, "ttl": 3}, nkeys=1)
        holders = []
        bad = [resp.enc(w) for w in MALFORMED_ARGS(b"hk")] + E8
        rng.shuffle(bad)
        nb = nj = 0
        for r in range(rounds):
            for _ in range(8):
                c = g.next(nd.now)
                if not isinstance(c, int) and not c.risky:
                    d.do(c)
            d.flush()
            batch = []
            for _ in range(6):
                parts = []
                k = b"h%d" % rng.randrange(6)
                for kind in rng.choice(shapes):
                    if kind == "good":
                        parts.append(("good", rng.choice([SET(k, b"%d" % rng.randrange(100)), INCRBY(b"hn", 1, plain=True), GET(k), PUSH(b"hl", [b"x"]), LLEN(b"hl"), PING(), DEL(k)])))
                    elif kind == "bad":
                        parts.append(("bad", bad[nb % len(bad)]))
                        nb += 1
                    else:
                        parts.append(("junk", JUNK[nj % len(JUNK)]))
                        nj += 1
                rest = partials(rng, k) if parts[-1][0] != "junk" and rng.random() < .6 else b""
                it = Items(parts, rest)
                n = len(it.data)
                cut = set(rng.sample(range(1, n), min(n - 1, rng.choice([0, 0, 1, 2, 5])))) if n > 1 else set()
                # a server that closes with much input unread resets the connection, and replies in flight are lost with it: what
                # is large is sent when everything before it was answered
                at = [0] + it.ends
                cut = sorted(cut | {a for a, z in zip(at, at[1:] + [n]) if z - a > 1000 and a})
                batch.append((it, cut))
            # one connection at a time, so that the order of what is executed is known
            for it, cut in batch:
                play1(nd, it, cut, rng, holders)
                its.append(it)
                tr.ev += events(it, nd.now)
            # a new connection is served
            if r % 5 == 0:
                cl = node.Client(nd.addr)
                c = PING()
                c.rep, c.now = decode(c.dec, cl.cmd(b"PING")), nd.now
                tr.ev.append(c)
                cl.close()
            if not nd.alive():
                raise node.Dead("server process died; last input %r" % [i.data[:200] for i, _ in batch])
        for s in holders:
            s.close(rst=rng.random() < .5)
        gen.final(d, g)
        for k in [b"h%d" % j for j in range(6)] + [b"hn", b"hk", b"victim"]:
            d.do(GET(k))
        d.do(LRANGE(b"hl", 0, -1))
        d.flush()
        nd.control("settle")
        tr.ev.append(repl.contents_cmd(repl.snapshot(nd.addr), nd.now, ids=False, what="all keys after hostile input"))
        d.drop()
        alive(chk, nd, "hostile input")
    judge(chk, its, "hostile input")
    note(chk, "next to hostile input", tr)
    ks.check_trace(chk, tr, "next to hostile input", jobs=2)
    chk.add("hostile_connections", len(its))


def play1(nd, it, cut, rng, holders):
    s = Sock(nd.addr)
    for r in range(len(cut) + 1):
        lo = cut[r - 1] if r else 0
        to = cut[r] if r < len(cut) else len(it.data)
        if s.shut:
            break
        s.send(it.data[lo:to])
        nd.control("settle")
        n, shut = it.expect(to)
        got = s.await_(n - len(it.replies), shut)
        it.replies += got
        it.bad = s.bad
        if s.bad:
            got.append(None)
        it.obs.append({"to": to, "obs": ["e" if isinstance(x, resp.Error) else "bad" if x is None else "r" for x in got], "shut": s.shut})
    x = rng.random()
    if x < .2 and len(holders) < 40:
        holders.append(s)
        return
    if x < .5:
        try:
            s.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        if x < .35:
            # the half request is not executed now either, and the server lets go of the connection
            nd.control("settle")
            got = s.await_(0, True)
            if got or not s.shut:
                it.obs.append({"to": len(it.data), "obs": ["e" if isinstance(y, resp.Error) else "r" for y in got], "shut": it.obs[-1]["shut"] if s.shut else False})
    s.close(rst=x > .75)


def fuzz(chk, binary, part, rounds):
    """bytes near requests, whole connections of them: whatever they are, the process stays, others are served, and the data of
    others is untouched"""
    rng = random.Random("C14f/%d/%d" % (core.SEED, part))
    tr = ks.Trace()
    with node.Node(binary, freeze=T0, workers=1) as nd:
        d = ks.Driver(nd, tr)
        d.reset()
        g = gen.Gen(rng, {"ctr": 3, "txt": 4, "list": 4, "hash": 4, "set": 3, "zset": 4}, nkeys=1)
        # the fuzzed requests name keys of their own, none of which can turn into a victim's by a few changed bytes
        names = sum(g.keys.values(), [])
        g.keys = {h: [b"victim-" * 4 + k for k in q] for h, q in g.keys.items()}
        src = gen.Gen(rng, {"ctr": 2, "txt": 4, "list": 4, "hash": 4, "set": 3, "zset": 6, "zlex": 3, "ttl": 4, "obj": 2, "dump": 1}, nkeys=1, malformed=.1)
        for r in range(rounds):
            for _ in range(4):
                c = g.next(nd.now)
                if not isinstance(c, int) and not c.risky:
                    d.do(c)
            d.flush()
            data = b""
            for _ in range(rng.randrange(1, 6)):
                c = src.next(nd.now)
                if not isinstance(c, int):
                    x = c.bytes()
                    data += mutate(rng, x) if rng.random() < .7 else x
            if b"flushall" in data.lower() or b"syncsnapshot" in data.lower():
                continue
            s = Sock(nd.addr)
            s.send(data)
            nd.control("settle")
            s.await_(0)
            if s.bad:
                chk.violation("hostile input: malformed reply: %s" % s.bad, repr(data))
            s.close(rst=rng.random() < .3)
            if not nd.alive():
                raise node.Dead("server process died on %r" % data[:500])
            if nd.panics():
                chk.violation("the server panicked on hostile input: %s" % nd.panics()[0], repr(data))
                break
        gen.final(d, g)
        d.flush()
        snap = {s: (w, {k: v for k, v in dd.items() if k.startswith(b"victim-" * 4)}) for s, (w, dd) in repl.snapshot(nd.addr).items()}
        tr.ev.append(repl.contents_cmd(snap, nd.now, ids=False, what="the victim's keys after hostile input"))
        d.drop()
    note(chk, "next to fuzzed input", tr)
    ks.check_trace(chk, tr, "next to fuzzed input", jobs=2)
    chk.add("fuzzed_connections", rounds)


def snapshot_args(chk, binary):
    """the snapshot request with arguments that make no sense: only its own connection is concerned"""
    with node.Node(binary, freeze=T0, workers=2) as nd:
        d = ks.Driver(nd)
        d.reset()
        d.do(SET(b"a", b"1"))
        d.do(PUSH(b"l", [b"x", b"y"]))
        for a in [b":16385", b":-1", b":99999", b":9223372036854775807", b"$3\r\nabc", b"$0\r\n", b"$-1", b"*0", b":16384\r\n:1"]:
            n = 3 if a.endswith(b":1") else 2
            s = Sock(nd.addr)
            s.send(b"*%d\r\n$12\r\nsyncsnapshot\r\n%s\r\n" % (n, a))
            s.await_(1, timeout=2)
            s.close()
            d.do(INCRBY(b"a", 1))
            d.do(PUSH(b"l", [b"z"]))
            d.flush()
        s = Sock(nd.addr)
        s.send(b"*1\r\n$12\r\nsyncsnapshot\r\n")
        s.await_(1, timeout=2)
        s.close()
        d.do(LRANGE(b"l", 0, -1))
        d.flush()
        d.tr.ev.append(repl.contents_cmd(repl.snapshot(nd.addr), nd.now, ids=False))
        d.drop()
    ks.check_trace(chk, d.tr, "after senseless snapshot requests")


def next_to_a_stalled_snapshot(chk, binary):
    """connections that were open when a snapshot was taken are served, refused and closed as ever while its reader takes nothing"""
    tr = ks.Trace()
    with node.Node(binary, freeze=T0, workers=2) as nd:
        d = ks.Driver(nd, tr)
        d.reset()
        d.drop()
        s = Sock(nd.addr)
        s.send(resp.enc([b"SET", b"{ballast}", b"x" * (24 << 20)]))
        s.await_(1)
        s.close()
        held = []

        def before(r):
            if r == 1:
                held.append(Sock(nd.addr))
                held[0].s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
                held[0].send(b"*2\r\n$12\r\nsyncsnapshot\r\n:16384\r\n")
                nd.control("settle")
                q = select.poll()
                q.register(held[0].s, select.POLLIN)
                if not q.poll(8000):
                    raise node.Dead("no snapshot")
        its, cuts = [], []
        for j, tail in enumerate([("junk", x) for x in JUNK] + [("bad", resp.enc(w)) for w in MALFORMED_ARGS(b"hk")] + [("good", GET(b"s1"))]):
            k = b"s%d" % j
            it = Items([("good", SET(k, b"1")), ("good", GET(k)), tail] + ([("good", GET(k))] if tail[0] != "junk" else []))
            its.append(it)
            cuts.append([it.ends[0], it.ends[1]])
        play(nd, its, cuts, width=1000, before=before)
        for it in its:
            tr.ev += events(it, nd.now)
        alive(chk, nd, "a stalled snapshot")
        for x in held:
            x.close()
    judge(chk, its, "next to a stalled snapshot")
    note(chk, "next to a stalled snapshot", tr)
    ks.check_trace(chk, tr, "next to a stalled snapshot", jobs=2)


def c14(chk, b):
    chk.design(core.tlc_must("MCConn"))
    core.parallel([lambda i=i: hostile(chk, b, i, N(250, 3000)) for i in range(3)] + [lambda i=i: fuzz(chk, b, i, N(5000, 80000)) for i in range(2)] +
                  [lambda: snapshot_args(chk, b), lambda: next_to_a_stalled_snapshot(chk, b)], 6)


# ------------------------------------------------------------------------------------------------------------------ C15
ENDINGS = ["fin", "rst", "half", "shut", "junk", "bad", "error", "snapshot", "snapshot_cut", "unread"]


class Limited:
    """a real server with a connection limit; every connection sends a request at once and is served when that is answered"""

    def __init__(self, binary, n, scarce=False):
        """scarce: the clock that paces the retries of accept is moved by hand, and every connection being served is used at every step"""
        self.nd = node.Node(binary, freeze=T0, workers=1, env=dict({"RUDIS_max_connections": str(n)}, **({"VNODE_MONO": "1"} if scarce else {})))
        self.n, self.id, self.open, self.served, self.ev = n, 0, {}, set(), [{"op": "reset", "n": n, "served": []}]
        self.scarce, self.room = scarce, n
        self.half = []          # sockets of which the client's side is still open
        # something to send for "unread"
        s = Sock(self.nd.addr)
        s.send(resp.enc([b"SET", b"big", b"x" * (8 << 20)]))
        s.await_(1)
        s.send(resp.enc([b"RPUSH", b"wt", b"x"]))
        s.await_(1)
        s.close()
        self.nd.control("settle")

    def observe(self, ev):
        # only a matter of patience
        exp = list(self.open)[:max(len(self.served & set(self.open)), min(self.n, self.room))]
        end = time.time() + 8
        ticks = 0
        while True:
            self.nd.control("settle")
            for i, s in self.open.items():
                if i not in self.served and s.poll():
                    self.served.add(i)
            if all(i in self.served for i in exp) or time.time() > end or not self.nd.alive():
                break
            if self.scarce and ticks < 130:
                ticks += 1
                self.nd.control("mono 1000")
            else:
                time.sleep(.002)
        if len(self.open) > self.n:
            # give one that must not be served the chance to be
            time.sleep(.004)
            self.nd.control("mono 1000" if self.scarce else "settle")
            for i, s in self.open.items():
                if i not in self.served and s.poll():
                    self.served.add(i)
        ev["served"] = sorted(i for i in self.served if i in self.open)
        if self.scarce:
            for i in ev["served"]:
                self.open[i].send(b"*1\r\n$4\r\nPING\r\n")
            ev["served"] = [i for i in ev["served"] if self.open[i].await_(1)]
        self.ev.append(ev)

    def connect(self):
        self.id += 1
        s = Sock(self.nd.addr)
        s.send(b"*1\r\n$4\r\nPING\r\n")
        self.open[self.id] = s
        self.observe({"op": "open", "id": self.id})

    def descriptors(self, more):
        """from now on the process can open more further descriptors (None: as many as it likes)"""
        self.nd.control("settle")
        used = [int(x) for x in os.listdir("/proc/%d/fd" % self.nd.p.pid)]
        hard = resource.prlimit(self.nd.p.pid, resource.RLIMIT_NOFILE)[1]
        if more is None:
            resource.prlimit(self.nd.p.pid, resource.RLIMIT_NOFILE, (hard, hard))
            self.room = self.n
        else:
            top = max(used) + 1
            while top - len(used) < more:
                top += 1
            resource.prlimit(self.nd.p.pid, resource.RLIMIT_NOFILE, (top, hard))
            self.room = len(self.served & set(self.open)) + top - len(used)
        self.observe({"op": "fds", "room": self.room})

    def end(self, i, how):
        s = self.open.pop(i)
        if i not in self.served and how not in ("fin", "rst", "half", "shut"):
            how = "fin"
        if how == "half":
            s.send(b"*2\r\n$3\r\nGET\r\n$10\r\nab")
            s.close()
        elif how == "rst":
            s.close(rst=True)
        elif how == "fin":
            s.close()
        elif how == "shut":
            # no more requests, but the client is still there to read the reply to the last one
            s.send(b"*1\r\n$4\r\nPING\r\n")
            s.s.shutdown(socket.SHUT_WR)
            s.await_(0, True, timeout=3)
            self.half.append(s)
        elif how == "unread":
            s.send(resp.enc([b"GET", b"big"]) * 3)
            self.nd.control("settle")
            s.close(rst=True)
        else:
            s.send({"junk": b"*x\r\n", "bad": resp.enc([b"SET", b"k"]), "error": b"*2\r\n$12\r\nsyncsnapshot\r\n:99999\r\n",
                    "snapshot": b"*2\r\n$12\r\nsyncsnapshot\r\n:7\r\n", "snapshot_cut": b"*2\r\n$12\r\nsyncsnapshot\r\n:16384\r\n"}[how])
            if how == "snapshot":
                t = time.time()
                while not s.shut and time.time() - t < 8:
                    try:
                        s.s.setblocking(True)
                        s.s.settimeout(8)
                        if not s.s.recv(1 << 16):
                            s.shut = True
                    except OSError:
                        break
            elif how in ("junk",):
                s.await_(0, True, timeout=3)
            else:
                self.nd.control("settle")
            s.close()
        self.observe({"op": "end", "id": i, "how": how})

    def close(self):
        for s in list(self.open.values()) + self.half:
            s.close()
        self.nd.kill()


def limit_histories(chk, binary, n, part, steps):
    rng = random.Random("C15/%d/%d/%d" % (core.SEED, n, part))
    L = Limited(binary, n)
    try:
        # every pair of endings in a row at the limit, then n connections must fit again; and random histories
        seqs = [(a, b) for a in ENDINGS for b in ENDINGS]
        rng.shuffle(seqs)
        for a, b in seqs[:N(30, 81)]:
            while len(L.open) < n + 1:
                L.connect()
            ids = list(L.open)
            L.end(ids[0], a)
            L.end(ids[min(1, len(ids) - 1)], b)
        for _ in range(steps):
            if len(L.open) < n or (rng.random() < .5 and len(L.open) < n + 3):
                L.connect()
            else:
                ids = list(L.open)
                L.end(rng.choice(ids) if rng.random() < .5 else rng.choice(ids[:n]), rng.choice(ENDINGS))
        while L.open:
            L.end(rng.choice(list(L.open)), rng.choice(ENDINGS))
        for _ in range(n + 2):
            L.connect()
        if not L.nd.alive():
            raise node.Dead("server process died")
    finally:
        L.close()
    return L.ev


def scarce_histories(chk, binary, n, part, rounds):
    """the operating system runs out of descriptors before the limit is reached, again and again"""
    rng = random.Random("C15 fds/%d/%d/%d" % (core.SEED, n, part))
    L = Limited(binary, n, scarce=True)
    try:
        for r in range(rounds):
            for _ in range(rng.randrange(3)):
                if len(L.open) < n:
                    L.connect()
            L.descriptors(rng.choice([0, 0, 1, 2]))
            for _ in range(rng.choice([2, 4, 6])):
                if len(L.open) < n + 2 and (not L.open or rng.random() < .6):
                    L.connect()
                else:
                    ids = list(L.open)
                    L.end(rng.choice(ids), rng.choice(["fin", "rst", "half", "junk", "bad", "shut"]))
            if rng.random() < .8 or r == rounds - 1:
                L.descriptors(None)
        while L.open:
            L.end(rng.choice(list(L.open)), rng.choice(ENDINGS))
        for _ in range(n + 2):
            L.connect()
        if not L.nd.alive():
            raise node.Dead("server process died")
    finally:
        L.close()
    return L.ev


def c15(chk, b):
    for n in (1, 2, 3):
        chk.design(core.tlc_must("MCLimit", cfg="MCLimit%d" % n))
    evs = core.parallel([lambda n=n, p=p: limit_histories(chk, b, n, p, N(80, 1500)) for n in (1, 2, 3) for p in range(2)]
                        + [lambda n=n, p=p: scarce_histories(chk, b, n, p, N(12, 200)) for n in (2, 4) for p in range(2)], 8)
    for e in evs:
        p = os.path.join(core.workdir(), "limit.ndjson")
        with open(p, "w") as f:
            f.write("\n".join(json.dumps(x) for x in e) + "\n")
        r = core.tlc("LimitTrace", env={"TRACE": p})
        if r.ok:
            chk.traces += 1
            chk.events += len(e)
            chk.sample({"limit": e[0]["n"], "history": e[1:12]})
            continue
        mm = r.prints("MISMATCH")
        if not mm:
            raise core.ToolError("LimitTrace failed: " + r.out[-1500:])
        i = mm[0]["i"] - 1
        line = "with a limit of %d, after %s the connections served are %r; they must be %r" % (e[0]["n"], {k: v for k, v in e[i].items() if k != "served"}, e[i]["served"], mm[0]["exp"])
        chk.violation(line, "\n".join(json.dumps(x) for x in e[:i + 1]))
