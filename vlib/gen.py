"""Seeded random command sequences (Cmds of ks.py), judged afterwards by spec/KsTrace.tla."""
import math, random, struct
from .ks import *
from .families import MALFORMED_ARGS

INF = math.inf
EDGE = [0, 1, -1, 2, 3, 7, -5, 10, 100, 127, 128, 255, 256, 1000, 65535, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), 1 << 32, (1 << 53) + 1, 1 << 62,
        IMAX, IMAX - 1, IMIN, IMIN + 1]
NONCANON = [b"007", b"+5", b"-0", b"00", b"+0", b"1e3", b"0x10", b" 3", b"3 ", b"3\n", b"1_000"]
TEXT = [b"", b"a", b"b", b"ab", b"abc", b"B", b"x y", b"12abc", b"1.5", b"-", b"--1", b"inf", b"nan", b"-1-", b"9223372036854775808", b"-9223372036854775809",
        b"99999999999999999999999", b"\r\n", b"a\r\nb", b"\0", b"a\0", b"\xff", b"\xff\xfe\x80", b"$5\r\nhello\r\n", b"*1\r\n", b"+OK\r\n", b"-ERR x\r\n",
        b":1\r\n", "é".encode(), "日本".encode(), b"NX", b"GET", b"EX", b"\x80", b"\xc3", b"{}", b"{", b"}", b"null", b"None", b"true"]


def blob(rng, big=False):
    n = rng.choice([3, 17, 64, 127, 128, 255, 256, 512] + ([1023, 1024, 4095, 4096, 4097, 8191, 16384, 65535, 65536, 70001] if big else []))
    return b"v" + bytes(rng.randrange(256) for _ in range(min(n, 24))) + b"z" * max(0, n - 25)


class Gen:
    """rng, and which parts of the command language are exercised: kinds maps a command group to a weight"""

    def __init__(self, rng, kinds, nkeys=3, cross=0.05, opaque=False, big=False, tick=0.0, malformed=0.0, payloads=None, ttlheavy=False):
        self.rng, self.kinds, self.cross, self.opaque, self.big = rng, kinds, cross, opaque, big
        self.tick, self.malformed, self.ttlheavy = tick, malformed, ttlheavy
        tags = [b"", b"{t}", b"{}", b"\r\n", b"\xff"]
        self.keys = {}
        homes = {"ctr": b"c", "txt": b"s", "raw": b"t", "list": b"l", "hash": b"h", "set": b"S", "zset": b"z", "zlex": b"y"}
        for h, p in homes.items():
            self.keys[h] = [rng.choice(tags) + p + (b"%d" % i) for i in range(nkeys)]
        self.members = TEXT[:12] + [b"%d" % i for i in rng.sample(EDGE, 6)] + rng.sample(TEXT[12:], 10) + [blob(rng) for _ in range(2)]
        self.small = rng.sample(self.members, 6)
        base = [-1.0, 0.0, 1.0, 1.25, 2.0, 3.5, 10.0, -2.75, 1000000.0, float(1 << 40), -float(1 << 48), INF, -INF]
        self.scores = base if not opaque else base + [0.1, 0.2, 0.1 + 0.2, 1e-300, 5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 1e17, 1e16,
                                                      123456789.123456789, 3.0000000000000004, 3.0, 2.9999999999999996, 1e21, 1e22, 1e-7, 1 / 3]
        if opaque:
            for _ in range(6):
                f = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
                if f == f and abs(f) != INF:
                    self.scores.append(f)
        self.payloads = []                    # (blob bytes) learned at run time
        self.groups = [g for g in kinds for _ in range(kinds[g])]

    # ---- atoms
    def key(self, home):
        r = self.rng
        if r.random() < self.cross:
            # never put a counter on a raw key, nor a raw value on a counter; never mix scores into the lex keys
            home = r.choice([h for h in self.keys if h not in ("zlex", "raw")])
        return r.choice(self.keys[home])

    def anykey(self):
        return self.rng.choice(self.keys[self.rng.choice([h for h in self.keys if h in self.kinds or h in ("ctr",)] or list(self.keys))])

    def mem(self):
        r = self.rng
        return r.choice(self.small) if r.random() < .8 else r.choice(self.members)

    def mems(self, hi=4):
        return [self.mem() for _ in range(self.rng.choice([1, 1, 1, 2, 2, 3, hi]))]

    def val(self):
        r = self.rng
        x = r.random()
        if x < .3:
            return b"%d" % r.choice(EDGE)
        if x < .9 or not self.big:
            return r.choice(TEXT)
        return blob(r, True)

    def text(self):
        r = self.rng
        while True:
            v = r.choice(TEXT) if r.random() < .9 else blob(r, self.big)
            return v

    def n(self):
        r = self.rng
        return r.choice(EDGE) if r.random() < .3 else r.randrange(-20, 50)

    def idx(self):
        r = self.rng
        x = r.random()
        return r.randrange(-4, 6) if x < .7 else r.randrange(-20, 20) if x < .9 else r.choice([IMAX, IMIN, 1 << 32, -(1 << 32), 1000, -1000, 1 << 31])

    def score(self):
        r = self.rng
        return r.choice(self.scores) if r.random() < .5 or self.opaque else r.randrange(-8, 12) / 4

    def bound(self):
        s = self.score()
        return (self.rng.random() < .35, s)

    def lexb(self):
        r = self.rng
        x = r.random()
        return ("min",) if x < .15 else ("max",) if x < .3 else (r.choice(["in", "ex"]), self.mem())

    def lim(self):
        r = self.rng
        if r.random() < .5:
            return None
        return (r.choice([0, 0, 1, 2, 3, 10, IMAX]), r.choice([-1, -1, 0, 1, 2, 5, 100, IMAX, IMIN]))

    def dur(self, ms=False):
        """positive duration, mostly short so that it will pass"""
        r = self.rng
        n = r.choice([1, 2, 3, 5, 10, 100, 1000, 86400]) if r.random() < .9 else r.choice([1 << 31, 1 << 32, 10 ** 11])
        return n * (r.choice([1, 10, 999, 1000, 1001]) if ms else 1)

    # ---- commands
    def next(self, now):
        """a Cmd, or an int (advance the clock by so many ms)"""
        r = self.rng
        x = r.random()
        if x < self.tick:
            return r.choice([1, 1, 2, 9, 10, 499, 500, 501, 999, 1000, 1001, 1999, 2000, 3000, 10000, 100000])
        if x < self.tick + self.malformed:
            return MALFORMED(r.choice(MALFORMED_ARGS(self.anykey())))
        return getattr(self, "g_" + r.choice(self.groups))(now)

    def ex(self, now, keep=True):
        r = self.rng
        c = r.randrange(5 if keep else 4)
        if c == 4:
            return ("KEEPTTL",)
        bad = r.random() < .08
        if bad:
            return (("EX", "PX", "EXAT", "PXAT")[c], r.choice([0, -1, IMIN, IMAX, -1000, IMAX // 1000 + 1, IMAX // 1000, IMAX - now + 1, IMAX - now]))
        if c == 0:
            return ("EX", self.dur())
        if c == 1:
            return ("PX", self.dur(True))
        if c == 2:
            return ("EXAT", now // 1000 + r.choice([1, 2, 5, 100, 0, -1, -1000]) if r.random() < .9 else r.choice([1, 5]))
        return ("PXAT", now + r.choice([1, 2, 500, 1000, 5000, 0, -1, -1000]) if r.random() < .9 else r.choice([1, 5]))

    def g_ctr(self, now):
        r = self.rng
        k = self.key("ctr")
        x = r.random()
        if x < .25:
            v = b"%d" % (r.choice(EDGE) if r.random() < .5 else r.randrange(-100, 100)) if r.random() < .85 else r.choice(TEXT)
            return SET(k, v, c=r.choice(["", "", "NX", "XX"]), get=r.random() < .3, rng=r)
        if x < .45:
            return INCRBY(k, r.choice([1, -1]), plain=True)
        if x < .7:
            return INCRBY(k, self.n())
        if x < .85:
            return DECRBY(k, self.n())
        if x < .95:
            return GET(k)
        return DEL(k)

    def g_txt(self, now):
        r = self.rng
        k = self.key("txt")
        x = r.random()
        if x < .5:
            e = self.ex(now) if self.ttlheavy and r.random() < .6 or r.random() < .1 else None
            return SET(k, self.text(), c=r.choice(["", "", "", "NX", "XX"]), get=r.random() < .3, ex=e, rng=r)
        if x < .55:
            ms = r.random() < .5
            return SETEX(k, self.dur(ms) if r.random() < .9 else r.choice([0, -1, IMIN, IMAX]), self.text(), ms=ms)
        if x < .75:
            return GET(k)
        if x < .85:
            return EXISTS(*[self.anykey() for _ in range(r.choice([1, 1, 2, 4]))])
        if x < .9:
            return INCRBY(k, self.n())
        return DEL(*[self.key("txt") for _ in range(r.choice([1, 1, 2, 3]))])

    def g_raw(self, now):
        r = self.rng
        k = r.choice(self.keys["raw"])
        return SET(k, r.choice(NONCANON) if r.random() < .7 else self.val(), get=r.random() < .3) if r.random() < .5 else GET(k)

    def g_list(self, now):
        r = self.rng
        k = self.key("list")
        x = r.random()
        left = r.random() < .5
        if x < .45:
            return PUSH(k, [self.val() for _ in range(r.choice([1, 1, 2, 3, 7]))], left=left, x=r.random() < .25)
        if x < .7:
            return POP(k, r.choice([None, None, 0, 1, 2, 3, 5, 100, IMAX, -1, IMIN] if r.random() < .5 else [None]), left=left)
        if x < .9:
            return LRANGE(k, self.idx(), self.idx()) if r.random() < .7 else LRANGE(k, 0, -1)
        return LLEN(k) if r.random() < .7 else DEL(k)

    def g_hash(self, now):
        r = self.rng
        k = self.key("hash")
        x = r.random()
        if x < .3:
            return HSET(k, [(self.mem(), self.val()) for _ in range(r.choice([1, 1, 2, 3]))])
        if x < .38:
            return HSETNX(k, self.mem(), self.val())
        if x < .5:
            return HINCRBY(k, self.mem(), self.n())
        if x < .68:
            return HDEL(k, self.mems())
        if x < .76:
            return HGET(k, self.mem())
        if x < .84:
            return HMGET(k, self.mems())
        if x < .9:
            return HEXISTS(k, self.mem())
        return HGETALL(k) if r.random() < .8 else DEL(k)

    def g_set(self, now):
        r = self.rng
        k = self.key("set")
        x = r.random()
        if x < .35:
            return SADD(k, self.mems())
        if x < .6:
            return SREM(k, self.mems())
        if x < .7:
            return SISMEMBER(k, self.mem())
        if x < .8:
            return SMISMEMBER(k, self.mems())
        return SMEMBERS(k) if r.random() < .9 else DEL(k)

    def g_zset(self, now):
        r = self.rng
        k = self.key("zset")
        x = r.random()
        if x < .4:
            c, g = r.choice([("", "")] * 4 + [("NX", ""), ("XX", ""), ("", "GT"), ("", "LT"), ("XX", "GT"), ("XX", "LT")])
            if not self.opaque and r.random() < .2:
                s = r.randrange(-8, 12) / 4 if r.random() < .9 else r.choice([INF, -INF])
                return ZADD(k, [(s, self.mem())], c=c, g=g, ch=r.random() < .3, incr=True, rng=r)
            return ZADD(k, [(self.score(), self.mem()) for _ in range(r.choice([1, 1, 2, 3]))], c=c, g=g, ch=r.random() < .4, rng=r)
        if x < .5:
            return ZREM(k, self.mems())
        if x < .58:
            return ZREMRANGE_RANK(k, self.idx(), self.idx()) if r.random() < .5 else ZREMRANGE_SCORE(k, self.bound(), self.bound())
        if x < .68:
            return ZRANK(k, self.mem(), rev=r.random() < .5)
        if x < .72:
            return DEL(k) if r.random() < .3 else EXISTS(k)
        if x < .84:
            old = r.random() < .3
            return ZRANGE_RANK(k, self.idx(), self.idx(), rev=r.random() < .5, ws=r.random() < .6, old=old)
        return ZRANGE_SCORE(k, self.bound(), self.bound(), rev=r.random() < .5, ws=r.random() < .6, lim=self.lim(), old=r.random() < .5)

    def g_zlex(self, now):
        r = self.rng
        k = r.choice(self.keys["zlex"])
        x = r.random()
        if x < .35:
            return ZADD(k, [(0.0, self.mem()) for _ in range(r.choice([1, 2, 3]))])
        if x < .45:
            return ZREM(k, self.mems())
        if x < .55:
            return ZREMRANGE_LEX(k, self.lexb(), self.lexb())
        if x < .65:
            return ZRANK(k, self.mem(), rev=r.random() < .5)
        return ZRANGE_LEX(k, self.lexb(), self.lexb(), rev=r.random() < .5, lim=self.lim(), old=r.random() < .5)

    def g_ttl(self, now):
        r = self.rng
        k = self.anykey()
        x = r.random()
        if x < .25:
            return TTL(k)
        if x < .55:
            return PTTL(k)
        flags = r.choice([()] * 4 + [("NX",), ("XX",), ("GT",), ("LT",), ("XX", "GT"), ("XX", "LT")])
        u = r.choice(["s", "ms"])
        if r.random() < .5:
            n = self.dur(u == "ms") if r.random() < .85 else r.choice([0, -1, -1000, IMIN, IMAX, IMAX // 1000, IMAX // 1000 + 1, IMAX - now, IMAX - now + 1])
            return EXPIRE(k, n, unit=u, abs_=False, flags=flags)
        d = r.choice([-5000, -1000, -1, 0, 1, 500, 1000, 2000, 60000, 10 ** 9])
        n = (now + d) // 1000 if u == "s" else now + d
        if r.random() < .1:
            n = r.choice([0, -1, IMIN, IMAX, IMAX // 1000, IMAX // 1000 + 1, 1])
        return EXPIRE(k, n, unit=u, abs_=True, flags=flags)

    def g_dump(self, now):
        r = self.rng
        if not self.payloads or r.random() < .35:
            k = self.anykey()
            while k in self.keys["raw"]:      # such values are no counters: keep them where no counter command goes
                k = self.anykey()
            return DUMP(k)
        p = r.choice(self.payloads)
        x = r.random()
        if x < .1:
            p = r.choice([b"", b"x", b"\xff" * 9, p[:1], p[:3], b"\x09\0\0\0" + p[4:]])
        ab = r.random() < .4
        n = r.choice([0, 0, 1, 500, 1000, 5000, 10 ** 7, -1, IMAX] if not ab else [0, now + 1, now + 1000, now + 60000, now, now - 1, 1, -1])
        k = self.anykey()
        while k in self.keys["zlex"]:         # stays a set whose members share one score
            k = self.anykey()
        return RESTORE(k, n, p, replace=r.random() < .6, absttl=ab, rng=r,
                       idle=r.choice([None, None, None, 0, 5, 1000]), freq=r.choice([None, None, None, 0, 7, 255]))

    def g_obj(self, now):
        r = self.rng
        k = self.anykey()
        return r.choice([lambda: OBJECT(b"FREQ", k), lambda: OBJECT(b"IDLETIME", k), lambda: DEBUGOBJ(k), PING, INFO, CONFIG])()

    def g_flush(self, now):
        return FLUSHALL(self.rng.choice([None, b"SYNC", b"sync"]))


def full(k, home):
    return {"ctr": [GET(k)], "txt": [GET(k)], "raw": [GET(k)], "list": [LRANGE(k, 0, -1), LLEN(k)], "hash": [HGETALL(k)], "set": [SMEMBERS(k)],
            "zset": [ZRANGE_RANK(k, 0, -1, ws=True), ZRANGE_SCORE(k, (False, -INF), (False, INF), ws=True)],
            "zlex": [ZRANGE_RANK(k, 0, -1, ws=True), ZRANGE_LEX(k, ("min",), ("max",))]}[home] + [PTTL(k), EXISTS(k)]


def random_trace(nd, rng, steps, kinds, seg=400, obs=.15, t0=None, **kw):
    """drive node nd with random commands; returns the recorded Trace"""
    d = Driver(nd)
    d.tr.opaque = kw.get("opaque", False)
    n = 0
    g = None
    while n < steps:
        if n % seg == 0:
            d.flush()
            if g is not None:
                final(d, g)
            d.reset()
            d.do(FLUSHALL(b"SYNC"))
            g = Gen(rng, kinds, nkeys=rng.choice([1, 2, 3]), **kw)
        n += 1
        c = g.next(nd.now)
        if isinstance(c, int):
            d.set_now(nd.now + c)
            continue
        d.do(c)
        if c.ev["op"] == "dump":
            d.flush()
            if c.rep["k"] == "blob" and len(g.payloads) < 40:
                g.payloads.append(c.rep["v"].b)
        if rng.random() < obs and "k" in c.ev:
            k = c.ev["k"].b
            h = next((h for h, q in g.keys.items() if k in q), None)
            if h:
                for o in full(k, h):
                    d.do(o)
    final(d, g)
    d.flush()
    d.drop()
    return d.tr


def final(d, g):
    for h, q in g.keys.items():
        if h in g.kinds or g.cross:
            for k in q:
                for o in full(k, h):
                    d.do(o)
    d.flush()


def big_trace(nd, rng, kind, sizes, ops=40):
    """collections driven across the given sizes, with whole reads on both sides of each"""
    d = Driver(nd)
    for n in sizes:
        d.reset()
        d.do(FLUSHALL(b"SYNC"))
        k = b"big"
        el = [b"m%05d" % i for i in range(n + 40)]
        rng.shuffle(el)
        w = 257
        if kind == "list":
            for i in range(0, n, w):
                d.do(PUSH(k, el[i:min(i + w, n)], left=rng.random() < .5))
            for j in range(ops):
                x = rng.random()
                d.do(PUSH(k, [el[n + j % 40]], left=rng.random() < .5) if x < .4 else POP(k, rng.choice([None, 1, 2, 3]), left=rng.random() < .5) if x < .8
                     else LRANGE(k, rng.randrange(-n - 2, n + 2), rng.randrange(-n - 2, n + 2)) if x < .95 else LLEN(k))
            d.do(LRANGE(k, 0, -1))
            d.do(POP(k, n // 2, left=True))
            d.do(LRANGE(k, 0, -1))
            d.do(POP(k, n + 50, left=False))
        elif kind == "hash":
            for i in range(0, n, w):
                d.do(HSET(k, [(m, m) for m in el[i:min(i + w, n)]]))
            for j in range(ops):
                x = rng.random()
                m = rng.choice(el)
                d.do(HSET(k, [(m, b"%d" % j)]) if x < .3 else HDEL(k, rng.sample(el, 3)) if x < .6 else HINCRBY(k, m, 1) if x < .7 else HGET(k, m) if x < .85
                     else HEXISTS(k, m) if x < .97 else HGETALL(k))
            d.do(HGETALL(k))
            d.do(HDEL(k, el[:n // 2]))
            d.do(HGETALL(k))
            d.do(HDEL(k, el))
        elif kind == "set":
            for i in range(0, n, w):
                d.do(SADD(k, el[i:min(i + w, n)]))
            for j in range(ops):
                x = rng.random()
                d.do(SADD(k, rng.sample(el, 3)) if x < .35 else SREM(k, rng.sample(el, 3)) if x < .7 else SISMEMBER(k, rng.choice(el)) if x < .85
                     else SMISMEMBER(k, rng.sample(el, 8)) if x < .97 else SMEMBERS(k))
            d.do(SMEMBERS(k))
            d.do(SREM(k, el[:n // 2]))
            d.do(SMEMBERS(k))
            d.do(SREM(k, el))
        else:
            for i in range(0, n, w):
                d.do(ZADD(k, [(float(rng.randrange(-n // 4 - 1, n // 4 + 1)), m) for m in el[i:min(i + w, n)]]))
            for j in range(ops // 2):
                x = rng.random()
                m = rng.choice(el)
                s = float(rng.randrange(-n // 4 - 1, n // 4 + 1))
                d.do(ZADD(k, [(s, m)], ch=True) if x < .3 else ZREM(k, rng.sample(el, 3)) if x < .45 else ZADD(k, [(1.25, m)], incr=True) if x < .55
                     else ZRANK(k, m, rev=x < .65) if x < .75 else ZRANGE_SCORE(k, (x < .8, s), (x < .85, s + n // 8), rev=x < .82, ws=True)
                     if x < .9 else ZRANGE_RANK(k, rng.randrange(-n, n), rng.randrange(-n, n), ws=True, rev=x < .95))
            d.do(ZRANGE_RANK(k, 0, -1, ws=True))
            d.do(ZREMRANGE_RANK(k, n // 4, n // 2))
            d.do(ZREMRANGE_SCORE(k, (False, -3.0), (True, 3.0)))
            d.do(ZRANGE_RANK(k, 0, -1, ws=True))
            d.do(ZREM(k, el))
        d.do(EXISTS(k))
        d.do(SET(k, b"free", c="NX"))
    d.flush()
    d.drop()
    return d.tr
