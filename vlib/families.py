"""The small-scope command sets: one exhaustive model per part of the command language (see tour.py)."""
import itertools, math
from .ks import *
from .tour import Family, TICK

IMAX, IMIN = (1 << 63) - 1, -(1 << 63)
INF = math.inf


def C(f, *a, **kw):
    """time independent command"""
    return lambda now: f(*a, **kw)


def std_obs(extra=lambda k: []):
    def obs(c):
        ks_ = [c.ev["k"].b] if "k" in c.ev else [w.b for w in c.ev.get("ks", [])]
        out = []
        for k in dict.fromkeys(ks_):
            out += extra(k) + [PTTL(k), EXISTS(k)]
        return out
    return obs


def strings():
    k, j = b"k", b"{k}j"
    cs = []
    for key in (k, j):
        for c, g in itertools.product(("", "NX", "XX"), (False, True)):
            for v in ((b"x", b"7") if key == k else (b"y",)):
                cs.append(C(SET, key, v, c=c, get=g))
        cs += [C(GET, key), C(EXISTS, key), C(DEL, key), C(INCRBY, key, 1, plain=True)]
    for v in (b"%d" % IMAX, b"%d" % (IMAX - 1), b"%d" % IMIN, b"-1", b"0", b"", b"12abc", b"1.5", b"-", b" 3"):
        cs.append(C(SET, k, v))
    cs += [C(INCRBY, k, n) for n in (1, 3, -3, IMAX, IMIN, 0)] + [C(DECRBY, k, n) for n in (1, 3, -3, IMAX, IMIN)]
    cs += [C(INCRBY, k, -1, plain=True), C(DEL, k, j), C(DEL, k, k), C(DEL, j, k, b"none"), C(EXISTS, k, j, k), C(EXISTS, b"none"),
           C(EXPIRE, k, 100), C(PTTL, k), C(EXPIRE, j, 50)]
    ints = [IMAX, IMAX - 1, IMIN, IMIN + 1, -1, 0, 1, 2, 7, 8, 6, 4, 10, -4, 3, -3, IMAX - 3, IMIN + 3]
    return Family("strings", cs, std_obs(lambda k: [GET(k)]), ints=ints)


def lists():
    k = b"l"
    el = [b"a", b"", b"1"]
    cs = []
    for left, x in itertools.product((True, False), (False, True)):
        for vs in [[e] for e in el] + [[b"a", b""], [b"1", b"a", b"a"]]:
            cs.append(C(PUSH, k, vs, left=left, x=x))
    for left in (True, False):
        cs += [C(POP, k, n, left=left) for n in (None, 0, 1, 2, 3, 10)]
    rng = [(0, -1), (0, 0), (1, 2), (-2, -1), (-1, 0), (2, 1), (-100, 100), (0, 100), (3, 3), (4, 4), (-4, -3), (-5, -5), (1, -2),
           (-100, -100), (100, 200), (-3, 1), (0, -4), (0, -5), (-1, -1), (2, -1)]
    cs += [C(LRANGE, k, a, b) for a, b in rng]
    cs += [C(LLEN, k), C(EXISTS, k), C(DEL, k)]
    return Family("lists", cs, std_obs(lambda k: [LRANGE(k, 0, -1), LLEN(k)]), maxsize=4, ints=[1])


def hashes():
    k = b"h"
    fs = [b"f", b"", b"g"]
    cs = [C(HSET, k, [(f, v)]) for f in fs for v in (b"x", b"1")]
    cs += [C(HSET, k, [(b"f", b"%d" % IMAX)]), C(HSET, k, [(b"g", b"%d" % IMIN)]), C(HSET, k, [(b"f", b"x"), (b"g", b"1")]),
           C(HSET, k, [(b"f", b"x"), (b"f", b"1")]), C(HSET, k, [(b"", b"7x"), (b"g", b"x"), (b"f", b"x")])]
    cs += [C(HSETNX, k, f, v) for f in fs[:2] for v in (b"x", b"2")]
    cs += [C(HGET, k, f) for f in fs + [b"none"]]
    cs += [C(HMGET, k, q) for q in (fs, [b"f", b"f"], [b"none", b"g"])]
    cs += [C(HGETALL, k), C(EXISTS, k), C(DEL, k)]
    cs += [C(HEXISTS, k, f) for f in fs + [b"none"]]
    cs += [C(HDEL, k, q) for q in ([b"f"], [b""], [b"g"], [b"f", b"f"], [b"f", b"g", b""], [b"none"], [b"g", b"none", b"f"])]
    cs += [C(HINCRBY, k, f, n) for f, n in ((b"f", 1), (b"f", -1), (b"g", -1), (b"", 1), (b"f", IMAX), (b"g", IMIN), (b"", IMIN))]
    ints = [IMAX, IMIN, 1, 2, 0, -1, IMIN + 1, IMAX - 1]
    return Family("hashes", cs, std_obs(lambda k: [HGETALL(k), HMGET(k, fs)]), maxsize=3, ints=ints)


def sets():
    k = b"s"
    ms = [b"a", b"", b"1", b"b"]
    subs = [[m] for m in ms] + [[b"a", b"b"], [b"a", b"a"], [b"1", b"", b"b"], ms, [b"b", b"1", b"1"], [b"none"], [b"none", b"a"]]
    cs = [C(SADD, k, q) for q in subs[:-2]] + [C(SREM, k, q) for q in subs] + [C(SISMEMBER, k, m) for m in ms + [b"none"]]
    cs += [C(SMISMEMBER, k, q) for q in subs] + [C(SMEMBERS, k), C(EXISTS, k), C(DEL, k)]
    return Family("sets", cs, std_obs(lambda k: [SMEMBERS(k), SMISMEMBER(k, ms)]), maxsize=4)


def zsets_add():
    k = b"z"
    a, b, c = b"a", b"", b"c"
    cs = []
    flags = [("", ""), ("NX", ""), ("XX", ""), ("", "GT"), ("", "LT"), ("XX", "GT"), ("XX", "LT")]
    for (cc, g), ch in itertools.product(flags, (False, True)):
        for sm in ([(1, a)], [(2, a)], [(2, b)], [(-1, b)], [(2, a), (1, b)], [(-1, c), (2, a)]):
            cs.append(C(ZADD, k, sm, c=cc, g=g, ch=ch))
        for sm in ([(1, a)], [(-3, a)], [(-2, b)]):
            cs.append(C(ZADD, k, sm, c=cc, g=g, ch=ch, incr=True))
    cs += [C(ZADD, k, [(INF, a)]), C(ZADD, k, [(-INF, b)]), C(ZADD, k, [(1, a), (2, a)]), C(ZADD, k, [(2, c), (1, c)], ch=True),
           C(ZADD, k, [(-INF, a)], incr=True), C(ZADD, k, [(-INF, a)], incr=True, c="XX")]
    cs += [C(ZREM, k, q) for q in ([a], [b], [a, a], [a, b, c], [b"none"], [c, b"none"])]
    cs += [C(EXISTS, k), C(DEL, k)]
    ints = [IMAX] + [x * 4 for x in (-1, 0, 1, 2, 3, -2)]
    f = Family("zsets_add", cs, std_obs(lambda k: [ZRANGE_RANK(k, 0, -1, ws=True), ZRANGE_SCORE(k, (False, -INF), (False, INF), rev=True, ws=True),
                                                   ZRANK(k, a), ZRANK(k, b, rev=True), ZRANK(k, c)]), maxsize=3, ints=ints)
    f.score_ints = True
    return f


def zsets_range():
    k = b"z"
    ms = [b"a", b"ab", b"", b"b"]
    cs = [C(ZADD, k, [(s, m)]) for m in ms[:3] for s in (1, 2)] + [C(ZADD, k, [(INF, b"a")]), C(ZADD, k, [(-INF, b"ab")]), C(ZADD, k, [(1.25, b"b")])]
    cs += [C(ZREM, k, [m]) for m in ms] + [C(DEL, k), C(EXISTS, k)]
    for m in ms + [b"none"]:
        cs += [C(ZRANK, k, m), C(ZRANK, k, m, rev=True)]
    for a, b in [(0, -1), (0, 0), (1, 2), (-2, -1), (-1, 0), (2, 1), (-100, 100), (3, 3), (-4, -3), (5, 9), (1, -2), (-9, -9)]:
        cs += [C(ZRANGE_RANK, k, a, b, ws=True), C(ZRANGE_RANK, k, a, b, rev=True), C(ZRANGE_RANK, k, a, b, old=True, ws=True),
               C(ZREMRANGE_RANK, k, a, b)]
    bs = [((False, -INF), (False, INF)), ((False, 1), (False, 2)), ((True, 1), (False, 2)), ((False, 1), (True, 2)), ((True, 1), (True, 2)),
          ((True, 1), (True, 1)), ((False, 1), (False, 1)), ((False, 2), (False, 1)), ((True, -INF), (True, INF)), ((False, INF), (False, INF)),
          ((False, -INF), (False, -INF)), ((True, -INF), (False, 1)), ((False, 1.25), (False, INF)), ((False, INF), (False, -INF)), ((False, 3), (False, 9))]
    for i, (lo, hi) in enumerate(bs):
        cs += [C(ZRANGE_SCORE, k, lo, hi, ws=i % 2 == 0), C(ZRANGE_SCORE, k, lo, hi, rev=True, old=i % 2 == 0, ws=i % 2 == 1),
               C(ZREMRANGE_SCORE, k, lo, hi)]
        if i < 5:
            cs += [C(ZRANGE_SCORE, k, lo, hi, lim=l, old=o, rev=i % 2 == 1) for l, o in (((0, 1), True), ((1, 1), False), ((1, -1), True), ((0, 0), False), ((5, 5), True))]
    ls = [(("min",), ("max",)), (("in", b"a"), ("in", b"ab")), (("ex", b"a"), ("max",)), (("in", b""), ("ex", b"b")), (("ex", b""), ("ex", b"b")),
          (("max",), ("min",)), (("in", b"b"), ("in", b"a")), (("ex", b"a"), ("ex", b"a")), (("in", b"a"), ("in", b"a")), (("min",), ("ex", b"")),
          (("in", b"zz"), ("max",)), (("max",), ("max",)), (("min",), ("min",)), (("ex", b"a"), ("in", b"a"))]
    for i, (lo, hi) in enumerate(ls):
        cs += [C(ZRANGE_LEX, k, lo, hi, rev=i % 2 == 1), C(ZRANGE_LEX, k, lo, hi, old=True, rev=i % 2 == 0), C(ZREMRANGE_LEX, k, lo, hi)]
        if i < 3:
            cs += [C(ZRANGE_LEX, k, lo, hi, old=o, rev=not o, lim=l) for l, o in (((0, 1), True), ((1, 5), False), ((1, -1), True))]
    ints = [IMAX] + [4, 8, 5]
    return Family("zsets_range", cs, std_obs(lambda k: [ZRANGE_RANK(k, 0, -1, ws=True)]), maxsize=4, ints=ints)


def deadlines():
    k = b"k"
    cs = [(TICK, 1000), (TICK, 2000)]
    A = [("EX", 1), ("EX", 2), ("PX", 1000), ("PX", 1001), ("PX", 3000), ("EX", 0), ("EX", -1), ("PX", 0), ("PX", -5)]
    for ex in A:
        cs.append(C(SET, k, b"x", ex=ex))
    for ex, c, g in ((("EX", 2), "NX", False), (("PX", 1000), "XX", False), (("KEEPTTL",), "", False), (("KEEPTTL",), "XX", True),
                     (("KEEPTTL",), "NX", False), (("EX", 3), "XX", True), (("PX", 2000), "NX", True), (("EX", 0), "XX", False)):
        cs.append(C(SET, k, b"y", c=c, ex=ex, get=g))
    for d in (-1, 0, 1, 2):
        cs.append(lambda now, d=d: SET(k, b"x", ex=("EXAT", now // 1000 + d)))
        cs.append(lambda now, d=d: SET(k, b"x", ex=("PXAT", now + d * 1000)))
    cs += [C(SET, k, b"x"), C(SET, k, b"y", get=True), C(SET, k, b"y", c="NX"), C(SET, k, b"y", c="XX"),
           C(SETEX, k, 1, b"x"), C(SETEX, k, 2, b"y"), C(SETEX, k, 0, b"x"), C(SETEX, k, -1, b"x"), C(SETEX, k, 1000, b"x", ms=True),
           C(SETEX, k, 2001, b"x", ms=True), C(SETEX, k, 0, b"x", ms=True)]
    fl = [(), ("NX",), ("XX",), ("GT",), ("LT",), ("XX", "GT"), ("XX", "LT")]
    for f in fl:
        for d in (-1, 0, 1, 2, 3):
            for u, ab in itertools.product(("s", "ms"), (False, True)):
                if f in fl[5:] and (u == "s") != ab:
                    continue
                def mk(now, d=d, u=u, ab=ab, f=f):
                    n = d if u == "s" else d * 1000
                    if ab:
                        n += now // 1000 if u == "s" else now
                    return EXPIRE(k, n, unit=u, abs_=ab, flags=f)
                cs.append(mk)
    cs += [C(EXPIRE, k, IMAX), C(EXPIRE, k, IMIN), C(EXPIRE, k, IMAX, unit="ms"), C(EXPIRE, k, IMIN, unit="ms"),
           C(EXPIRE, k, IMAX // 1000 + 1), C(EXPIRE, k, IMIN, unit="s", abs_=True), C(EXPIRE, k, IMIN, unit="ms", abs_=True),
           C(EXPIRE, k, 0, unit="ms", abs_=True), C(EXPIRE, k, 0, abs_=True), C(EXPIRE, k, IMAX, abs_=True), C(SET, k, b"x", ex=("EX", IMAX)),
           C(SET, k, b"x", ex=("PX", IMAX)), C(SET, k, b"x", ex=("EXAT", IMAX)), C(SETEX, k, IMAX, b"x"), C(SETEX, k, IMAX, b"x", ms=True),
           C(SET, k, b"x", ex=("PXAT", 1)), C(SET, k, b"x", ex=("EXAT", 1)), C(SET, k, b"x", ex=("PXAT", 0))]
    cs += [C(GET, k), C(TTL, k), C(PTTL, k), C(EXISTS, k), C(DEL, k), C(INCRBY, k, 1), C(PUSH, k, [b"a"]), C(PUSH, k, [b"a"], x=True), C(POP, k),
           C(SADD, k, [b"a"]), C(HSET, k, [(b"f", b"v")]), C(ZADD, k, [(1, b"a")]), C(ZREMRANGE_RANK, k, 0, -1), C(HDEL, k, [b"f"]), C(SREM, k, [b"a"])]
    return Family("deadlines", cs, std_obs(lambda k: [TTL(k)]), maxsize=1, ints=[1, 2, 4])


def crosstype(malformed=True, ghosts=False):
    """every command against a live, expired (ghosts: still in memory) or absent key of every type"""
    k = b"k"
    cs = [(TICK, 1), C(EXPIRE, k, 2, unit="ms")] if ghosts else [(TICK, 1000), C(EXPIRE, k, 2)]
    if ghosts:
        cs += [C(EXPIRE, k, 3, unit="ms", flags=f) for f in ((), ("NX",), ("XX",), ("GT",), ("LT",))] + [C(EXPIRE, k, -1), C(SET, k, b"y", ex=("KEEPTTL",), c="XX"),
               C(ZADD, k, [(1, b"n")], c="NX"), C(DEL, k, k), C(EXISTS, k, k), C(HDEL, k, [b"g"]), C(SREM, k, [b"g"]), C(ZREM, k, [b"g"])]
    cs += [C(DEL, k), C(FLUSHALL, b"SYNC"),
          C(SET, k, b"x"), C(SET, k, b"3"), C(SETEX, k, 2, b"x", ms=ghosts), C(SET, k, b"x", c="NX"), C(SET, k, b"x", c="XX"), C(SET, k, b"x", get=True),
          C(SET, k, b"3", ex=("KEEPTTL",)), C(SET, k, b"x", c="XX", get=True), C(SET, k, b"x", c="NX", get=True), C(SET, k, b"x", get=True, ex=("KEEPTTL",)),
          C(SET, k, b"x", get=True, ex=("PX" if ghosts else "EX", 2)),
          C(GET, k), C(INCRBY, k, 1), C(INCRBY, k, IMAX), C(DECRBY, k, 1), C(DECRBY, k, IMIN), C(EXISTS, k), C(TTL, k), C(PTTL, k),
          C(PUSH, k, [b"a"]), C(PUSH, k, [b"a"], left=False), C(PUSH, k, [b"b"], x=True), C(PUSH, k, [b"b"], x=True, left=False), C(POP, k),
          C(POP, k, 2), C(POP, k, -1), C(POP, k, 1, left=False), C(LLEN, k), C(LRANGE, k, 0, -1),
          C(HSET, k, [(b"f", b"v")]), C(HSET, k, [(b"f", b"1")]), C(HSETNX, k, b"f", b"v"), C(HGET, k, b"f"), C(HMGET, k, [b"f", b"g"]), C(HGETALL, k),
          C(HEXISTS, k, b"f"), C(HDEL, k, [b"f"]), C(HINCRBY, k, b"f", 1), C(HINCRBY, k, b"f", IMAX),
          C(SADD, k, [b"m"]), C(SREM, k, [b"m"]), C(SISMEMBER, k, b"m"), C(SMISMEMBER, k, [b"m", b"n"]), C(SMEMBERS, k),
          C(ZADD, k, [(1, b"m")]), C(ZADD, k, [(2, b"m")], c="XX"), C(ZADD, k, [(2, b"m")], g="GT", ch=True), C(ZADD, k, [(1, b"m")], incr=True),
          C(ZADD, k, [(INF, b"m")], incr=True), C(ZADD, k, [(-INF, b"m")], incr=True),
          C(ZREM, k, [b"m"]), C(ZRANK, k, b"m"), C(ZRANK, k, b"m", rev=True), C(ZRANGE_RANK, k, 0, -1, ws=True),
          C(ZRANGE_RANK, k, 0, -1, old=True), C(ZRANGE_SCORE, k, (False, 0), (False, 5), old=True), C(ZRANGE_SCORE, k, (False, 0), (False, 5), rev=True, old=True),
          C(ZRANGE_LEX, k, ("min",), ("max",), old=True), C(ZRANGE_LEX, k, ("min",), ("max",), rev=True, old=True),
          C(ZREMRANGE_RANK, k, 0, -1), C(ZREMRANGE_SCORE, k, (False, 0), (False, 5)), C(ZREMRANGE_LEX, k, ("min",), ("max",)),
          C(OBJECT, b"IDLETIME", k), C(OBJECT, b"FREQ", k), C(DEBUGOBJ, k), C(DUMP, k), C(RESTORE, k, 0, b"garbage"), C(RESTORE, k, 0, b"", replace=True),
          C(RESTORE, k, -1, b"garbage", replace=True)]
    if malformed:
        cs += [C(MALFORMED, m) for m in MALFORMED_ARGS(k)]
    ints = [3, 4, 1, IMAX, 2, 8, 12]
    obs = lambda c: [GET(k), LRANGE(k, 0, -1), HGETALL(k), SMEMBERS(k), ZRANGE_RANK(k, 0, -1, ws=True), PTTL(k), EXISTS(k)]
    return Family("crosstype_ghosts" if ghosts else "crosstype", cs, obs, maxsize=1, ints=ints, ghosts=ghosts)


def MALFORMED_ARGS(k):
    """requests whose arguments do not parse, one or more per command; none may have any effect"""
    m = []
    for name in ("GET SET SETEX PSETEX INCR INCRBY DECR DECRBY DEL EXISTS EXPIRE PEXPIRE EXPIREAT PEXPIREAT TTL PTTL LPUSH RPUSH LPUSHX RPUSHX "
                 "LPOP RPOP LLEN LRANGE HSET HSETNX HGET HMGET HGETALL HEXISTS HDEL HINCRBY SADD SREM SISMEMBER SMISMEMBER SMEMBERS ZADD ZREM "
                 "ZRANK ZREVRANK ZRANGE ZREVRANGE ZRANGEBYSCORE ZREVRANGEBYSCORE ZRANGEBYLEX ZREVRANGEBYLEX ZREMRANGEBYRANK ZREMRANGEBYSCORE "
                 "ZREMRANGEBYLEX DUMP RESTORE OBJECT DEBUG").split():
        m.append([name.encode()])
    for name in ("SET SETEX PSETEX INCRBY DECRBY EXPIRE PEXPIRE EXPIREAT PEXPIREAT LPUSH RPUSH LPUSHX RPUSHX LRANGE HSET HSETNX HGET HMGET HEXISTS "
                 "HDEL HINCRBY SADD SREM SISMEMBER SMISMEMBER ZADD ZREM ZRANK ZREVRANK ZRANGE ZREVRANGE ZRANGEBYSCORE ZREMRANGEBYRANK RESTORE").split():
        m.append([name.encode(), k])
    m += [[b"SETEX", k, b"x", b"v"], [b"SETEX", k, b"10"], [b"INCRBY", k, b"x"], [b"INCRBY", k, b"9223372036854775808"], [b"INCRBY", k, b"1.5"],
          [b"INCRBY", k, b""], [b"INCRBY", k, b"12abc"], [b"DECRBY", k, b"abc"], [b"EXPIRE", k, b"abc"], [b"EXPIRE", k, b"1x"], [b"PEXPIREAT", k, b"-"],
          [b"EXPIRE", k, b"99999999999999999999"], [b"SET", k, b"v", b"EX"], [b"SET", k, b"v", b"EX", b"x"], [b"SET", k, b"v", b"PX", b"1.5"],
          [b"LPOP", k, b"x"], [b"LRANGE", k, b"0"], [b"LRANGE", k, b"a", b"b"], [b"HSET", k, b"f"], [b"HSETNX", k, b"f"], [b"HINCRBY", k, b"f"],
          [b"HINCRBY", k, b"f", b"x"], [b"HINCRBY", k, b"f", b"1x"], [b"ZADD", k, b"1"], [b"ZADD", k, b"x", b"m"], [b"ZADD", k, b"nan", b"m"],
          [b"ZADD", k, b"NX"], [b"ZADD", k, b"XX", b"CH"], [b"ZADD", k, b"1", b"m", b"2"], [b"ZADD", k, b"1", b"m", b"nan", b"n"],
          [b"ZRANGE", k, b"0"], [b"ZRANGE", k, b"a", b"b"], [b"ZRANGE", k, b"x", b"5", b"BYSCORE"], [b"ZRANGE", k, b"a", b"[b", b"BYLEX"],
          [b"ZRANGEBYSCORE", k, b"nan", b"5"], [b"ZRANGEBYSCORE", k, b"0", b"(nan"], [b"ZRANGEBYSCORE", k, b"x", b"y"], [b"ZRANGEBYSCORE", k, b"", b""],
          [b"ZRANGEBYLEX", k, b"a", b"b"], [b"ZRANGEBYLEX", k, b"", b"+"], [b"ZREMRANGEBYRANK", k, b"0"], [b"ZREMRANGEBYRANK", k, b"x", b"y"],
          [b"ZREMRANGEBYSCORE", k, b"x", b"1"], [b"ZREMRANGEBYLEX", k, b"x", b"[1"], [b"RESTORE", k, b"0"], [b"RESTORE", k, b"x", b"p"],
          [b"OBJECT", b"FREQ"], [b"EXPIRE", k, b"\xff\xfe"], [b"ZADD", k, b"\xff", b"m"], [b"ZRANGEBYSCORE", k, b"\xff\xff\xff\xff", b"1"],
          [b"ZRANGEBYLEX", k, b"\xff\xff", b"+"], [b"SET", k, resp.RawFrame(b":5\r\n"), b"EX", b"0x1"], [b"INCRBY", k, resp.RawFrame(b"*1\r\n:1\r\n")],
          [b"SET", k, resp.RawFrame(b"*0\r\n")], [b"SET", resp.RawFrame(b"*1\r\n$1\r\nk\r\n"), b"v"], [b"DEL", resp.RawFrame(b"*1\r\n$1\r\nk\r\n")],
          [b"SADD", k, resp.RawFrame(b"*1\r\n$1\r\nm\r\n")], [b"SET", k, resp.RawFrame(b"$-1\r\n")]]
    return m


def dumps(payloads):
    """payloads: list of (type, model value, payload bytes, [Cmds that create it under key src])"""
    k, j = b"k", b"j"
    cs = [(TICK, 1000), C(DEL, k), C(DEL, j), C(DUMP, k), C(DUMP, j), C(SET, j, b"x"), C(EXPIRE, k, 2), C(EXISTS, k)]
    for i, (t, v, p, _) in enumerate(payloads):
        cs += [C(RESTORE, k, 0, p), C(RESTORE, k, 1000, p, replace=True), C(RESTORE, k, 0, p, replace=True)]
        if i % 2 == 0:
            cs += [C(RESTORE, j, 2000, p), C(RESTORE, j, 0, p, replace=True, absttl=True)]
            cs.append(lambda now, p=p: RESTORE(k, now + 2000, p, replace=True, absttl=True))
            cs.append(lambda now, p=p: RESTORE(k, now + 1000, p, absttl=True))
            cs.append(lambda now, p=p: RESTORE(j, now - 1000, p, absttl=True))
            cs.append(lambda now, p=p: RESTORE(j, now - 1, p, absttl=True, replace=True))
        cs.append(C(RESTORE, k, -1, p, replace=True))
        cs.append(C(RESTORE, k, IMAX, p, replace=True))
        for cut in (p[:3], p[:1]):
            cs.append(C(RESTORE, k, 0, cut))
            cs.append(C(RESTORE, k, 0, cut, replace=True))
    cs += [C(RESTORE, k, 0, b"", replace=True), C(RESTORE, j, 0, b"\xff" * 40, replace=True)]
    setup = []
    for t, v, p, mk in payloads:
        setup += mk + [KNOWN(DUMP(b"src"), p), DEL(b"src")]
    obs = lambda c: [PTTL(k), GET(k), LRANGE(k, 0, -1), HGETALL(k), SMEMBERS(k), ZRANGE_RANK(k, 0, -1, ws=True), EXISTS(k, j), PTTL(j)]
    return Family("dumps", cs, obs, maxsize=4, blobs=[(t, v, p) for t, v, p, _ in payloads], setup=setup,
                  ints=[5, 4, 8, 6, IMIN])
