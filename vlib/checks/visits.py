"""C25: OBJECT FREQ and OBJECT IDLETIME tell how often and how long ago a key was used.

(1) TLC explores Visits (MCVisits: decay, cap and the coming round of the minute counter, with wrong designs refuted); (2) real
servers under a stepped clock run every command on live, expired and missing keys and seeded random histories, both subcommands
being asked again and again; (3) TLC decides with VisitTrace whether what was answered agrees with the uses of the keys."""
import random
from .. import core, gen, ks, node
from ..ks import *
from ..tour import T0
from .keyspace import N, alive, note, payloads

MIN = 60000
WRAP = ((T0 // MIN) // 65536 + 1) * 65536 * MIN          # the next moment at which minutes modulo 2^16 start over
GAPS = [1, 999, 1000, 4000, 9000, 9999, 10000, 10001, 25000, 59000, 60000, 61000, 120000, 3 * MIN, 5 * MIN, 6 * MIN, 10 * MIN, 60 * MIN]
LONG = [24 * 60 * MIN, 40 * 24 * 60 * MIN, 65535 * MIN, 65530 * MIN]


def probe(k, rng=None):
    f = (lambda b: bytes(x ^ 32 if rng.random() < .5 else x for x in b)) if rng else (lambda b: b)
    q = [OBJECT(f(b"FREQ"), k), OBJECT(f(b"IDLETIME"), k)]
    if rng:
        rng.shuffle(q)
    return q


def commands(now, k, p):
    """one or more of every command that names a key, with k in its place"""
    INF = float("inf")
    return [GET(k), SET(k, b"v"), SET(k, b"7"), SET(k, b"v", ex=("EX", 500)), SET(k, b"v", ex=("KEEPTTL",)), SET(k, b"v", c="NX"), SET(k, b"v", c="XX"),
            SET(k, b"v", get=True), SETEX(k, 500, b"v"), SETEX(k, 500000, b"v", ms=True), INCRBY(k, 1, plain=True), INCRBY(k, -1, plain=True), INCRBY(k, 3),
            DECRBY(k, 3), EXISTS(k), EXISTS(k, k, k), EXISTS(b"other", k), EXPIRE(k, 1000), EXPIRE(k, 1000000, unit="ms"), EXPIRE(k, 1000, flags=("XX",)),
            EXPIRE(k, 1000, flags=("NX",)), EXPIRE(k, now // 1000 + 1000, abs_=True), EXPIRE(k, now + 1000000, unit="ms", abs_=True), TTL(k), PTTL(k),
            PUSH(k, [b"a"]), PUSH(k, [b"a", b"b"], left=False), PUSH(k, [b"a"], x=True), PUSH(k, [b"a"], left=False, x=True), POP(k), POP(k, left=False),
            POP(k, 0), LLEN(k), LRANGE(k, 0, -1), HSET(k, [(b"f", b"1")]), HSETNX(k, b"f", b"1"), HSETNX(k, b"g", b"1"), HGET(k, b"f"), HMGET(k, [b"f", b"x"]),
            HGETALL(k), HEXISTS(k, b"f"), HDEL(k, [b"x"]), HDEL(k, [b"g"]), HINCRBY(k, b"f", 1), SADD(k, [b"m"]), SADD(k, [b"n", b"m"]), SREM(k, [b"n"]),
            SREM(k, [b"x"]), SISMEMBER(k, b"m"), SMISMEMBER(k, [b"m", b"x"]), SMEMBERS(k), ZADD(k, [(1.0, b"m")]), ZADD(k, [(2.0, b"n")], c="NX"),
            ZADD(k, [(2.0, b"x")], c="XX"), ZADD(k, [(1.0, b"m")], incr=True), ZREM(k, [b"n"]), ZREM(k, [b"x"]), ZRANK(k, b"m"), ZRANK(k, b"m", rev=True),
            ZRANGE_RANK(k, 0, -1), ZRANGE_RANK(k, 0, -1, rev=True, old=True), ZRANGE_SCORE(k, (False, -INF), (False, INF)),
            ZRANGE_SCORE(k, (False, -INF), (False, INF), old=True), ZRANGE_LEX(k, ("min",), ("max",)), ZRANGE_LEX(k, ("min",), ("max",), old=True),
            ZREMRANGE_RANK(k, 5, 6), ZREMRANGE_SCORE(k, (False, 100.0), (False, 200.0)), ZREMRANGE_LEX(k, ("in", b"zz"), ("max",)), DUMP(k),
            RESTORE(k, 0, p), RESTORE(k, 0, p, replace=True), RESTORE(k, 5000000, p, replace=True, idle=77, freq=9), DEBUGOBJ(k)] + probe(k)


MAKE = [lambda k: None, lambda k: SET(k, b"x"), lambda k: SET(k, b"5"), lambda k: PUSH(k, [b"a", b"b", b"c"]), lambda k: HSET(k, [(b"f", b"1"), (b"h", b"2")]),
        lambda k: SADD(k, [b"m", b"o"]), lambda k: ZADD(k, [(1.0, b"m"), (1.0, b"o")])]


def each(chk, binary, p, which):
    """every command on a missing, a live and an expired key of every type"""
    tr = ks.Trace()
    with node.Node(binary, freeze=T0) as nd:
        d = ks.Driver(nd, tr)
        for t, mk in which:
            for state in ("live", "dated", "expired"):
                n = len(commands(nd.now, b"k", p))
                for j in range(n):
                    k = b"k%d" % j
                    d.reset()
                    d.do(FLUSHALL(b"SYNC"))
                    c0 = mk(k)
                    if c0 is None and state != "live":
                        break
                    if j % 7 == 0:
                        d.set_now(nd.now + 60000 - nd.now % 60000)       # at the very beginning of a minute
                    # the payload must be known in this segment, too
                    d.do(SET(b"src", b"x"))
                    d.do(KNOWN(DUMP(b"src"), p))
                    if c0 is not None:
                        d.do(c0)
                        if state == "dated":
                            d.do(EXPIRE(k, 100000))
                        for o in probe(k):
                            d.do(o)
                    if state == "expired":
                        d.do(EXPIRE(k, 1000, unit="ms"))
                        d.set_now(nd.now + 1000)
                        for o in probe(k):
                            d.do(o)
                    else:
                        d.set_now(nd.now + (3 * MIN + 20000, 20000, 61000)[j % 3])
                    d.do(commands(nd.now, k, p)[j])
                    for o in probe(k):
                        d.do(o)
                    d.set_now(nd.now + (30000, 5000, 2 * MIN)[j % 3])
                    for o in probe(k) + [GET(k), EXISTS(k, k)] + probe(k):
                        d.do(o)
                    chk.add("command_state_pairs")
        d.flush()
        alive(chk, nd, "every command")
        d.drop()
    return tr


def history(chk, nd, rng, steps, pay):
    d = ks.Driver(nd)
    n = 0
    g = None
    kinds = {"ctr": 3, "txt": 3, "raw": 1, "list": 2, "hash": 2, "set": 2, "zset": 2, "zlex": 1, "ttl": 3, "dump": 2, "obj": 1}
    while n < steps:
        if n % 300 == 0:
            d.flush()
            d.reset()
            d.do(FLUSHALL(b"SYNC"))
            g = gen.Gen(rng, kinds, nkeys=rng.choice([1, 2]), cross=.1, malformed=.03)
            for j, (t, v, p, cs) in enumerate(pay):
                for c in cs:
                    d.do(c.copy())
                d.do(KNOWN(DUMP(b"src"), p))
                d.do(DEL(b"src"))
                g.payloads.append(p)
            long = rng.random() < .3
        n += 1
        x = rng.random()
        if x < .12 and nd.now < 2_000_000_000_000:
            d.set_now(nd.now + (rng.choice(GAPS) if not long or rng.random() < .9 else rng.choice(LONG)) + (rng.randrange(10000) if rng.random() < .3 else 0))
        if x > .95:
            # counters near both ends
            k = g.anykey()
            if k in g.keys["zlex"]:
                continue
            t, v, p, cs = rng.choice(pay)
            d.do(RESTORE(k, 0, p, replace=True, idle=rng.choice([None, 0, 1, 9, 10, 61, 100000, nd.now // 1000, nd.now // 1000 + 5, 1 << 40]),
                         freq=rng.choice([None, 0, 1, 65530, 65533, 65534, 65535, 65536, 1 << 20, IMAX]), rng=rng))
        c = g.next(nd.now)
        if isinstance(c, int):
            continue
        if c.ev["op"] == "objinfo" and rng.random() < .5:
            continue
        rep = rng.choice([1, 1, 1, 2, 3])
        for _ in range(rep):
            d.do(c)
            c = c.copy()
        for k in [w.b for w in c.ev.get("ks", [])] + ([c.ev["k"].b] if "k" in c.ev else []):
            if rng.random() < .6:
                for o in probe(k, rng)[:rng.choice([1, 2])]:
                    d.do(o)
        if rng.random() < .05:
            for h in g.kinds:
                for k in g.keys.get(h, []):
                    for o in probe(k):
                        d.do(o)
    d.flush()
    alive(chk, nd, "random")
    d.drop()
    return d.tr


def c25(chk, binary):
    chk.design(core.tlc_must("MCVisits", cfg="MCVisits1", workers=2))
    core.tlc_refutes(chk, "MCVisits", ["MCVisits%d" % n for n in (2, 3, 4, 5)])
    pay = payloads(binary)
    p = next(q for t, v, q, cs in pay if t == "str" and v.b == b"x")
    trs = core.parallel([lambda w=w: each(chk, binary, p, [w]) for w in enumerate(MAKE)], 4)
    tr = ks.Trace()
    for t in trs:
        tr.ev += [ks.RESET] + t.ev
    note(chk, "every command", tr)
    ks.check_trace(chk, tr, "every command", module="VisitTrace")

    def one(i):
        rng = random.Random("C25/%d/%d" % (core.SEED, i))
        t0 = (T0 + rng.randrange(10 ** 9), WRAP - 3 * MIN - 1, WRAP - 20 * MIN, 2_000_000_000_000 - 45 * 24 * 60 * MIN)[i % 4]
        try:
            with node.Node(binary, freeze=t0) as nd:
                return history(chk, nd, rng, N(2500, 40000), pay)
        except node.Dead as e:
            chk.violation("random history killed the server: %s" % e, str(e))
            return ks.Trace()
    tr = ks.Trace()
    for t in core.parallel([lambda i=i: one(i) for i in range(4)], 4):
        tr.ev += [ks.RESET] + t.ev
    note(chk, "random", tr)
    chk.add("random_events", len(tr.ev))
    ks.check_trace(chk, tr, "random", module="VisitTrace")
