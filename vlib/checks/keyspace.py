"""C01-C08, C16: the sequential meaning of every data command.

Each check (1) lets TLC explore every transition of MCKeyspace for that part of the command language, checking the design
invariants, (2) walks every transition of that graph on a real server (transition tour, whole-value observations after each
write), (3) drives further seeded random histories and size-threshold histories, and (4) lets TLC decide with KsTrace whether
the recorded histories are behaviours of Keyspace."""
import random
from .. import core, families, gen, ks, node, tour
from ..ks import *
from ..tour import T0


def tours(chk, binary, fams):
    def one(fam):
        try:
            with node.Node(binary, freeze=T0) as nd:
                tr = tour.run_tour(chk, fam, nd)
                alive(chk, nd, fam.name)
        except node.Dead as e:
            chk.violation("tour %s: %s" % (fam.name, e), str(e))
            tr = ks.Trace()
        return fam.name, tr
    for name, tr in core.parallel([lambda f=f: one(f) for f in fams], 4):
        core.log("tour %s driven: %d events" % (name, len(tr.ev)))
        note(chk, name, tr)
        ks.check_trace(chk, tr, "tour " + name)


def note(chk, name, tr):
    q = [c for c in tr.ev if c is not ks.RESET]
    if q:
        c = q[len(q) // 2]
        chk.sample("%s: %s -> %s" % (name, c.text(), ks.brief(c.rep)), cap=8)


def alive(chk, nd, what):
    if nd.panics():
        chk.violation("%s: the server panicked: %s" % (what, nd.panics()[0]), "\n".join(nd.panics()[:10]))


def randoms(chk, binary, kinds, steps, n=4, **kw):
    """n independent random histories, each on a server of its own"""
    def one(i):
        rng = random.Random("%s/%s/%d/%d" % (chk.prop, sorted(kinds), core.SEED, i))
        try:
            with node.Node(binary, freeze=T0 + rng.randrange(10 ** 10)) as nd:
                tr = gen.random_trace(nd, rng, steps // n, kinds, **kw)
                alive(chk, nd, "random")
        except node.Dead as e:
            chk.violation("random history killed the server: %s" % e, str(e))
            return None
        return tr
    trs = [t for t in core.parallel([lambda i=i: one(i) for i in range(n)], n) if t]
    core.log("random driven: %d events" % sum(len(t.ev) for t in trs))
    chk.add("random_events", sum(len(t.ev) for t in trs))
    for t in trs[:1]:
        note(chk, "random", t)
    merged = ks.Trace()
    merged.opaque = kw.get("opaque", False)
    for t in trs:
        merged.ev += [ks.RESET] + t.ev
    ks.check_trace(chk, merged, "random")


def bigs(chk, binary, kind, sizes, ops=30):
    def one(n):
        with node.Node(binary, freeze=T0) as nd:
            return big(nd, random.Random("%d/%s/%d" % (core.SEED, kind, n)), kind, [n], ops)
    def big(*a):
        try:
            return gen.big_trace(*a)
        except node.Dead as e:
            chk.violation("large %s: %s" % (kind, e), str(e))
            return ks.Trace()
    tr = ks.Trace()
    for t in core.parallel([lambda n=n: one(n) for n in sizes], 4):
        tr.ev += [ks.RESET] + t.ev
    chk.add("size_thresholds", len(sizes))
    ks.check_trace(chk, tr, "large " + kind)


SIZES = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025]
MORE = [2047, 2049, 4095, 4097]


def sizes():
    return SIZES + (MORE if core.thorough() else [])


def N(quick, deep):
    return deep if core.thorough() else quick


def c01(chk, b):
    tours(chk, b, [families.strings()])
    randoms(chk, b, {"ctr": 4, "txt": 4, "raw": 1}, N(16000, 400000), big=True, cross=.1, tick=.01)
    randoms(chk, b, {"ctr": 4, "txt": 3, "ttl": 3}, N(8000, 200000), tick=.04)


def c02(chk, b):
    tours(chk, b, [families.lists()])
    randoms(chk, b, {"list": 6, "txt": 1}, N(14000, 300000), big=True)
    randoms(chk, b, {"list": 6, "txt": 1, "ttl": 2}, N(8000, 200000), tick=.04)
    bigs(chk, b, "list", sizes())


def c03(chk, b):
    tours(chk, b, [families.hashes()])
    randoms(chk, b, {"hash": 6, "txt": 1}, N(14000, 300000), big=True)
    randoms(chk, b, {"hash": 6, "txt": 1, "ttl": 2}, N(8000, 200000), tick=.04)
    bigs(chk, b, "hash", sizes())


def c04(chk, b):
    tours(chk, b, [families.sets()])
    randoms(chk, b, {"set": 6, "txt": 1}, N(14000, 300000), big=True)
    randoms(chk, b, {"set": 6, "txt": 1, "ttl": 2}, N(8000, 200000), tick=.04)
    bigs(chk, b, "set", sizes())


def c05(chk, b):
    tours(chk, b, [families.zsets_add(), families.zsets_range()])
    randoms(chk, b, {"zset": 6, "zlex": 3, "txt": 1}, N(14000, 300000))
    randoms(chk, b, {"zset": 6, "zlex": 1}, N(8000, 200000), opaque=True)
    randoms(chk, b, {"zset": 6, "zlex": 1, "ttl": 2}, N(6000, 200000), tick=.04)
    bigs(chk, b, "zset", [s for s in sizes() if s < 1500], ops=24)


def c06(chk, b):
    tours(chk, b, [families.crosstype()])
    randoms(chk, b, {"ctr": 2, "txt": 2, "list": 2, "hash": 2, "set": 2, "zset": 2, "ttl": 2, "dump": 2}, N(16000, 400000),
            cross=.5, malformed=.2, obs=.5, tick=.02)


ALL = {"ctr": 2, "txt": 3, "raw": 1, "list": 3, "hash": 3, "set": 3, "zset": 4, "zlex": 1, "ttl": 6, "dump": 2, "obj": 1}


def c07(chk, b):
    tours(chk, b, [families.crosstype(False, True), families.deadlines()])
    randoms(chk, b, ALL, N(20000, 400000), tick=.12, ttlheavy=True, cross=.1, obs=.2)


def c08(chk, b):
    tours(chk, b, [families.deadlines()])
    randoms(chk, b, {"ttl": 10, "txt": 6, "ctr": 2, "list": 2, "hash": 2, "set": 2, "zset": 2, "dump": 3}, N(20000, 400000),
            tick=.06, ttlheavy=True, obs=.3)


def c16(chk, b):
    pay = payloads(b)
    tours(chk, b, [families.dumps(pay)])
    randoms(chk, b, {"dump": 8, "txt": 2, "ctr": 2, "list": 3, "hash": 3, "set": 3, "zset": 3, "ttl": 2}, N(14000, 300000), tick=.03, obs=.4, big=True)
    randoms(chk, b, {"dump": 8, "zset": 5}, N(6000, 100000), opaque=True, obs=.4)
    big_dumps(chk, b)


def payloads(binary):
    """real DUMP payloads of one small value of each type, with the value in model form"""
    mk = [("str", S(b"x"), [SET(b"src", b"x")]), ("str", S(b"5"), [SET(b"src", b"5")]), ("list", [S(b"a"), S(b"1")], [PUSH(b"src", [b"a", b"1"], left=False)]),
          ("hash", [[W(b"f"), S(b"1")], [W(b""), S(b"x")]], [HSET(b"src", [(b"f", b"1"), (b"", b"x")])]), ("set", [W(b"m"), W(b"1")], [SADD(b"src", [b"m", b"1"])]),
          ("zset", [[W(b"a"), F(1.0)], [W(b"b"), F(2.0)]], [ZADD(b"src", [(1.0, b"a"), (2.0, b"b")])])]
    out = []
    with node.Node(binary, freeze=T0) as nd:
        cl = node.Client(nd.addr)
        for t, v, cs in mk:
            for c in cs:
                cl.cmd(*c.wire)
            p = cl.cmd(b"DUMP", b"src")
            cl.cmd(b"DEL", b"src")
            out.append((t, v, bytes(p), cs))
    return out


def big_dumps(chk, binary):
    """values of many sizes dumped on one server and restored on it under another name and on a second server"""
    tr = ks.Trace()
    rng = random.Random(core.SEED)
    with node.Node(binary, freeze=T0) as n1, node.Node(binary, freeze=T0 + 5) as n2:
        for n in [1, 2, 100, 255, 256, 257, 1000] + ([5000] if core.thorough() else []):
            el = [b"%d" % i if i % 3 else b"m\xff\r\n%d" % i for i in range(n)]
            for kind, mk in (("list", lambda: PUSH(b"a", el, left=False)), ("hash", lambda: HSET(b"a", [(e, e) for e in el])), ("set", lambda: SADD(b"a", el)),
                             ("zset", lambda: ZADD(b"a", [(rng.randrange(-400, 400) / 4, e) for e in el])),
                             ("txt", lambda: SET(b"a", bytes(rng.randrange(256) for _ in range(n)))), ("ctr", lambda: SET(b"a", b"%d" % rng.randrange(IMIN, IMAX)))):
                d = ks.Driver(n1, tr)
                d.reset()
                d.do(FLUSHALL(b"SYNC"))
                c = mk()
                d.do(c)
                d.do(EXPIRE(b"a", 1000))
                p = d.run(DUMP(b"a"))
                for o in gen.full(b"a", kind):
                    d.do(o)
                if p["k"] != "blob":
                    d.flush()
                    continue
                for o in [RESTORE(b"b{a}", 0, p["v"].b)] + gen.full(b"b{a}", kind) + [RESTORE(b"a", 5000, p["v"].b), RESTORE(b"a", 5000, p["v"].b, replace=True)] + \
                        gen.full(b"a", kind):
                    d.do(o)
                q = d.run(DUMP(b"b{a}"))
                d.drop()
                # the same payload on another server, which has no other way to know the value: replayed there after the commands that
                # made it, so the trace of the second server is judged with the payload known from its own DUMP event
                e = ks.Driver(n2, tr)
                e.reset()
                e.do(FLUSHALL(b"SYNC"))
                c2 = c.copy()
                e.do(c2)
                e.do(KNOWN(DUMP(b"a"), p["v"].b))
                e.do(DEL(b"a"))
                if q["k"] == "blob":
                    e.do(RESTORE(b"y", 7000, p["v"].b))
                for o in gen.full(b"y", kind):
                    e.do(o)
                e.flush()
                e.drop()
    chk.add("cross_server_restores", 7 * 6)
    ks.check_trace(chk, tr, "dump/restore")

