"""C09: concurrent histories recorded on the real server; TLC searches an order (spec/LinTrace.tla)."""
import json, os, random, select, time
from .. import core, ks, node, repl, resp
from ..ks import *
from ..tour import T0
from .keyspace import N, alive


# ------------------------------------------------------------------------------------------------ operations on one hot key
class Hot:
    """operations for one key; values are unique, so that most replies tell which operation they follow"""

    def __init__(self, key, kind, rng, payloads=None):
        self.k, self.kind, self.rng, self.n, self.payloads = key, kind, rng, 0, payloads or []
        self.two = rng.choice(DUELS)
        # half of the histories race two or three kinds of operations only
        self.xs = [rng.random() for _ in range(rng.choice([2, 2, 3]))] if rng.random() < .5 else None

    def uniq(self):
        self.n += 1
        return b"v%d" % self.n

    def next(self):
        return getattr(self, self.kind)(self.k, self.rng.choice(self.xs) if self.xs else self.rng.random(), self.rng)

    def ctr(self, k, x, r):
        if x < .5:
            return INCRBY(k, 1, plain=True)
        if x < .65:
            return INCRBY(k, r.choice([7, -3, 1000]))
        if x < .75:
            return DECRBY(k, r.choice([1, 5]))
        if x < .85:
            return GET(k)
        if x < .93:
            return SET(k, b"%d" % r.randrange(10 ** 6), get=True)
        return SET(k, b"%d" % r.randrange(10 ** 6), c="NX") if x < .97 else DEL(k)

    def txt(self, k, x, r):
        if x < .35:
            return SET(k, self.uniq(), get=True)
        if x < .55:
            return SET(k, self.uniq(), c="NX")
        if x < .62:
            return SET(k, self.uniq(), c="XX")
        if x < .74:
            return DEL(k)
        if x < .9:
            return GET(k)
        return EXISTS(k) if x < .94 else SET(k, self.uniq(), c=r.choice(["NX", "XX"]), get=True) if x < .97 else SETEX(k, 100, self.uniq())

    def ttl(self, k, x, r):
        if x < .2:
            return SET(k, self.uniq(), ex=r.choice([("EX", 100), ("PX", 5000), ("KEEPTTL",), None]))
        if x < .55:
            return EXPIRE(k, r.choice([50, 100, 200, 300]), flags=r.choice([(), ("NX",), ("XX",), ("GT",), ("LT",)]))
        if x < .75:
            return TTL(k)
        if x < .85:
            return GET(k)
        return DEL(k) if x < .92 else SET(k, self.uniq(), c="NX", ex=("EX", 77))

    def list(self, k, x, r):
        vs = [self.uniq() for _ in range(r.choice([1, 1, 2, 3]))]
        if x < .35:
            return PUSH(k, vs, left=r.random() < .5)
        if x < .45:
            return PUSH(k, vs, left=r.random() < .5, x=True)
        if x < .65:
            return POP(k, None, left=r.random() < .5)
        if x < .8:
            return POP(k, r.choice([1, 2, 3]), left=r.random() < .5)
        return LLEN(k) if x < .88 else LRANGE(k, 0, -1) if x < .97 else DEL(k)

    def hash(self, k, x, r):
        f = lambda: b"f%d" % r.randrange(3)
        if x < .2:
            v = self.uniq()
            return HSET(k, [(b"f0", v), (b"f1", v), (b"f2", v)][:r.choice([1, 3, 3])])
        if x < .35:
            return HSETNX(k, f(), self.uniq())
        if x < .6:
            return HINCRBY(k, b"n", r.choice([1, 1, 10]))
        if x < .7:
            return HDEL(k, r.choice([[b"f0"], [b"f0", b"f1", b"f2"], [b"f1", b"n"]]))
        if x < .8:
            return HGETALL(k)
        return HMGET(k, [b"f0", b"f1", b"f2", b"n"]) if x < .93 else HEXISTS(k, f()) if x < .97 else DEL(k)

    def set(self, k, x, r):
        m = lambda: [b"m%d" % y for y in r.sample(range(4), r.choice([1, 2, 4]))]
        if x < .4:
            return SADD(k, m())
        if x < .65:
            return SREM(k, m())
        return SMEMBERS(k) if x < .75 else SMISMEMBER(k, [b"m0", b"m1", b"m2", b"m3"]) if x < .95 else DEL(k)

    def zset(self, k, x, r):
        m = lambda: b"m%d" % r.randrange(4)
        if x < .3:
            return ZADD(k, [(float(r.randrange(8)), m())], incr=True)
        if x < .5:
            return ZADD(k, [(float(r.randrange(-20, 20)), m()) for _ in range(r.choice([1, 3]))], c=r.choice(["", "NX", "XX"]), ch=r.random() < .5)
        if x < .6:
            return ZADD(k, [(float(r.randrange(-20, 20)), m())], g=r.choice(["GT", "LT"]), ch=True)
        if x < .7:
            return ZREM(k, [m(), m()])
        if x < .76:
            return ZREMRANGE_RANK(k, 0, 0)
        return ZRANGE_RANK(k, 0, -1, ws=True) if x < .92 else ZRANK(k, m()) if x < .97 else ZREMRANGE_SCORE(k, (False, 0.0), (False, 5.0))

    def restore(self, k, x, r):
        c = r.choice(self.payloads)
        if x < .5:
            return RESTORE_KNOWN(k, r.choice([0, 50000]), c, r.random() < .3)
        if x < .7:
            return DEL(k)
        return EXISTS(k) if x < .8 else SET(k, self.uniq(), c="NX") if x < .9 else TTL(k)

    def read(self):
        """one that tells the whole value"""
        return {"list": lambda k: LRANGE(k, 0, -1), "hash": HGETALL, "set": SMEMBERS, "zset": lambda k: ZRANGE_RANK(k, 0, -1, ws=True)}.get(self.kind, GET)(self.k)

    def duel(self, k, x, r):
        c = r.choice(self.two)(self, k, r)
        return c

    def mixed(self, k, x, r):
        return getattr(self, r.choice(["ctr", "list", "hash", "set", "zset", "txt"]))(k, x, r)


# operations that enable and disable each other
DUELS = [
    [lambda h, k, r: HSETNX(k, b"f", h.uniq()), lambda h, k, r: HDEL(k, [b"f"]), lambda h, k, r: HGET(k, b"f")],
    [lambda h, k, r: PUSH(k, [h.uniq()], left=r.random() < .5, x=True), lambda h, k, r: PUSH(k, [h.uniq()], x=True), lambda h, k, r: DEL(k),
     lambda h, k, r: POP(k, r.choice([2, 3]), left=r.random() < .5), lambda h, k, r: PUSH(k, [h.uniq()], left=False)],
    [lambda h, k, r: PUSH(k, [h.uniq()], x=True), lambda h, k, r: DEL(k), lambda h, k, r: PUSH(k, [h.uniq()])],
    [lambda h, k, r: SET(k, h.uniq(), c="NX"), lambda h, k, r: DEL(k), lambda h, k, r: GET(k)],
    [lambda h, k, r: SET(k, h.uniq(), c="XX", get=r.random() < .5), lambda h, k, r: DEL(k), lambda h, k, r: SET(k, h.uniq(), get=True)],
    [lambda h, k, r: EXPIRE(k, r.choice([50, 90]), flags=r.choice([("NX",), ("GT",), ("LT",), ("XX",)])), lambda h, k, r: TTL(k), lambda h, k, r: SET(k, h.uniq()),
     lambda h, k, r: SET(k, h.uniq(), ex=("EX", 70))],
    [lambda h, k, r: EXPIRE(k, 100), lambda h, k, r: DEL(k), lambda h, k, r: SET(k, h.uniq(), c="NX", ex=("EX", 70)), lambda h, k, r: TTL(k)],
    [lambda h, k, r: SADD(k, [b"m"]), lambda h, k, r: SREM(k, [b"m"])],
    [lambda h, k, r: SADD(k, [b"m", b"n"]), lambda h, k, r: SREM(k, [b"n", b"m"]), lambda h, k, r: SMISMEMBER(k, [b"m", b"n"]), lambda h, k, r: SMEMBERS(k)],
    [lambda h, k, r: ZADD(k, [(float(r.randrange(9)), b"m")], c="NX"), lambda h, k, r: ZREM(k, [b"m"]), lambda h, k, r: ZRANGE_RANK(k, 0, -1, ws=True)],
    [lambda h, k, r: ZADD(k, [(float(r.randrange(1, 9)), b"m")], incr=True), lambda h, k, r: ZREM(k, [b"m"])],
    [lambda h, k, r: ZADD(k, [(float(r.randrange(9)), b"m")], g=r.choice(["GT", "LT"]), ch=True), lambda h, k, r: ZRANGE_RANK(k, 0, -1, ws=True),
     lambda h, k, r: ZADD(k, [(float(r.randrange(9)), b"m")], ch=True)],
    [lambda h, k, r: ZADD(k, [(1.0, b"a"), (2.0, b"b")]), lambda h, k, r: ZREMRANGE_RANK(k, 0, r.choice([0, -1])), lambda h, k, r: ZRANGE_RANK(k, 0, -1),
     lambda h, k, r: ZREMRANGE_SCORE(k, (False, 1.0), (False, 2.0))],
    [lambda h, k, r: HINCRBY(k, b"n", 1), lambda h, k, r: HDEL(k, [b"n"])],
    [lambda h, k, r: HSET(k, [(b"a", b"%d" % h.n), (b"b", b"%d" % h.n)]) if h.uniq() else None, lambda h, k, r: HMGET(k, [b"a", b"b"]), lambda h, k, r: HDEL(k, [b"a", b"b"]), lambda h, k, r: HGETALL(k)],
    [lambda h, k, r: INCRBY(k, 1, plain=True), lambda h, k, r: DEL(k)],
    [lambda h, k, r: INCRBY(k, 1, plain=True), lambda h, k, r: SET(k, b"%d" % r.randrange(9000), get=True), lambda h, k, r: DECRBY(k, 3)],
    [lambda h, k, r: RESTORE_KNOWN(k, 0, r.choice(h.payloads), False), lambda h, k, r: DEL(k), lambda h, k, r: GET(k)],
    [lambda h, k, r: SET(k, h.uniq(), get=True)],
    [lambda h, k, r: PUSH(k, [h.uniq(), h.uniq()], left=r.random() < .5), lambda h, k, r: LRANGE(k, 0, -1), lambda h, k, r: POP(k, 2)],
    [lambda h, k, r: INCRBY(k, 1, plain=True), lambda h, k, r: PUSH(k, [h.uniq()]), lambda h, k, r: DEL(k)],
]
KINDS = ["ctr", "txt", "ttl", "list", "hash", "set", "zset", "mixed", "restore"]


def RESTORE_KNOWN(k, n, known, replace):
    c = RESTORE(k, n, known[1], replace=replace)
    c.known = known
    return c


# --------------------------------------------------------------------------------------------------------------- recording
class Rec:
    """what one client did to one key"""

    def __init__(self):
        self.h = {}               # key -> {client: [Cmd]}

    def add(self, key, client, c, inv, res, rep):
        c.inv, c.res, c.rep = inv, res, rep
        self.h.setdefault(key, {}).setdefault(client, []).append(c)


def burst(nd, rec, rng, hots, clients, rounds, ops, tick):
    """rounds of pipelined batches sent to all clients' connections at once"""
    for _ in range(rounds):
        n = min(clients)
        tick[0] += 1
        inv = tick[0]
        plan = []
        for c in clients.values():
            q = []
            for _ in range(ops):
                h = rng.choice(hots)
                q += [(None, PING())] * rng.choice([0, 0, 0, 1, 3])
                q.append((h, h.next()))
            plan.append(q)
        bs = [b"".join(c.bytes() for _, c in q) for q in plan]
        order = list(zip(clients.items(), bs, plan))
        rng.shuffle(order)
        for (i, cl), b, _ in order:
            cl.send(b)
        tick[0] += 1
        for (i, cl), _, q in order:
            for h, c in q:
                v = cl.read()
                if h is not None:
                    c.now = nd.now
                    rec.add(h.k, i, c, inv, tick[0], c.fixed or decode(c.dec, v))


def chain(nd, rec, rng, hots, clients, total, tick):
    """every client has one request outstanding and sends the next as soon as it is answered"""
    q = select.poll()
    fds = {cl.s.fileno(): (i, cl) for i, cl in clients.items()}
    cur = {}

    def go(i, cl):
        h = rng.choice(hots)
        c = h.next()
        tick[0] += 1
        cur[i] = (h, c, tick[0])
        cl.send(c.bytes())
    for fd, (i, cl) in fds.items():
        q.register(fd, select.POLLIN)
        go(i, cl)
    left = total
    while cur:
        ev = q.poll(20000)
        if not ev:
            raise TimeoutError("no reply within 20 s")
        for fd, _ in ev:
            i, cl = fds[fd]
            v = cl.read()
            tick[0] += 1
            h, c, inv = cur.pop(i)
            c.now = nd.now
            rec.add(h.k, i, c, inv, tick[0], c.fixed or decode(c.dec, v))
            left -= 1
            if left > 0:
                go(i, cl)


def line(hist):
    """one history: {client: [Cmd]} -> json"""
    t = ks.Trace()
    known = {c.known[1]: c.known[0] for q in hist.values() for c in q if hasattr(c, "known")}
    defs = [Cmd([], {"op": "blob", "p": PAYLOAD(p), "t": v[0], "v": repl.value_ev(*v)}, "any") for p, v in known.items()]
    for d in defs:
        d.now, d.rep = 0, {}
    lines = t.encode(defs + [c for q in hist.values() for c in q])
    b, p = lines[:len(defs)], len(defs)
    out = []
    for q in hist.values():
        o = []
        for c in q:
            o.append('%s,"inv":%d,"res":%d%s}' % (lines[p][:-1], c.inv, c.res, ',"nows":%s' % json.dumps([num(x) for x in c.either]) if hasattr(c, "either") else ""))
            p += 1
        out.append("[%s]" % ",".join(o))
    return '{"b":[%s],"c":[%s]}' % (",".join(b), ",".join(out))


def judge(chk, hists, what, jobs=8, xmx="3g"):
    """hists: list of (name, {client: [Cmd]})"""
    hists = [(k, h) for k, h in hists if h]
    groups = [hists[a::jobs] for a in range(jobs) if hists[a::jobs]]

    def one(g, n):
        p = os.path.join(core.workdir(), "lin.%d.%d.ndjson" % (id(hists), n))
        with open(p, "w") as f:
            f.write("\n".join(line(h) for _, h in g) + "\n")
        r = core.tlc("LinTrace", env={"TRACE": p}, xmx=xmx, timeout=800)
        os.unlink(p)
        return g, r
    for g, r in core.parallel([lambda g=g, n=n: one(g, n) for n, g in enumerate(groups)], jobs):
        if not r.ok:
            raise core.ToolError("LinTrace failed: " + r.out[-2500:])
        chk.design(r)
        done = {d["h"] for d in r.prints("DONE")}
        for j, (k, h) in enumerate(g):
            n = sum(len(q) for q in h.values())
            if j + 1 in done:
                chk.traces += 1
                chk.events += n
                continue
            ops = sorted((c for q in h.values() for c in q), key=lambda c: (c.inv, c.res))
            mode = "%s: the replies of %d concurrent clients on %r (%d operations) agree with no order" % (what, len(h), k, n)
            body = ["%s" % mode, "", "client [sent, answered] command -> reply"]
            for i, q in h.items():
                body += ["  %s [%d, %d] %s -> %s" % (i, c.inv, c.res, c.text(), brief(c.rep)) for c in q]
            chk.violation(mode + "; first operations: " + "; ".join("%s -> %s" % (c.text(), brief(c.rep)) for c in ops[:4]), "\n".join(body))


# ---------------------------------------------------------------------------------------------------------------------- C09
def payloads(nd):
    """some payloads, each with the value it denotes"""
    out = []
    cl = node.Client(nd.addr)
    for c, v in [(SET(b"p1", b"12"), ("str", b"12")), (PUSH(b"p2", [b"a", b"b"], left=False), ("list", [b"a", b"b"])), (HSET(b"p3", [(b"f", b"v")]), ("hash", {b"f": b"v"})),
                 (SADD(b"p4", [b"m"]), ("set", [b"m"])), (ZADD(b"p5", [(1.5, b"m")]), ("zset", {b"m": 1.5}))]:
        cl.send(c.bytes())
        cl.read()
        out.append((v, bytes(cl.cmd(b"DUMP", c.wire[1]))))
    cl.close()
    return out


def short(chk, binary, i, keys, mode):
    """many short histories on hot keys"""
    rng = random.Random("C09/%d/%d/%s" % (core.SEED, i, mode))
    rec, tick = Rec(), [0]
    with node.Node(binary, freeze=T0, workers=6, env={"VNODE_NOISE": rng.choice([3, 6, 12])}) as nd:
        pl = payloads(nd)
        clients = {j: node.Client(nd.addr) for j in range(6)}
        for r in range(keys):
            tag = b"{t%d}" % r if r % 2 else b""
            hots = [Hot(b"%s%s-%d-%d" % (tag, k.encode(), r, j), k, rng, pl) for j, k in enumerate(rng.sample(KINDS, 2))]
            sub = {j: clients[j] for j in rng.sample(range(6), rng.choice([2, 3, 4, 6]))}
            if mode == "burst":
                burst(nd, rec, rng, hots, sub, rounds=rng.choice([3, 4, 6]), ops=rng.choice([2, 3]) if len(sub) > 3 else rng.choice([4, 6]), tick=tick)
            else:
                chain(nd, rec, rng, hots, sub, total=rng.choice([40, 80]), tick=tick)
        alive(chk, nd, "concurrent clients")
    return rec


def duels(chk, binary, i, per):
    rng = random.Random("C09d/%d/%d" % (core.SEED, i))
    rec, tick = Rec(), [0]
    with node.Node(binary, freeze=T0, workers=6, env={"VNODE_NOISE": rng.choice([3, 5, 8])}) as nd:
        pl = payloads(nd)
        clients = {j: node.Client(nd.addr) for j in range(4)}
        for r in range(per):
            for d, two in enumerate(DUELS):
                h = Hot(b"d%d-%d" % (d, r), "duel", rng, pl)
                h.two = two
                sub = {j: clients[j] for j in rng.sample(range(4), rng.choice([2, 3, 3, 4]))}
                burst(nd, rec, rng, [h], sub, rounds=10, ops={2: 8, 3: 5, 4: 3}[len(sub)], tick=tick)
        alive(chk, nd, "concurrent clients")
    return rec


def long(chk, binary, i):
    """many pipelined operations of every client on one key, whose replies leave one order only"""
    rng = random.Random("C09l/%d/%d" % (core.SEED, i))
    rec, tick = Rec(), [0]
    m = N(1500, 12000)
    ways = [
        (m, lambda k, j, n: INCRBY(k, 1, plain=True)),
        (m, lambda k, j, n: HINCRBY(k, b"f", 1)),
        (m, lambda k, j, n: ZADD(k, [(1.0, b"m")], incr=True)),
        (m, lambda k, j, n: INCRBY(k, [1, 10 ** 4, 10 ** 8, 10 ** 12, 2, 5][j])),
        (m // 6, lambda k, j, n: PUSH(k, [b"%d-%d" % (j, n)], left=j % 2 == 0)),
        (m, lambda k, j, n: SET(k, b"%d-%d" % (j, n), get=True)),
        (m // 2, lambda k, j, n: SADD(k, [b"%d" % (n % 40)]) if n % 41 else SMEMBERS(k)),
        (m // 2, lambda k, j, n: HSETNX(k, b"%d" % (n % 60), b"%d" % j)),
    ]
    with node.Node(binary, freeze=T0, workers=8, env={"VNODE_NOISE": rng.choice([8, 20])}) as nd:
        clients = {j: node.Client(nd.addr, timeout=60) for j in range(6)}
        for w, (cnt, f) in enumerate(ways):
            key = b"L%d" % w
            per = 250
            n = 0
            while n < cnt:
                qs = {j: [f(key, j, x) for x in range(n, min(cnt, n + per))] for j in clients}
                n += per
                tick[0] += 1
                inv = tick[0]
                bs = {j: b"".join(c.bytes() for c in q) for j, q in qs.items()}
                for j, cl in clients.items():
                    cl.send(bs[j])
                tick[0] += 1
                for j, cl in clients.items():
                    for c in qs[j]:
                        c.now = nd.now
                        rec.add(key, j, c, inv, tick[0], c.fixed or decode(c.dec, cl.read()))
        # and nothing came of it that was not asked for
        for w in range(len(ways)):
            tick[0] += 1
            key = b"L%d" % w
            c = [GET, lambda k: HGETALL(k), lambda k: ZRANGE_RANK(k, 0, -1, ws=True), GET, lambda k: LRANGE(k, 0, -1), GET, SMEMBERS, HGETALL][w](key)
            clients[0].send(c.bytes())
            c.now = nd.now
            inv, rep = tick[0], c.fixed or decode(c.dec, clients[0].read())
            tick[0] += 1
            rec.add(key, 0, c, inv, tick[0], rep)
        alive(chk, nd, "concurrent clients")
    return rec


def c09(chk, b):
    recs = core.parallel([lambda i=i: short(chk, b, i, N(260, 4000), "burst") for i in range(2)] + [lambda: short(chk, b, 9, N(200, 3000), "chain")] +
                         [lambda: long(chk, b, 0)], 2)
    recs[:0] = core.parallel([lambda i=i: duels(chk, b, i, N(10, 150)) for i in range(2)], 2)
    core.log("driven: %d operations" % sum(len(q) for r in recs for h in r.h.values() for q in h.values()))
    hs = [h for r in recs[:5] for h in r.h.items()]
    chk.sample({"key": repr(hs[0][0]), "clients": {str(i): ["[%d,%d] %s -> %s" % (c.inv, c.res, c.text(), brief(c.rep)) for c in q[:6]] for i, q in hs[0][1].items()}})
    chk.add("histories", len(hs) + len(recs[5].h))
    judge(chk, hs, "concurrent clients")
    judge(chk, list(recs[5].h.items()), "concurrent clients")
