"""C10, C11: reclamation of expired keys (spec/ExpireIndex.tla) and FLUSHALL; what is in memory is read through snapshots."""
import random, select, threading, time
from .. import core, gen, ks, node, repl, resp
from ..ks import *
from ..tour import T0
from . import lin
from .keyspace import N, alive, note

GRACE = 60000      # a key whose deadline passed so long ago, by a clock that every timer of the server follows, must be out of memory


class Phys:
    """a server all of whose clocks stand still and are moved by the driver"""

    def __init__(self, chk, binary, rng, env=None):
        self.chk, self.rng = chk, rng
        self.nd = node.Node(binary, freeze=T0 + rng.randrange(10 ** 9), workers=1, env=dict({"VNODE_MONO": "1"}, **(env or {})))
        self.d = ks.Driver(self.nd)
        self.seen = self.gone = 0

    def advance(self, ms, steps=1):
        self.d.flush()
        for j in range(steps):
            q = ms * (j + 1) // steps - ms * j // steps
            if q:
                self.nd.set_now(self.nd.now + q)
                self.nd.control("mono %d" % q)

    def jump(self, ms):
        """the wall clock alone moves"""
        self.d.flush()
        self.nd.set_now(self.nd.now + ms)

    def look(self, what="keys in memory", dead=None):
        self.d.flush()
        self.nd.control("settle")
        snap = repl.snapshot(self.nd.addr)
        self.d.tr.ev.append(repl.contents_cmd(snap, self.nd.now, ids=False, what=what, dead=dead))
        n = sum(len(x) for _, x in snap.values())
        self.seen = n
        self.chk.add("memory_views")
        return snap

    def drain(self):
        """time passes and nobody touches anything"""
        at = self.nd.now
        self.advance(GRACE, self.rng.choice([6, 20, 61]))
        self.look("keys in memory %d s later" % (GRACE // 1000), dead=at)


KIND = {"ctr": 3, "txt": 5, "list": 3, "hash": 3, "set": 3, "zset": 3, "zlex": 1, "ttl": 9, "dump": 3}


def history(chk, binary, i, steps, flush=.01, nkeys=2):
    """random commands of every kind while time passes"""
    rng = random.Random("C10/%d/%d" % (core.SEED, i))
    p = Phys(chk, binary, rng)
    d = p.d
    with p.nd:
        for _ in range(steps // 600 + 1):
            d.reset()
            d.do(FLUSHALL(b"SYNC"))
            g = gen.Gen(rng, KIND, nkeys=nkeys, tick=rng.choice([.01, .04, .1]), cross=.03)
            n = 0
            while n < 600:
                c = g.next(p.nd.now)
                if isinstance(c, int):
                    p.advance(c, rng.choice([1, 1, 1, 3])) if rng.random() < .8 else p.jump(c)
                    continue
                n += 1
                if rng.random() < flush:
                    c = FLUSHALL(rng.choice([None, b"SYNC", b"ASYNC"]))
                d.do(c)
                if c.ev["op"] == "dump":
                    d.flush()
                    if c.rep["k"] == "blob" and len(g.payloads) < 30:
                        g.payloads.append(c.rep["v"].b)
                if n % 150 == 149:
                    p.look()
                if n % 300 == 299:
                    p.drain()
            gen.final(d, g)
            p.drain()
        alive(chk, p.nd, "expiry")
    return d.tr


def crowd(chk, binary, i, n):
    """very many keys with few distinct deadlines, changed in every way before, at and after them"""
    rng = random.Random("C10c/%d/%d" % (core.SEED, i))
    p = Phys(chk, binary, rng)
    d = p.d
    with p.nd:
        d.reset()
        now = p.nd.now
        far = SETEX(b"far", 10 ** 6, b"x")
        d.do(far)
        mk = [lambda k, t: SET(k, b"x", ex=("PX", t)), lambda k, t: SETEX(k, t, b"y", ms=True), lambda k, t: SET(k, b"1", ex=("PXAT", now + t)),
              lambda k, t: [PUSH(k, [b"a"]), EXPIRE(k, t, unit="ms")], lambda k, t: [HSET(k, [(b"f", b"v")]), EXPIRE(k, now + t, unit="ms", abs_=True)],
              lambda k, t: [SADD(k, [b"m"]), EXPIRE(k, t, unit="ms", flags=("NX",))], lambda k, t: [ZADD(k, [(1.0, b"m")]), EXPIRE(k, t, unit="ms")],
              lambda k, t: [INCRBY(k, 5), EXPIRE(k, 2 * t, unit="ms"), EXPIRE(k, t, unit="ms", flags=("LT",))]]
        # the change, and whether the key lives on after the first deadline
        ch = [lambda k: [], lambda k: EXPIRE(k, 10 ** 5), lambda k: SET(k, b"again"), lambda k: SET(k, b"again", ex=("KEEPTTL",)), lambda k: DEL(k),
              lambda k: [DEL(k), SADD(k, [b"new"])], lambda k: [DEL(k), SETEX(k, 2500, b"v", ms=True)], lambda k: EXPIRE(k, 1, unit="ms"), lambda k: EXPIRE(k, 3000, unit="ms", flags=("GT",)),
              lambda k: EXPIRE(k, 700, unit="ms", flags=("LT",)), lambda k: EXPIRE(k, -5), lambda k: SET(k, b"0", ex=("EX", 50))]
        do = lambda q: [d.do(c) for c in (q if isinstance(q, list) else [q])]
        ts = [1000, 1000, 1000, 1001, 1500, 2000]
        for j in range(n):
            do(rng.choice(mk)(b"k%d" % j, rng.choice(ts)))
        p.advance(400)
        for j in range(n):
            do(rng.choice(ch)(b"k%d" % j))
        p.look()
        for ms in [599, 1, 1, 499, 300, 700, 1000]:
            p.advance(ms)
            for j in rng.sample(range(n), n // 40):
                do(rng.choice(ch + [lambda k: EXISTS(k)] * 6)(b"k%d" % j))
            d.flush()
        p.look()
        p.drain()
        for j in range(n):
            d.do(EXISTS(b"k%d" % j))
        d.do(PTTL(b"far"))
        p.advance(2 * 10 ** 6 * 1000, 3)
        p.drain()
        alive(chk, p.nd, "expiry")
    chk.add("crowd_keys", n)
    return project(d.tr, 100)


def deadline_ops():
    """every way to give, move, keep or take away a deadline: functions of (key, now, payload) to commands"""
    out = []
    for t in (1000, 3000):
        for c in ("", "NX", "XX"):
            out += [lambda k, now, b, t=t, c=c: SET(k, b"v", c=c, ex=("PX", t)), lambda k, now, b, t=t, c=c: SET(k, b"v", c=c, ex=("PXAT", now + t), get=c != "NX")]
        out += [lambda k, now, b, t=t: SET(k, b"v", ex=("EX", t // 1000), get=True), lambda k, now, b, t=t: SETEX(k, t, b"v", ms=True), lambda k, now, b, t=t: RESTORE(k, t, b),
                lambda k, now, b, t=t: RESTORE(k, t, b, replace=True), lambda k, now, b, t=t: RESTORE(k, now + t, b, replace=True, absttl=True)]
        for f in ((), ("NX",), ("XX",), ("GT",), ("LT",)):
            out.append(lambda k, now, b, t=t, f=f: EXPIRE(k, t, unit="ms", flags=f))
        out += [lambda k, now, b, t=t: EXPIRE(k, now + t, unit="ms", abs_=True), lambda k, now, b, t=t: EXPIRE(k, t // 1000)]
        out.append(lambda k, now, b, t=t: [DEL(k), HSET(k, [(b"f", b"v")]), EXPIRE(k, t, unit="ms")])
    for c in ("", "NX", "XX"):
        out += [lambda k, now, b, c=c: SET(k, b"5", c=c), lambda k, now, b, c=c: SET(k, b"5", c=c, ex=("KEEPTTL",))]
    out += [lambda k, now, b: SET(k, b"5", get=True), lambda k, now, b: SET(k, b"5", get=True, ex=("KEEPTTL",)), lambda k, now, b: SET(k, b"5", get=True, c="XX"), lambda k, now, b: DEL(k),
            lambda k, now, b: EXPIRE(k, -5), lambda k, now, b: EXPIRE(k, now - 1, unit="ms", abs_=True), lambda k, now, b: RESTORE(k, 0, b, replace=True), lambda k, now, b: INCRBY(k, 5),
            lambda k, now, b: SET(k, b"p", ex=("PXAT", now - 1)), lambda k, now, b: SET(k, b"p", c="XX", ex=("EXAT", now // 1000 - 1)),
            lambda k, now, b: SET(k, b"p", c="NX", ex=("PXAT", now)), lambda k, now, b: RESTORE(k, now - 5, b, replace=True, absttl=True),
            lambda k, now, b: [DEL(k), PUSH(k, [b"a"])], lambda k, now, b: [PUSH(k, [b"a"]), POP(k), POP(k)], lambda k, now, b: [SADD(k, [b"m"]), SREM(k, [b"m"])]]
    return out


def moves(chk, binary, i, share):
    """every pair of ways to deal with a deadline, one after the other on the same key, before the first deadline and after it; then
    nobody touches the key"""
    rng = random.Random("C10m/%d/%d" % (core.SEED, i))
    p = Phys(chk, binary, rng)
    d = p.d
    ops = deadline_ops()
    pairs = [(a, b) for a in ops for b in ops]
    rng.shuffle(pairs)
    with p.nd:
        d.reset()
        d.do(SET(b"dumped", b"17"))
        d.do(DUMP(b"dumped"))
        d.flush()
        blob = d.tr.ev[-1].rep["v"].b
        do = lambda f, k: [d.do(c) for c in (lambda q: q if isinstance(q, list) else [q])(f(k, p.nd.now, blob))]
        pairs = pairs[:int(len(pairs) * share)]
        keys = [b"m%d" % j for j in range(len(pairs))]
        for (a, _), k in zip(pairs, keys):
            do(a, k)
        p.advance(200)
        late = set(rng.sample(range(len(keys)), len(keys) // 4))
        for j, ((_, b), k) in enumerate(zip(pairs, keys)):
            if j not in late:
                do(b, k)
        p.look()
        p.advance(1300, 13)
        for j in sorted(late):
            do(pairs[j][1], keys[j])
        for j in rng.sample(range(len(keys)), len(keys) // 10):
            do(rng.choice(ops), keys[j])
        p.advance(1200, 6)
        p.look()
        p.drain()
        for k in keys:
            d.do(PTTL(k))
        alive(chk, p.nd, "expiry")
    chk.add("deadline_moves", len(keys))
    return project(d.tr, 60, also={b"dumped"})


def project(tr, n, also=()):
    """the same execution as seen by groups of n keys: commands on one key or on all, and views of the memory"""
    out, ev = ks.Trace(), [c for c in tr.ev if c is not ks.RESET]
    key = lambda c: c.ev["k"].b if "k" in c.ev else c.ev["ks"][0].b if "ks" in c.ev else None
    keys = sorted({key(c) for c in ev} - {None} - set(also))
    assert all(len(c.ev.get("ks", [0])) == 1 for c in ev)
    for j in range(0, len(keys), n):
        part = set(keys[j:j + n]) | set(also)
        out.reset()
        for c in ev:
            if c.ev["op"] != "contents":
                if key(c) is None or key(c) in part:
                    out.ev.append(c)
            else:
                out.ev.append(repl.restrict(c, lambda k: k in part))
    # a key which no command named is in no group: it must not be in memory at all
    for c in ev:
        if c.ev["op"] == "contents":
            out.reset()
            out.ev.append(repl.restrict(c, lambda k: k not in keys and k not in also))
    return out


def race(chk, binary, i, rounds, n):
    """clients touch keys at the very moment at which the purge removes them: what a client was told decides what must remain.
    The wall clock stands still but for one step, from before the deadline of all keys to after it."""
    rng = random.Random("C10r/%d/%d" % (core.SEED, i))
    rec = lin.Rec()
    tick = 0
    with node.Node(binary, freeze=T0, workers=6, env={"VNODE_NOISE": rng.choice([6, 15])}) as nd:
        cls = [node.Client(nd.addr) for _ in range(3)]
        for r in range(rounds):
            keys = [b"r%d-%d-%d" % (i, r, j) for j in range(n)]
            at = nd.now + 20
            # everything expires at the same instant; the server purges in the order of the slots
            keys.sort(key=lambda k: (slot_of(k), k))
            q = [SET(k, b"old", ex=("PXAT", at)) for k in keys]
            tick += 1
            send(cls[0], q)
            for c in q:
                c.now = nd.now
                rec.add(c.ev["k"].b, 0, c, tick, tick + 1, c.fixed or decode(c.dec, cls[0].read()))
            tick += 2
            late = rng.random() < .7
            if late:
                nd.set_now(at)
            else:
                nd.set_now(at - 1)
            plans = []
            for j, cl in enumerate(cls):
                ks_ = keys if j == 0 else keys[::-1] if j == 1 else rng.sample(keys, n // 2)
                f = lambda k: rng.choice([lambda: SET(k, b"v%d" % j), lambda: SET(k, b"v%d" % j), lambda: EXPIRE(k, 1000), lambda: SET(k, b"n%d" % j, c="NX"), lambda: SET(k, b"x%d" % j, c="XX"),
                                          lambda: INCRBY(k, 1, plain=True), lambda: SET(k, b"w", ex=("PX", 10 ** 6)), lambda: DEL(k), lambda: SET(k, b"e", ex=("KEEPTTL",))])()
                plans.append([(k, f(k)) for k in ks_])
            bs = [b"".join(c.bytes() for _, c in p) for p in plans]
            if late:
                time.sleep(rng.choice([0, 0, .003, .008, .015]))      # the purge looks every 20 ms at most
            th = [threading.Thread(target=cl.send, args=(b,), daemon=True) for cl, b in zip(cls, bs)]
            for t in th:
                t.start()
            if not late:
                time.sleep(rng.choice([0, .0005, .002]))
                nd.control("freeze %d" % at)
            for (j, cl), p in zip(enumerate(cls), plans):
                for k, c in p:
                    rep = c.fixed or decode(c.dec, cl.read())
                    c.now = at
                    if not late:
                        c.either = (at - 1, at)
                    rec.add(k, j, c, tick, tick + 1, rep)
            for t in th:
                t.join()
            nd.now = at
            tick += 2
            time.sleep(.05)
            q = [GET(k) for k in keys] + [PTTL(k) for k in keys]
            send(cls[0], q)
            for c in q:
                c.now = nd.now
                rec.add(c.ev["k"].b, 0, c, tick, tick + 1, c.fixed or decode(c.dec, cls[0].read()))
            tick += 2
            nd.set_now(nd.now + 10)
        alive(chk, nd, "expiry races")
    return rec


def send(cl, q):
    b = b"".join(c.bytes() for c in q)
    t = threading.Thread(target=cl.send, args=(b,), daemon=True)
    t.start()
    return t


def slot_of(key):
    from .repl import slot_of as f
    return f(key)


def c10(chk, b):
    for _, t in core.parallel([lambda i=i: storm(chk, b, 10 + i, N(6, 100), 100) for i in range(2)], 2):
        ks.check_trace(chk, t, "expiry after flushes among writers", jobs=8)
    for n in (1, 2) if not core.thorough() else (3, 4):
        chk.design(core.tlc_must("ExpireIndex", cfg="ExpireIndex%d" % n, workers=4, xmx="6g", timeout=3000))
    trs = core.parallel([lambda i=i: history(chk, b, i, N(3000, 60000)) for i in range(3)] + [lambda: history(chk, b, 8, N(1200, 20000), flush=.05)] +
                        [lambda i=i: crowd(chk, b, i, N(1500, 20000)) for i in range(2)] + [lambda i=i: moves(chk, b, i, .85 if i == 0 and not core.thorough() else 1) for i in range(N(1, 6))], 6)
    for t, what in zip(trs, ["expiry"] * 4 + ["many keys expiring"] * 2 + ["deadlines moved"] * 9):
        note(chk, what, t)
        ks.check_trace(chk, t, what, jobs=8)
    recs = core.parallel([lambda i=i: race(chk, b, i, N(4, 60), N(600, 800)) for i in range(2)], 2)
    hs = [h for r in recs for h in r.h.items()]
    chk.add("raced_keys", len(hs))
    lin.judge(chk, hs, "clients racing the purge")


# --------------------------------------------------------------------------------------------------------------------- C11
FKINDS = {"ctr": 3, "txt": 4, "list": 3, "hash": 3, "set": 3, "zset": 4, "ttl": 5, "dump": 3, "raw": 1}


def flushes(chk, binary, i, rounds):
    """fill the keyspace in every way, empty it, reuse the names, let the deadlines of before and after pass"""
    rng = random.Random("C11/%d/%d" % (core.SEED, i))
    p = Phys(chk, binary, rng)
    d = p.d
    with p.nd:
        for r in range(rounds):
            d.reset()
            d.do(FLUSHALL(rng.choice([None, b"SYNC", b"ASYNC"])))
            g = gen.Gen(rng, FKINDS, nkeys=rng.choice([1, 4, 12]), tick=rng.choice([0, .01, .03]), cross=.03)
            for part in range(3):
                n = 0
                end = rng.choice([30, 120, 300])
                while n < end:
                    c = g.next(p.nd.now)
                    if isinstance(c, int):
                        p.advance(c)
                        continue
                    n += 1
                    d.do(c)
                    if c.ev["op"] == "dump":
                        d.flush()
                        if c.rep["k"] == "blob" and len(g.payloads) < 30:
                            g.payloads.append(c.rep["v"].b)
                if rng.random() < .4:
                    p.look()
                f = FLUSHALL(rng.choice([None, b"SYNC", b"ASYNC", b"sync"]))
                d.do(f)
                if rng.random() < .3:
                    gen.final(d, g)
                if rng.random() < .3:
                    d.do(FLUSHALL(rng.choice([None, b"SYNC"])))
                if rng.random() < .5:
                    p.look()
                chk.add("flushes")
            gen.final(d, g)
            p.drain()
            gen.final(d, g)
        alive(chk, p.nd, "flushall")
    return d.tr


def whole(chk, binary, i, n):
    """keys in every slot there is, of every type, with and without a deadline; emptied; the same names again with other deadlines"""
    rng = random.Random("C11w/%d/%d" % (core.SEED, i))
    p = Phys(chk, binary, rng)
    d = p.d
    keys = [b"w%d" % j for j in range(n)]
    mk = [lambda k: SET(k, b"x"), lambda k: SETEX(k, 50, b"x"), lambda k: PUSH(k, [b"a", b"b"]), lambda k: HSET(k, [(b"f", b"v")]), lambda k: SADD(k, [b"m"]), lambda k: ZADD(k, [(1.0, b"m")]),
          lambda k: INCRBY(k, 4)]
    mode = [None, b"SYNC", b"ASYNC"][i % 3]
    with p.nd:
        d.reset()
        for k in keys:
            d.do(rng.choice(mk)(k))
            if rng.random() < .5:
                d.do(EXPIRE(k, rng.choice([10, 20, 30])))
        d.do(FLUSHALL(mode))
        # some names live on at once
        for k in rng.sample(keys, n // 3):
            d.do(rng.choice(mk)(k))
            if rng.random() < .5:
                d.do(EXPIRE(k, rng.choice([10, 20, 25, 40])))
        p.look()
        for ms in [10000, 10000, 10000]:
            p.advance(ms)
            p.look()
        for k in keys:
            d.do(rng.choice([EXISTS, TTL])(k))
        d.do(FLUSHALL(rng.choice([None, b"SYNC"])))
        for k in keys:
            d.do(EXISTS(k))
        p.look()
        p.drain()
        alive(chk, p.nd, "flushall")
    return project(d.tr, 80)


def every_slot(chk, binary, i):
    """one key in each of the 16384 slots"""
    rng = random.Random("C11e/%d/%d" % (core.SEED, i))
    p = Phys(chk, binary, rng)
    d = p.d
    d.batch = 512
    keys = slot_keys()
    with p.nd:
        d.reset()
        for k in keys:
            d.do(SETEX(k, 30, b"x") if rng.random() < .3 else SADD(k, [b"m"]) if rng.random() < .3 else SET(k, b"x"))
        d.do(FLUSHALL(rng.choice([None, b"SYNC"])))
        p.look()
        for k in keys[:]:
            if rng.random() < .2:
                d.do(SETEX(k, 20, b"y"))
            elif rng.random() < .3:
                d.do(EXISTS(k))
        p.look()
        p.drain()
        alive(chk, p.nd, "flushall")
    chk.add("slots_flushed", len(keys))
    return project(d.tr, 128)


def slot_keys():
    """a key for every slot"""
    out, j = {}, 0
    while len(out) < 16384:
        k = b"%d" % j
        j += 1
        out.setdefault(slot_of(k), k)
    return [out[s] for s in sorted(out)]


def storm(chk, binary, i, rounds, n):
    """FLUSHALL among concurrent writers.  Keys a.. get their deadline with every write: all of them must be gone from memory in the end."""
    rng = random.Random("C11s/%d/%d" % (core.SEED, i))
    rec, out, tick = lin.Rec(), ks.Trace(), 0
    with node.Node(binary, freeze=T0 + rng.randrange(10 ** 6), workers=6, env={"VNODE_NOISE": rng.choice([4, 8, 20]), "VNODE_MONO": "1"}) as nd:
        cls = {j: node.Client(nd.addr) for j in range(4)}
        for r in range(rounds):
            ka = [b"a%d-%d" % (i, j) for j in range(n)]
            kb = [b"b%d-%d" % (i, j) for j in range(n // 2)]
            hist = {}         # key -> [(client, cmd, inv, res, reply)]
            opa = [lambda k, j: SETEX(k, rng.choice([5, 9]), b"%d" % j), lambda k, j: SET(k, b"g%d" % j, get=True, ex=("PX", rng.choice([3000, 7000]))), lambda k, j: SET(k, b"n%d" % j, c="NX", ex=("EX", 8)),
                   lambda k, j: EXPIRE(k, rng.choice([4, 6])), GETx, GETx, lambda k, j: DEL(k), lambda k, j: TTL(k)]
            hb = {k: lin.Hot(k, rng.choice(["ctr", "list", "hash", "set", "zset"]), rng) for k in kb}
            fl = 0
            for part in range(rng.choice([1, 2, 3])):
                tick += 2
                plan = {}
                for j in cls:
                    q = [(k, rng.choice(opa)(k, j)) for k in rng.sample(ka, n // 2)] + [(k, hb[k].next()) for k in rng.sample(kb, n // 4)]
                    rng.shuffle(q)
                    if fl < 3 and rng.random() < .5 or j == 3 and part == 0:
                        fl += 1
                        q.insert(rng.randrange(len(q) + 1), (None, FLUSHALL(rng.choice([None, None, b"SYNC", b"ASYNC"]))))
                    plan[j] = q
                th = [send(cls[j], [c for _, c in q]) for j, q in plan.items()]
                for j, q in plan.items():
                    for k, c in q:
                        rep = c.fixed or decode(c.dec, cls[j].read())
                        c.now = nd.now
                        for key in ([k] if k else ka + kb):
                            hist.setdefault(key, []).append((j, c if k else copyof(c), tick, tick + 1, rep))
                for t in th:
                    t.join()
                chk.add("storm_operations", sum(len(q) for q in plan.values()))
            tick += 2
            q = [(k, GET(k)) for k in ka] + [(k, hb[k].read()) for k in kb]
            th = send(cls[0], [c for _, c in q])
            for k, c in q:
                c.now = nd.now
                hist.setdefault(k, []).append((0, c, tick, tick + 1, c.fixed or decode(c.dec, cls[0].read())))
            th.join()
            for k, h in hist.items():
                for x in h:
                    rec.add((r, k), *x)
            # nobody touches anything; every timer of the server runs
            at = nd.now + 10000
            for _ in range(30):
                nd.set_now(nd.now + (10000 + GRACE) // 30)
                nd.control("mono %d" % ((10000 + GRACE) // 30))
                time.sleep(.004)
            for _ in range(40):
                snap = repl.snapshot(nd.addr)
                if not any(k.startswith(b"a") for _, x in snap.values() for k in x):
                    break
                time.sleep(.05)
            out.reset()
            out.ev.append(repl.restrict(repl.contents_cmd(snap, nd.now, ids=False, what="keys in memory", dead=at), lambda k: k.startswith(b"a")))
            cls[0].cmd(b"FLUSHALL", b"SYNC")
        alive(chk, nd, "flushall among writers")
    return rec, out


def GETx(k, j):
    return GET(k)


def copyof(c):
    q = c.copy()
    q.now = c.now
    return q


def c11(chk, b):
    chk.design(core.tlc_must("ExpireIndex", cfg="ExpireIndex1" if not core.thorough() else "ExpireIndex3", workers=4, xmx="6g", timeout=3000))
    trs = core.parallel([lambda i=i: flushes(chk, b, i, N(8, 120)) for i in range(3)] + [lambda i=i: whole(chk, b, i, N(1000, 20000)) for i in range(3)] +
                        [lambda: every_slot(chk, b, 0)], 6)
    for t, what in zip(trs, ["flushall"] * 3 + ["flushall of many slots"] * 4):
        note(chk, what, t)
        ks.check_trace(chk, t, what, jobs=8)
    recs = core.parallel([lambda i=i: storm(chk, b, i, N(8, 100), 60) for i in range(2)], 2)
    for _, t in recs:
        ks.check_trace(chk, t, "flushall among writers", jobs=8)
    hs = [h for r, _ in recs for h in r.h.items()]
    chk.add("storm_histories", len(hs))
    lin.judge(chk, hs, "FLUSHALL among writers")
