"""C20: a real follower of a scripted leader.  What the leader says (messages, snapshots) is what a real leader said; which of it the
follower gets to see, in which order, is decided by the specification (spec/MCDeliver.tla enumerates every delivery) or by chance.
spec/ReplTrace.tla decides from what it was sent and what it asked for what the follower must hold."""
import json, os, random, threading, time
from .. import bincode, core, gen, ks, node, repl
from ..ks import *
from ..tour import T0
from .keyspace import N, alive

SLOTS = repl.SLOTS
EMPTY = bincode.memdict(0, {})
WRITES = {"set", "del", "expire", "incrby", "push", "pop", "hset", "hsetnx", "hdel", "hincrby", "sadd", "srem", "zadd", "zrem", "zremrange", "restore"}
KINDS = {"ctr": 3, "txt": 3, "list": 4, "hash": 4, "set": 3, "zset": 4, "zlex": 2, "ttl": 4}


def tags(n, skip=0):
    """n key tags of n different slots"""
    from .repl import slot_of
    out, j = {}, skip
    while len(out) < n:
        t = b"{t%d}" % j
        j += 1
        out.setdefault(slot_of(t), t)
    return out


class Book:
    """what a real leader published, write by write, and its snapshot after each write"""

    def __init__(self, chk, binary, rng, n, rounds, least, kinds=KINDS, skip=0, **kw):
        self.tags = tags(n, skip)
        self.msgs = {s: {} for s in self.tags}          # slot -> {id: message}
        self.raw = {s: {0: EMPTY} for s in self.tags}   # slot -> {id: bytes of the slot}
        self.con = {s: {0: {}} for s in self.tags}      # slot -> {id: contents}
        gens = {}
        for s, t in self.tags.items():
            gens[s] = g = gen.Gen(rng, {rng.choice(list(kinds)): 1} if rng.random() < .5 else kinds, nkeys=1, cross=.02, **kw)
            g.keys = {h: [t + k for k in q] for h, q in g.keys.items()}
        with repl.server_node(binary, repl.ip(rng.randrange(10 ** 6)), freeze=T0) as nd:
            st = repl.Stream(nd.fwd, raw=True)
            cl = node.Client(nd.addr)
            taken = 0
            pl = []
            for i in range(5):
                k = b"{p%d}" % i
                cl.cmd(*[[b"SET", k, b"12"], [b"RPUSH", k, b"a", b"b"], [b"HSET", k, b"f", b"v"], [b"SADD", k, b"m", b"n"], [b"ZADD", k, b"1.5", b"m"]][i])
                pl.append(bytes(cl.cmd(b"DUMP", k)))
            for r in range(rounds):
                q = []
                for s in self.tags:
                    if least and len(self.msgs[s]) >= least:
                        continue
                    if rng.random() < .04:
                        k = rng.choice(gens[s].keys["txt"])
                        q.append(RESTORE(k, rng.choice([0, 5000]), rng.choice(pl), replace=rng.random() < .7))
                        continue
                    for _ in range(20):
                        c = gens[s].next(T0)
                        if not isinstance(c, int) and c.ev["op"] in WRITES and safe(c):
                            q.append(c)
                            break
                if not q:
                    break
                b = b"".join(c.bytes() for c in q)
                th = threading.Thread(target=cl.send, args=(b,), daemon=True)
                th.start()
                for c in q:
                    cl.read()
                th.join()
                k = b"{mark}%d" % r
                cl.cmd(b"SET", k, b"x")
                if not st.wait_key(k):
                    raise core.ToolError("no write stream")
                with st.cv:
                    new = st.msgs[taken:]
                    taken += len(new)
                for m in new:
                    if m["slot"] in self.msgs:
                        self.msgs[m["slot"]][m["id"]] = m
                raws = {}
                snap = repl.snapshot(nd.addr, raws=raws)
                for s in self.tags:
                    w = snap[s][0]
                    self.raw[s].setdefault(w, raws[s])
                    self.con[s].setdefault(w, snap[s][1])
            st.close()
            cl.close()
            alive(chk, nd, "leader")

    def at(self, s, j):
        """the first snapshot that has j"""
        return min(x for x in self.raw[s] if x >= j)


class Leader:
    """says what the script says; remembers what it was asked"""

    def __init__(self, host, book):
        self.book = book
        self.full = {}            # slot -> id shown in a snapshot of all slots
        self.queue = {}           # slot -> ids to show when it is fetched
        self.log = {s: [] for s in book.tags}     # slot -> [(id, all)]
        self.asked = []
        self.cut = []             # cut the next snapshots after so many slots / bytes
        self.slow = 0.0
        self.conns = []
        self.fwd = None
        self.cv = threading.Condition()
        self.fulls = 0
        self.a = repl.Server((host, 6379), self._server)
        self.b = repl.Server((host, 7379), self._forward)
        self.info = {"id": 1, "server": self.a.addr, "forward": self.b.addr}

    def _server(self, c):
        f = repl.Frames(c)
        v = f.read()
        if bytes(v[0]).lower() != b"syncsnapshot":
            raise OSError("not a snapshot request")
        slot = int(v[1])
        with self.cv:
            self.asked.append(slot)
            cut = self.cut.pop(0) if self.cut else None
        if slot == SLOTS and self.fulls > 12:
            return            # never asked for so often by a follower that asks for the slot with the gap; recorded long ago
        if slot == SLOTS:
            out = bytearray()
            for s in range(SLOTS):
                if cut == s:
                    c.sendall(out)
                    return
                j = self.full.get(s, 0)
                out += b"\x01" + bincode.u16(s) + (self.book.raw[s][j] if s in self.book.raw else EMPTY)
                if s in self.book.raw:
                    with self.cv:
                        self.log[s].append((j, True))
                if self.slow and s % 512 == 511:
                    c.sendall(out)
                    out = bytearray()
                    time.sleep(self.slow)
            c.sendall(bytes(out) + b"\x00")
            with self.cv:
                self.fulls += 1
                self.cv.notify_all()
            return
        with self.cv:
            q = self.queue.get(slot)
            j = (q[0] if len(q) == 1 else q.pop(0)) if q else max(self.book.raw.get(slot, {0: 0}))
        out = b"\x01" + bincode.u16(slot) + (self.book.raw[slot][j] if slot in self.book.raw else EMPTY)
        if cut is not None:
            c.sendall(out[:min(cut, len(out) - 1)])
            with self.cv:
                if q is not None and self.queue[slot] is q and q and q[0] != j:
                    q.insert(0, j)
            return
        if slot in self.log:
            with self.cv:
                self.log[slot].append((j, False))
        c.sendall(out + b"\x00")

    def _forward(self, c):
        buf = b""
        while len(buf) < len(repl.SYNC_CMD):
            d = c.recv(65536)
            if not d:
                return
            buf += d
        with self.cv:
            self.fwd = c
            self.cv.notify_all()
        while c.recv(65536):
            self.send([None])

    def send(self, msgs):
        b = b"".join(bincode.message({"id": 0, "slot": 0, "cmd": "None"}) if m is None else m["raw"] for m in msgs)
        with self.cv:
            self.fwd.sendall(b)

    def drop(self):
        with self.cv:
            c, self.fwd = self.fwd, None
        self.b.kill_conns()

    def close(self):
        self.a.close()
        self.b.close()


def contents_list(con):
    return [[ks.W(k), t, repl.value_ev(t, v), ks.num(at) if at else []] for k, (t, v, at, log) in sorted(con.items())]


class Follow:
    """a real server told by a placement driver to follow the scripted leader"""

    def __init__(self, chk, binary, rng, book, name):
        self.chk, self.rng, self.book, self.name = chk, rng, book, name
        self.L = Leader(repl.ip(rng.randrange(10 ** 6)), book)
        self.pd = repl.FakePD(repl.ip(rng.randrange(10 ** 6)))
        self.pd.on_init = lambda q: {"id": 2, "group": q["group"], "role": "follower", "leader": self.L.info}
        self.nd = repl.server_node(binary, repl.ip(rng.randrange(10 ** 6)), pd=self.pd.addr, freeze=T0, workers=3, env={"VNODE_MONO": "1"})
        self.m = {s: [] for s in book.tags}
        self.probes = 0
        self.sent = {s: 0 for s in book.tags}

    def tick(self, ms=50):
        self.nd.control("mono %d" % ms)

    def until(self, pred, timeout=20):
        t = time.time()
        while not pred():
            if time.time() - t > timeout:
                return False
            self.tick()
            time.sleep(.002)
        return True

    def connect(self):
        """until the follower has registered"""
        ok = self.until(lambda: self.L.fwd is not None)
        for s in self.m:
            self.m[s].append(ev({"op": "conn"}))
        return ok

    def send(self, msgs):
        for m in msgs:
            if m is not None:
                self.m[m["slot"]].append(repl.msg_cmd(m, self.nd.now))
                self.sent[m["slot"]] = max(self.sent[m["slot"]], m["id"])
        self.L.send(msgs)
        self.chk.add("messages_sent", len(msgs))

    def settle(self, timeout=30):
        """the follower takes one message after the other: when it has the last it has dealt with all"""
        from .repl import slot_of
        self.probes += 1
        k = b"__probe%d" % self.probes
        m = {"id": 1, "slot": slot_of(k), "cmd": "Set", "key": k, "value": ("str", b"1"), "at": 0, "nx": ""}
        if slot_of(k) in self.m:
            return self.settle(timeout)
        m["raw"] = bincode.message(m)
        self.L.send([m])
        cl = node.Client(self.nd.addr)
        ok = self.until(lambda: cl.cmd(b"EXISTS", k) == 1, timeout)
        cl.close()
        return ok

    def look(self, dead=None):
        snap = repl.snapshot(self.nd.addr)
        for s in self.m:
            if self.m[s]:
                c = repl.contents_cmd({s: snap[s]}, self.nd.now, ids=False, what="follower's slot %d" % s, dead=dead)
                c.ev["sid"], c.ev["n"] = snap[s][0], len(self.L.log[s])
                self.m[s].append(c)
        self.chk.add("slots_compared", len(self.m))
        return snap

    def drain(self):
        """time passes and nobody touches anything"""
        at = T0 + 10 ** 7
        for j in range(40):
            self.nd.set_now(T0 + (10 ** 7 + 60000) * (j + 1) // 40)
            self.tick((10 ** 7 + 60000) // 40)
            time.sleep(.002)
        for _ in range(40):
            snap = repl.snapshot(self.nd.addr)
            if not any(0 < x[2] <= at for s in self.m for x in snap[s][1].values()):
                break
            time.sleep(.05)
        self.look(dead=at)

    def lines(self):
        out = []
        for s in self.m:
            sn = [ev({"op": "snap", "id": j, "all": a, "v": contents_list(self.book.con[s][j])}) for j, a in self.L.log[s]]
            t = ks.Trace()
            q = t.encode(self.m[s] + sn)
            n = len(self.m[s])
            out.append((s, '{"m":[%s],"s":[%s]}' % (",".join(q[:n]), ",".join(q[n:]))))
        return out

    def close(self):
        self.nd.kill()
        self.L.close()
        self.pd.close()


def ev(d):
    c = ks.Cmd([d["op"].encode()], d, "any")
    c.rep, c.now = {"k": "skip", "v": []}, T0
    return c


def judge(chk, fs, what, jobs=8):
    """fs: Follow objects"""
    todo = [(f, s, l) for f in fs for s, l in f.lines()]
    groups = [todo[a::jobs] for a in range(jobs) if todo[a::jobs]]

    def one(g, n):
        p = os.path.join(core.workdir(), "rep.%d.%d.ndjson" % (id(fs), n))
        with open(p, "w") as f:
            f.write("\n".join(l for _, _, l in g) + "\n")
        r = core.tlc("ReplTrace", env={"TRACE": p}, xmx="3g", timeout=800)
        os.unlink(p)
        return g, r
    for g, r in core.parallel([lambda g=g, n=n: one(g, n) for n, g in enumerate(groups)], jobs):
        if not r.ok:
            raise core.ToolError("ReplTrace failed: " + r.out[-2500:])
        chk.design(r)
        done = {d["h"] for d in r.prints("DONE")}
        rej = {}
        for d in r.prints("REJECT"):
            if d["h"] not in rej or d["m"] > rej[d["h"]]["m"]:
                rej[d["h"]] = d
        for j, (f, s, _) in enumerate(g):
            chk.events += len(f.m[s])
            if j + 1 in done:
                chk.traces += 1
                continue
            d = rej.get(j + 1, {})
            m = f.m[s]
            bad = m[min(d.get("m", 1), len(m)) - 1]
            line = "%s, slot %d: with write %s incorporated and %s snapshots taken (asked for in all: %s), at %s%s: required %s" % (
                what, s, d.get("id"), d.get("taken"), f.L.log[s], bad.text(), " -> number %s %s" % (bad.ev["sid"], brief(bad.rep)) if bad.ev["op"] == "contents" else "", json.dumps(d.get("why")))
            chk.violation(line, "\n".join([line, "", "what the follower was sent and seen to hold:"] +
                                          ["  %s%s" % (c.text(), " -> number %s after %s snapshots: %s" % (c.ev["sid"], c.ev["n"], brief(c.rep)) if c.ev["op"] == "contents" else "") for c in m] +
                                          ["snapshots of the slot it asked for: %s" % f.L.log[s]]))


def merge(rng, seqs, width):
    """an interleaving which keeps the order of each"""
    out, live, rest = [], [], list(seqs)
    rng.shuffle(rest)
    while live or rest:
        while rest and len(live) < width:
            live.append(iter(rest.pop()))
        j = rng.randrange(len(live))
        try:
            out.append(next(live[j]))
        except StopIteration:
            live.pop(j)
    return out


def exhaustive(chk, binary, cfg, i):
    """every delivery TLC enumerates, each on slots of its own"""
    rng = random.Random("C20e/%s/%d" % (cfg, core.SEED))
    r = core.tlc_must("MCDeliver", cfg=cfg, workers=2, xmx="3g", timeout=600)
    chk.design(r)
    hs = r.prints("HIST")
    two = any(m["s"] == 2 for h in hs for m in h["m"])
    last = max(m["n"] for h in hs for m in h["m"])
    need = len(hs) * (2 if two else 1)
    book = Book(chk, binary, rng, min(need + need // 10 + 20, SLOTS - 800), rounds=last * 6, least=last)
    pool = [s for s in book.tags if len(book.msgs[s]) >= last and all(j in book.raw[s] for j in range(last + 1))]
    rng.shuffle(hs)
    f = Follow(chk, binary, rng, book, "delivery")
    try:
        seqs, used = [], set()
        for h in hs:
            n = 2 if two else 1
            if len(pool) < n:
                break
            ss = [pool.pop() for _ in range(n)]
            used |= set(ss)
            for j, s in enumerate(ss):
                f.L.full[s] = h["i"][j]
            for m in h["m"]:
                if m["j"]:
                    f.L.queue.setdefault(ss[m["s"] - 1], []).append(m["j"])
            seqs.append([book.msgs[ss[m["s"] - 1]][m["n"]] for m in h["m"]])
        chk.add("deliveries_enumerated", len(hs))
        chk.add("deliveries_driven", len(seqs))
        f.m = {s: [] for s in used}
        finish(f, merge(rng, seqs, 40), rng)
    finally:
        f.close()
    return f


def finish(f, msgs, rng):
    ok = f.connect()
    if not ok:
        f.chk.violation("%s: a server told to follow does not register with its leader" % f.name, f.nd.stderr()[-2000:])
        return
    # some of the messages come before the snapshot has been taken
    early = rng.randrange(1, 60)
    f.send(msgs[:early])
    for a in range(early, len(msgs), 200):
        f.send(msgs[a:a + 200])
        if rng.random() < .2:
            f.send([None])
    f.settled = f.settle(60)
    f.look()
    f.drain()
    alive(f.chk, f.nd, "follower")


def disturbed(chk, binary, i, n, rounds, parts):
    """longer logs of every kind of write; messages lost, repeated, swapped, delayed; connections broken; snapshots cut off"""
    rng = random.Random("C20d/%d/%d" % (core.SEED, i))
    book = Book(chk, binary, rng, n, rounds=rounds, least=0, skip=7 * i, big=i % 2 == 1)
    f = Follow(chk, binary, rng, book, "disturbed stream")
    try:
        top = {s: max(book.msgs[s], default=0) for s in book.tags}
        pos = {s: 0 for s in book.tags}
        for part in range(parts):
            seqs = []
            for s in book.tags:
                # what the leader has written by the end of this part
                end = min(top[s], pos[s] + rng.choice([1, 3, rounds // parts + 2])) if part < parts - 1 else top[s]
                lo = book.at(s, rng.randrange(pos[s], end + 1))
                lo = max([lo] + [j for j, _ in f.L.log[s]] + [book.at(s, f.sent[s])])
                f.L.full[s] = lo
                q = list(range(max(1, pos[s] - 1), end + 1))
                mode = rng.choice(["clean", "clean", "lose", "repeat", "swap", "chaos"])
                if mode in ("lose", "chaos"):
                    q = [x for x in q if rng.random() > .25]
                if mode in ("repeat", "chaos"):
                    q = [x for x in q for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                if mode in ("swap", "chaos"):
                    q = [x for _, x in sorted((j + rng.uniform(0, 3), x) for j, x in enumerate(q))]
                # what a fetch will show: a moment not before the message that caused it
                fno = lo
                f.L.queue[s] = []
                for x in q:
                    if x == fno + 1:
                        fno = x
                    elif x > fno + 1:
                        fno = book.at(s, rng.randrange(x, end + 1))
                        f.L.queue[s].append(fno)
                if not f.L.queue[s]:
                    f.L.queue[s] = [max(book.raw[s])]
                seqs.append([book.msgs[s][x] for x in q if x in book.msgs[s]])
                pos[s] = end
            if part == 1 and i == 0:
                f.L.cut = [rng.choice([0, 1000, 9000])]
            if part == 0:
                f.L.slow = rng.choice([0, .01, .03])
            if not f.connect():
                chk.violation("disturbed stream: a follower does not register with its leader again", f.nd.stderr()[-2000:])
                break
            msgs = merge(rng, seqs, rng.choice([1, 5, 100]))
            for a in range(0, len(msgs), 50):
                f.send(msgs[a:a + 50] + [None] * rng.choice([0, 0, 1]))
                if rng.random() < .02:
                    with f.L.cv:
                        f.L.cut.append(rng.choice([0, 1, 3, 9, 12])) if i == 0 and len(f.L.cut) < 1 and part == 2 else None
            f.settle(60)
            f.look()
            chk.add("connections", 1)
            if part < parts - 1:
                f.L.drop()
        f.drain()
        alive(chk, f.nd, "follower")
    finally:
        f.close()
    return f


def c20(chk, b):
    for n in (1, 2) if not core.thorough() else (3, 4):
        chk.design(core.tlc_must("Repl", cfg="Repl%d" % n, workers=4, xmx="6g", timeout=3000))
    jobs = [lambda c=c: exhaustive(chk, b, c, 0) for c in (("MCDeliver1", "MCDeliver2") if not core.thorough() else ("MCDeliver1", "MCDeliver2", "MCDeliver3", "MCDeliver4"))]
    jobs += [lambda i=i: disturbed(chk, b, i, N(250, 2500), N(14, 40), N(3, 6)) for i in range(N(3, 8))]
    fs = core.parallel(jobs, 4)
    core.log("driven")
    for f in fs:
        s = max(f.m, key=lambda s: len(f.m[s]))
        chk.sample("%s, slot %d: sent %s; snapshots taken %s" % (f.name, s, [c.text()[:60] for c in f.m[s]][:14], f.L.log[s]))
        judge(chk, [f], "follower, " + f.name)
