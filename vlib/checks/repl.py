"""C18-C21: the write stream, snapshots, and followers."""
import random, socket, threading, time
from .. import bincode, core, gen, ks, node, repl, resp
from ..ks import *
from ..tour import T0
from .keyspace import N, alive, note

# raw texts that parse as a number without being its canonical form are left out: their type is a matter of representation
KINDS = {"ctr": 3, "txt": 4, "list": 4, "hash": 4, "set": 3, "zset": 4, "zlex": 2, "ttl": 4, "dump": 2}


class Recorder:
    """the write stream of a leader, cut into the pieces between quiescent points"""

    def __init__(self, chk, nd, addr):
        self.chk, self.nd = chk, nd
        self.st = repl.Stream(addr)
        self.taken = 0
        self.marks = 0
        self.cl = node.Client(nd.addr)

    def quiesce(self, tr, now):
        """everything published so far is appended to tr; clients must be idle"""
        self.marks += 1
        k = b"__mark%d" % self.marks
        self.cl.cmd(b"SET", k, b"%d" % self.marks)
        ok = self.st.wait_key(k)
        if self.st.error or not ok:
            self.chk.violation("write stream: %s" % (self.st.error or "an accepted write was not published within 20 s"), "SET %r" % k)
            return False
        with self.st.cv:
            new = self.st.msgs[self.taken:]
            self.taken += len(new)
        tr.ev += [repl.msg_cmd(m, now) for m in new]
        return True

    def compare(self, tr, now, what="leader snapshot"):
        try:
            tr.ev.append(repl.contents_cmd(repl.snapshot(self.nd.addr), now, what=what))
        except repl.Incomplete as e:
            self.chk.violation("%s: %s" % (what, e), str(e))

    def close(self):
        self.st.close()
        self.cl.close()


def sequential(chk, binary, i, steps, kinds, tick, **kw):
    """random commands on one connection; the stream replayed on the spec must give the leader's contents at each checkpoint"""
    rng = random.Random("C18/%s/%d/%d" % (sorted(kinds), core.SEED, i))
    tr = ks.Trace()
    h = repl.ip(i)
    with repl.server_node(binary, h, freeze=T0 + rng.randrange(10 ** 9)) as nd:
        rec = Recorder(chk, nd, nd.fwd)
        late = None
        d = ks.Driver(nd)
        tr.reset()
        g = gen.Gen(rng, kinds, nkeys=2, tick=tick, **kw)
        for n in range(steps):
            c = g.next(nd.now)
            if isinstance(c, int):
                d.flush()
                if not rec.quiesce(tr, nd.now):
                    return tr
                d.set_now(nd.now + c)
                continue
            if rng.random() < .01:
                c = FLUSHALL(rng.choice([None, b"SYNC"]))
            d.do(c)
            if c.ev["op"] == "dump":
                d.flush()
                if c.rep["k"] == "blob" and len(g.payloads) < 30:
                    g.payloads.append(c.rep["v"].b)
            if n % 50 == 49:
                d.flush()
                rec.st.ping()
                if not rec.quiesce(tr, nd.now):
                    return tr
            if n % 400 == 399:
                rec.compare(tr, nd.now)
            if n == steps // 2:
                d.flush()
                rec.quiesce(tr, nd.now)
                late, at = repl.Stream(nd.fwd), rec.taken
        d.flush()
        rec.quiesce(tr, nd.now)
        rec.compare(tr, nd.now)
        if rec.st.none < 2:
            chk.violation("write stream: heartbeats are not answered", "")
        # a second subscriber sees the same stream from the moment it joined
        late.wait(lambda: late.msgs and late.msgs[-1]["id"] == rec.st.msgs[-1]["id"], 10)
        strip = lambda q: [{k: v for k, v in m.items() if k != "t"} for m in q]
        a, b = strip(rec.st.msgs[at:]), strip(late.msgs)
        if a != b:
            j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
            chk.violation("write stream: two subscribers were sent different streams", "position %d\n%r\n%r" % (j, a[j:j + 3], b[j:j + 3]))
        late.close()
        rec.close()
        alive(chk, nd, "write stream")
    return tr


def concurrent(chk, binary, i, rounds, clients=8, batch=60, settled=True):
    """many clients write the same few keys at once; after each round the replayed stream must be the leader's contents"""
    rng = random.Random("C18c/%d/%d" % (core.SEED, i))
    tr = ks.Trace()
    h = repl.ip(100 + i)
    with repl.server_node(binary, h, freeze=T0, workers=8, env={"VNODE_NOISE": str(rng.choice([0, 200, 1000]))} if i else None) as nd:
        rec = Recorder(chk, nd, nd.fwd)
        tr.reset()
        cls = [node.Client(nd.addr) for _ in range(clients)]
        for r in range(rounds):
            kinds = rng.choice([{"list": 1}, {"hash": 1}, {"set": 1}, {"zset": 1}, {"ctr": 1, "txt": 1}, {"txt": 2, "ttl": 3}, KINDS])
            seed = rng.random()
            gens = [gen.Gen(random.Random(seed), kinds, nkeys=1, cross=.3) for _ in cls]
            for j, g in enumerate(gens):
                g.rng = random.Random("%s/%d" % (seed, j))
            cmds = [[c for c in (g.next(nd.now) for _ in range(batch)) if not isinstance(c, int)] for g in gens]
            flush = rng.random() < .3

            def go(cl, q, j):
                if flush and j == 0:
                    q.insert(len(q) // 2, FLUSHALL(rng.choice([None, b"SYNC"])))
                cl.send(b"".join(c.bytes() for c in q))
                for _ in q:
                    cl.read()
            # commands that close a connection have no place here
            for q in cmds:
                q[:] = [c for c in q if safe(c)]
            core.parallel([lambda cl=cl, q=q, j=j: go(cl, q, j) for j, (cl, q) in enumerate(zip(cls, cmds))], clients)
            if not rec.quiesce(tr, nd.now):
                return tr
            rec.compare(tr, nd.now, "leader snapshot after a concurrent round")
        rec.close()
        alive(chk, nd, "concurrent writers")
    return tr


def slow_subscriber(chk, binary, i, mb):
    """one subscriber stops reading while megabytes of writes pile up for it, others come, go and die; commands are served all the while,
    and when the slow one reads again it gets every message, whole and in order"""
    rng = random.Random("C18w/%d/%d" % (core.SEED, i))
    tr = ks.Trace()
    with repl.server_node(binary, repl.ip(150 + i), freeze=T0, workers=4) as nd:
        rec = Recorder(chk, nd, nd.fwd)
        slow = repl.Stream(nd.fwd, rcvbuf=8192)
        d = ks.Driver(nd)
        d.reset()
        tr.reset()
        g = gen.Gen(rng, KINDS, nkeys=2)
        others, half = [], []
        slow.piece = 1 << 14
        slow.reading.clear()
        left = mb << 20
        t = time.time()
        while left > 0:
            for _ in range(20):
                c = g.next(nd.now)
                if not isinstance(c, int):
                    d.do(c)
            n = rng.choice([500, 9000, 60000, 150000])
            left -= n
            d.do(SET(b"big%d" % rng.randrange(20), b"%d:" % n + bytes([rng.randrange(97, 123)]) * n))
            if rng.random() < .1:
                slow.ping()
            if rng.random() < .15:
                o = socket.create_connection(nd.fwd)
                o.sendall(repl.SYNC_CMD)
                others.append(o)
            if others and rng.random() < .12:
                o = others.pop(rng.randrange(len(others)))
                q = rng.random()
                if q < .4:
                    o.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
                    o.close()
                elif q < .7 and o not in half:
                    o.shutdown(socket.SHUT_WR)
                    half.append(o)
                else:
                    o.close()
        d.flush()
        if time.time() - t > 60:
            chk.violation("write stream: commands took %.0f s while a subscriber was not reading" % (time.time() - t), "")
        if not rec.quiesce(tr, nd.now):
            return tr
        held = len(slow.msgs)
        slow.reading.set()
        last = rec.st.msgs[-1]["id"], rec.st.msgs[-1]["slot"]
        slow.wait(lambda: slow.msgs and (slow.msgs[-1]["id"], slow.msgs[-1]["slot"]) == last, 40)
        strip = lambda q: [{k: v for k, v in m.items() if k != "t"} for m in q]
        a, b = strip(rec.st.msgs), strip(slow.msgs)
        if slow.error or a != b:
            j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
            chk.violation("write stream: a subscriber that stopped reading for a while was sent %s" % (slow.error or "another stream than the one that kept reading"),
                          "position %d of %d\n%r\n%r" % (j, len(a), a[j:j + 3], b[j:j + 3]))
        chk.add("messages_held_back", len(b) - held)
        tr.ev = [ks.RESET] + [repl.msg_cmd(m, nd.now) for m in slow.msgs]
        rec.compare(tr, nd.now)
        for o in others + half:
            o.close()
        slow.close()
        rec.close()
        alive(chk, nd, "slow subscriber")
    return tr


def c18(chk, b):
    for n in (1, 2, 3)[:N(2, 3)]:
        chk.design(core.tlc_must("Stream", cfg="Stream%d" % n, workers=4))
    core.tlc_refutes(chk, "Stream", ("Stream4", "Stream5", "Stream6"), workers=4)
    quick = [lambda i=i: sequential(chk, b, i, N(1600, 20000), KINDS, .02) for i in range(3)] + \
            [lambda: sequential(chk, b, 7, N(1200, 20000), {"txt": 4, "ttl": 6, "dump": 2, "list": 1}, .05, ttlheavy=True)] + \
            [lambda i=i: concurrent(chk, b, i, N(8, 120)) for i in range(2)] + [lambda: slow_subscriber(chk, b, 0, N(24, 200))]
    trs = core.parallel(quick, 4)
    core.log("driven: %d events" % sum(len(t.ev) for t in trs))
    for t, what in zip(trs, ["stream"] * 4 + ["concurrent stream"] * 2 + ["stream to a slow subscriber"]):
        note(chk, what, t)
        ks.check_trace(chk, t, what, jobs=8)


# ------------------------------------------------------------------------------------------------------------------ C19
class Clock:
    """a strictly increasing stamp shared by all threads: the order in which the drivers saw things happen"""

    def __init__(self):
        self.n, self.l = 0, threading.Lock()

    def __call__(self):
        with self.l:
            self.n += 1
            return self.n


BIG = 3000


def big_keys(n):
    """large read-only collections in slots of their own, and the commands that read them whole (holding their slot's lock for long)"""
    out = []
    for j in range(n):
        k, m = b"B%d" % j, [b"%d-%d" % (j, x) for x in range(BIG)]
        if j % 3 == 0:
            out.append((k, [b"RPUSH", k] + m, [b"LRANGE", k, b"0", b"-1"], lambda v, m=m: list(v) == m))
        elif j % 3 == 1:
            out.append((k, [b"HSET", k] + [y for x in m for y in (x, b"v")], [b"HGETALL", k], lambda v, m=m: v == {x: b"v" for x in m}))
        else:
            out.append((k, [b"SADD", k] + m, [b"SMEMBERS", k], lambda v, m=m: sorted(v) == sorted(m)))
    return out


def snapshots_under_load(chk, binary, i, rounds, writers=6, keys=40, ballast=0, readers=0, env=None):
    """writers, each with one request outstanding, go round keys of different slots while snapshots of all slots are taken; every
    snapshot must be an image of one instant, and every slot of it must be the replay of that slot's messages up to its id.  Readers
    hold the locks of some slots most of the time."""
    rng = random.Random("C19/%d/%d" % (core.SEED, i))
    h = repl.ip(200 + i)
    clk = Clock()
    tr = ks.Trace()
    snaps = []
    big = big_keys(readers)
    with repl.server_node(binary, h, freeze=T0, workers=8, env=env) as nd:
        cl = node.Client(nd.addr)
        for k, put, _, _ in big:
            cl.cmd(*put)
        st = repl.Stream(nd.fwd)
        tr.reset()
        for j in range(ballast):
            cl.cmd(b"SET", b"ballast%d" % j, b"%d" % j)
        stop = threading.Event()
        ops = [[] for _ in range(writers)]          # (key, seq, inv, res)

        def writer(w):
            c = node.Client(nd.addr)
            seq = 0
            r = random.Random("%d/%d" % (w, i))
            while not stop.is_set() and seq < 100000:
                seq += 1
                k = b"w%d-%d" % (w, seq % keys)
                t = clk()
                c.cmd(b"SET", k, b"%d" % seq)
                ops[w].append((k, seq, t, clk()))
                if r.random() < .2:
                    time.sleep(r.random() * .004)
            c.close()

        def reader(get):
            # replies are thrown away unparsed: a few requests are always waiting, so that the slot is hardly ever left alone
            s = socket.create_connection(nd.addr)
            s.settimeout(20)
            one = b"*%d\r\n" % len(get) + b"".join(b"$%d\r\n%s\r\n" % (len(x), x) for x in get)
            s.sendall(one)
            size, buf = 0, b""
            while resp.parse(bytearray(buf), 0) is None:
                buf += s.recv(1 << 20)
            size = len(buf)
            s.sendall(one * 4)
            got = 0
            while not stop.is_set():
                got += len(s.recv(1 << 20))
                if got >= size:
                    s.sendall(one * (got // size))
                    got %= size
            s.close()
        ths = [threading.Thread(target=writer, args=(w,), daemon=True) for w in range(writers)]
        ths += [threading.Thread(target=reader, args=(b[2],), daemon=True) for b in big]
        for t in ths:
            t.start()
        try:
            for _ in range(rounds):
                time.sleep(rng.random() * .05)
                q = clk()
                try:
                    s = repl.snapshot(nd.addr, timeout=30)
                except repl.Incomplete as e:
                    chk.violation("snapshot under load: %s" % e, str(e))
                    break
                snaps.append((q, clk(), s))
        finally:
            stop.set()
            for t in ths:
                t.join(30)
        if any(t.is_alive() for t in ths):
            chk.violation("snapshot under load: a writer never got its reply", "")
            return
        cl.cmd(b"SET", b"__end", b"1")
        st.wait_key(b"__end")
        alive(chk, nd, "snapshot under load")
        st.close()
    lines = []
    for q, e, s in snaps:
        for k, _, _, ok in big:
            x = s[slot_of(k)][1].pop(k, None)
            if x is None or not ok(x[1]):
                chk.violation("snapshot under load lacks or corrupts %r, which nobody writes" % k, repr(x)[:300])
        val = {k: int(x[1]) for wid, d in s.values() for k, x in d.items() if k.startswith(b"w")}
        missing = [j for j in range(ballast) if b"ballast%d" % j not in s[slot_of(b"ballast%d" % j)][1]]
        if len(s) != repl.SLOTS or missing:
            chk.violation("snapshot of all slots lacks %d slots and %d keys" % (repl.SLOTS - len(s), len(missing)), repr(missing[:20]))
        # writes answered long before the request or sent long after the end constrain nothing unless shown wrongly: keep the near ones
        ws = []
        for o in ops:
            for k, seq, a, b in o:
                inc = val.get(k, 0) >= seq
                if inc != (b < q) or (a < e and b > q):
                    if not (inc and b < q) and not (not inc and a > e):
                        ws.append({"i": a, "r": b, "inc": inc})
        lines.append(core.json.dumps({"req": q, "end": e, "w": ws}))
    chk.add("snapshots_under_load", len(snaps))
    chk.add("writes_around_snapshots", sum(l.count('"inc"') for l in lines))
    if lines:
        p = core.os.path.join(core.workdir(), "snap.%d.ndjson" % i)
        open(p, "w").write("\n".join(lines) + "\n")
        r = core.tlc("SnapTrace", env={"TRACE": p})
        if not r.ok:
            mm = r.prints("MISMATCH")
            if not mm:
                raise core.ToolError("SnapTrace failed: " + r.out[-1500:])
            chk.violation("snapshot under load is not the image of one instant: shows a write sent at %d but not one answered at %d" % (mm[0]["lower"], mm[0]["upper"]),
                          lines[mm[0]["i"] - 1])
        else:
            chk.traces += len(lines)
            chk.events += sum(l.count('"inc"') for l in lines)
    # contents and sequence numbers: the slot's messages up to its id, replayed (the one write of a big key came before the subscriber)
    by = {}
    first = {slot_of(k): 1 for k, _, _, _ in big}
    assert len(first) == len(big)
    snaps = [(q, e, {sl: (wid - first.get(sl, 0), d) for sl, (wid, d) in s.items()}) for q, e, s in snaps]
    for m in st.msgs:
        m["id"] -= first.get(m["slot"], 0)
        by.setdefault(m["slot"], []).append(m)
    pos = {s: 0 for s in by}
    for q, e, s in snaps:
        for sl, (wid, d) in s.items():
            while sl in by and pos[sl] < len(by[sl]) and by[sl][pos[sl]]["id"] <= wid:
                tr.ev.append(repl.msg_cmd(by[sl][pos[sl]], T0))
                pos[sl] += 1
        tr.ev.append(repl.contents_cmd(s, T0, what="snapshot under load"))
    ks.check_trace(chk, tr, "snapshot contents", jobs=8)


def slot_of(key):
    """CRC16 slot, used only to find the slot to ask for (the slot function itself is decided by spec/Slots.tla in C17)"""
    b = key.find(b"{")
    if b >= 0:
        e = key.find(b"}", b)
        if e > b + 1:
            key = key[b + 1:e]
    crc = 0
    for c in key:
        crc ^= c << 8
        for _ in range(8):
            crc = ((crc << 1) ^ 0x1021) & 0xffff if crc & 0x8000 else crc << 1
    return crc & 16383


def slow_reader(chk, binary, mb, i):
    """a replica that reads slowly still gets the whole stream, and other clients are served meanwhile"""
    rng = random.Random("C19s/%d/%d" % (core.SEED, i))
    h = repl.ip(300 + i)
    with repl.server_node(binary, h, freeze=T0) as nd:
        d = ks.Driver(nd)
        d.reset()
        big = {}
        for j in range(mb):
            k = b"big%d" % j
            v = bytes([rng.randrange(256)]) * (1 << 20)
            big[k] = v
            node_set(d, k, v)
        for j in range(60):
            d.do(PUSH(b"l%d" % (j % 7), [b"%d" % j]))
        d.flush()
        c = node.Client(nd.addr, timeout=60)
        c.send(b"*2\r\n$12\r\nsyncsnapshot\r\n:16384\r\n")
        time.sleep(.3)
        # the stream is stalled now; later commands neither wait for it nor show up in it
        t = time.time()
        for j in range(20):
            d.do(SET(b"late%d" % j, b"x"))
            d.do(DEL(b"big0"))
            d.do(PUSH(b"l%d" % (j % 7), [b"late"]))
        d.flush()
        if time.time() - t > 8:
            chk.violation("commands waited %.1f s for a snapshot that is being sent" % (time.time() - t), "")
        try:
            s = repl.read_snapshot(c.s)
        except repl.Incomplete as e:
            chk.violation("snapshot to a slow replica: %s" % e, str(e))
            return
        c.close()
        keys = {k: x for wid, dd in s.values() for k, x in dd.items()}
        for k, v in big.items():
            if k not in keys or keys[k][1] != v:
                chk.violation("snapshot to a slow replica lacks or corrupts %r" % k, "")
                break
        ev = [x for x in d.tr.ev if x is ks.RESET or not (x.now and b"late" in x.bytes()[:200] or x.ev["op"] == "del")]
        tr = ks.Trace()
        tr.ev = ev
        small = {sl: (wid, {k: x for k, x in dd.items() if not k.startswith(b"big")}) for sl, (wid, dd) in s.items()}
        tr.ev = [x for x in tr.ev if x is ks.RESET or not x.bytes().startswith(b"*3\r\n$3\r\nSET\r\n$4\r\nbig")]
        tr.ev.append(repl.contents_cmd(small, T0, ids=False, what="snapshot to a slow replica"))
        ks.check_trace(chk, tr, "slow snapshot")
        alive(chk, nd, "slow snapshot")
        chk.add("slow_snapshot_mb", mb)


def node_set(d, k, v):
    d.flush()
    if d.conn().cmd(b"SET", k, v) != b"OK":
        raise node.Dead("SET of %d bytes was refused" % len(v))


def single_slots(chk, binary):
    """snapshots of one slot: that slot only, exactly its contents, and the connection ends with the stream"""
    rng = random.Random("C19o/%d" % core.SEED)
    h = repl.ip(400)
    tr = ks.Trace()
    with repl.server_node(binary, h, freeze=T0) as nd:
        st = repl.Stream(nd.fwd)
        d = ks.Driver(nd)
        tags = [b"{%d}" % j for j in range(6)]
        for rnd in range(N(12, 100)):
            g = gen.Gen(rng, KINDS, nkeys=2)
            for _ in range(60):
                c = g.next(nd.now)
                if not isinstance(c, int):
                    d.do(c)
            d.flush()
            k = b"__mark%d" % rnd
            d.run(SET(k, b"1"))
            st.wait_key(k)
            slots = {slot_of(x) for q in g.keys.values() for x in q} | {slot_of(k), rng.randrange(repl.SLOTS), 0, repl.SLOTS - 1}
            by = {}
            for m in st.msgs:
                by.setdefault(m["slot"], []).append(m)
            for sl in sorted(slots):
                try:
                    s = repl.snapshot(nd.addr, sl)
                except repl.Incomplete as e:
                    chk.violation("snapshot of slot %d: %s" % (sl, e), str(e))
                    return
                if set(s) != {sl}:
                    chk.violation("snapshot of slot %d holds the slots %r" % (sl, sorted(s)[:5]), "")
                tr.reset()
                tr.ev += [repl.msg_cmd(m, nd.now) for m in by.get(sl, [])]
                c = repl.contents_cmd(s, nd.now, what="snapshot of slot %d" % sl)
                if not c.ev["ids"]:
                    c.ev["ids"] = [[sl, 0]]
                tr.ev.append(c)
        d.drop()
        alive(chk, nd, "slot snapshots")
    ks.check_trace(chk, tr, "slot snapshots", jobs=4)


def timed(name, f):
    def g():
        t = time.time()
        r = f()
        core.log("%s: %.1f s" % (name, time.time() - t))
        return r
    return g


def c19(chk, b):
    for n in (1, 2, 3)[:N(2, 3)]:
        chk.design(core.tlc_must("Snapshot", cfg="Snapshot%d" % n, workers=4))
    core.tlc_refutes(chk, "Snapshot", ("Snapshot4", "Snapshot5"), workers=4)
    core.parallel([timed("load 0", lambda: snapshots_under_load(chk, b, 0, N(8, 100), ballast=300)),
                   timed("load 1", lambda: snapshots_under_load(chk, b, 1, N(8, 100), writers=3, keys=7, env={"VNODE_NOISE": "300"})),
                   timed("load 2", lambda: snapshots_under_load(chk, b, 2, N(12, 150), writers=2, keys=9, readers=9)),
                   timed("slow", lambda: slow_reader(chk, b, N(24, 150), 0)), timed("single", lambda: single_slots(chk, b))], 4)
