"""C21: real leaders and followers, with the real placement driver or a scripted one and disturbed connections in between.
When the writes have stopped every follower must come to hold what the leader holds; spec/ReplTrace.tla compares slot by slot."""
import json, os, random, socket, threading, time
from .. import bincode, core, gen, ks, node, repl, resp
from ..ks import *
from ..tour import T0
from . import follow
from .follow import ev, contents_list
from .keyspace import N, alive

KINDS = {"ctr": 3, "txt": 4, "list": 4, "hash": 4, "set": 3, "zset": 4, "zlex": 2, "ttl": 4}


class Proxy:
    """passes connections on to another address; can break and stall them"""

    def __init__(self, here, there):
        self.there = there
        self.go = threading.Event()
        self.go.set()
        self.limit = None          # break after so many bytes, once
        self.socks = []
        self.srv = repl.Server(here, self._conn)
        self.addr = self.srv.addr

    def _conn(self, c):
        try:
            o = socket.create_connection(self.there, timeout=5)
        except OSError:
            return
        o.settimeout(None)
        self.socks += [c, o]

        def back():
            try:
                while True:
                    d = c.recv(65536)
                    if not d:
                        break
                    o.sendall(d)
            except OSError:
                pass
            self.end(o)
        threading.Thread(target=back, daemon=True).start()
        try:
            while True:
                d = o.recv(65536)
                if not d:
                    break
                self.go.wait(30)
                if self.limit is not None:
                    self.limit -= len(d)
                    if self.limit <= 0:
                        self.limit = None
                        c.sendall(d[:len(d) // 2])
                        break
                c.sendall(d)
        except OSError:
            pass
        self.end(o)
        self.end(c)

    def end(self, s):
        try:
            s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass

    def cut(self):
        q, self.socks = self.socks, []
        for s in q:
            self.end(s)

    def close(self):
        self.go.set()
        self.srv.close()
        self.cut()


def view(snap):
    return {s: (w, {k: x[:3] for k, x in d.items()}) for s, (w, d) in snap.items()}


class Writers:
    """clients which write at once until told to stop"""

    def __init__(self, addr, rng, n, keys, big=False, flush=.002, deadlines=True):
        self.stop, self.count, self.errors = threading.Event(), 0, []
        self.th = []
        seed = rng.random()
        for j in range(n):
            kinds = KINDS if deadlines else {k: v for k, v in KINDS.items() if k != "ttl"}
            g = gen.Gen(random.Random(seed), kinds, nkeys=keys, cross=.05, big=big)
            g.rng = random.Random("%s/%d" % (seed, j))
            t = threading.Thread(target=self._run, args=(addr, g, flush), daemon=True)
            self.th.append(t)
            t.start()

    def _run(self, addr, g, flush):
        try:
            cl = node.Client(addr)
            while not self.stop.is_set():
                q = []
                while len(q) < 40:
                    c = g.next(T0)
                    if isinstance(c, int) or not safe(c) or c.ev["op"] not in follow.WRITES:
                        continue
                    q.append(c if g.rng.random() > flush else FLUSHALL(g.rng.choice([None, b"SYNC"])))
                cl.send(b"".join(c.bytes() for c in q))
                for c in q:
                    cl.read()
                self.count += len(q)
                time.sleep(g.rng.choice([0, 0, .001, .01]))
            cl.close()
        except (OSError, resp.Closed, resp.Bad) as e:
            self.errors.append(repr(e))

    def end(self):
        self.stop.set()
        for t in self.th:
            t.join(30)


def started(binary, host, **kw):
    """a server that has registered with its driver: it serves nobody before"""
    n = repl.server_node(binary, host, **kw)
    c = node.Client(n.addr)
    c.cmd(b"PING")
    c.close()
    return n


def fill(addr, rng, n):
    """n keys of every type, and some large ones"""
    cl = node.Client(addr)
    q = []
    for j in range(n):
        k = b"f%d" % j
        x = j % 6
        q.append([SET(k, b"v%d" % j), SETEX(k, 1000 + j, b"x"), PUSH(k, [b"a", b"%d" % j]), HSET(k, [(b"f", b"%d" % j)]), SADD(k, [b"m", b"%d" % j]), ZADD(k, [(float(j), b"m")])][x])
        if j % 7 == 0:
            q.append(EXPIRE(k, 500 + j % 300))
    big = n // 3
    q += [PUSH(b"biglist", [b"e%d" % j for j in range(a, a + 500)], left=False) for a in range(0, big, 500)]
    q += [HSET(b"bighash", [(b"f%d" % j, b"v%d" % j) for j in range(a, a + 500)]) for a in range(0, big, 500)]
    q += [SADD(b"bigset", [b"m%d" % j for j in range(a, a + 500)]) for a in range(0, big, 500)]
    q += [ZADD(b"bigzset", [(float(j % 97), b"m%d" % j) for j in range(a, a + 500)]) for a in range(0, big, 500)]
    q.append(SET(b"bigstr", b"x" * (1 << 20)))
    for a in range(0, len(q), 200):
        b = b"".join(c.bytes() for c in q[a:a + 200])
        th = threading.Thread(target=cl.send, args=(b,), daemon=True)
        th.start()
        for c in q[a:a + 200]:
            cl.read()
        th.join()
    cl.close()


class Cmp:
    """what the leader and a follower held in the end"""

    def __init__(self, what, lead, foll, now):
        self.what, self.lead, self.foll, self.now = what, lead, foll, now

    def lines(self):
        out = []
        for s in sorted(self.lead):
            (w, d), (v, e) = self.lead[s], self.foll.get(s, (None, {}))
            if not d and not e and w == v:
                continue
            c = repl.contents_cmd({s: (v, e)}, self.now, ids=False, what="follower's slot %d" % s)
            c.ev["sid"], c.ev["n"] = v, 1
            q = ks.Trace().encode([ev({"op": "conn"}), c, ev({"op": "snap", "id": w, "all": True, "v": contents_list(d)})])
            out.append((s, '{"m":[%s,%s],"s":[%s]}' % tuple(q)))
        return out


def converged(chk, leader, followers, what, timeout=40, stage=""):
    """waits until the followers hold what the leader holds; whatever they hold in the end is judged"""
    out = []
    t = time.time()
    rest = dict(followers)
    while True:
        try:
            lead = repl.snapshot(leader.addr)
            lv = view(lead)
            for n, f in list(rest.items()):
                snap = repl.snapshot(f.addr)
                if view(snap) == lv or time.time() - t > timeout:
                    out.append(Cmp("%s: %s" % (what, n), lead, snap, leader.now))
                    del rest[n]
        except (repl.Incomplete, OSError) as e:
            if time.time() - t > timeout:
                chk.violation("%s: %s" % (what, e), str(e))
                break
        if not rest:
            break
        time.sleep(.15)
    chk.add("followers_compared", len(out))
    return out


def group(chk, binary, i, failover):
    """a group under the real placement driver: followers join before, during and after the writes"""
    rng = random.Random("C21/%d/%d" % (core.SEED, i))
    out, nodes = [], []
    what = "group"
    r = lambda: repl.ip(rng.randrange(10 ** 6))
    pd = node.Node(binary, "pd", bind=r() + ":7000")
    nodes.append(pd)
    try:
        c = node.Client(pd.addr)
        gid = 1
        c.cmd(b"pd_crate_group")
        mk = lambda noise=0: nodes.append(started(binary, r(), pd=pd.addr, group=gid, freeze=T0, workers=4, env={"VNODE_NOISE": noise} if noise else None)) or nodes[-1]
        lead = mk(rng.choice([0, 5]))
        if i % 2 == 0:
            fill(lead.addr, rng, N(3000, 30000))
        f = {"joined before the writes": mk()}
        time.sleep(rng.choice([0, .3, 1.2]))
        w = Writers(lead.addr, rng, 4, keys=6, flush=.002 if i % 2 else .0)
        time.sleep(.5)
        f["joined during the writes"] = mk(rng.choice([0, 5]))
        time.sleep(rng.choice([.2, .8]))
        # processes stop for a while
        for n in rng.sample(nodes[1:], 2):
            n.pause()
            time.sleep(rng.choice([.1, .5, .9]))
            n.cont()
        time.sleep(N(1, 5))
        w.end()
        chk.add("writes", w.count)
        if w.errors:
            chk.violation("group: a writer lost its connection: %s" % w.errors[0], "")
        f["joined after the writes"] = mk()
        out += converged(chk, lead, f, what)
        # more writes, now to all of them
        w = Writers(lead.addr, rng, 3, keys=3)
        time.sleep(N(.7, 4))
        w.end()
        chk.add("writes", w.count)
        out += converged(chk, lead, f, what)
        # time passes; deadlines pass everywhere alike
        for n in nodes[1:]:
            n.set_now(T0 + 600000)
        out += converged(chk, lead, f, what)
        for n in nodes[1:]:
            n.set_now(T0 + 600001)
        if failover:
            ghost = ghost_of(pd, gid)
            lead.kill()
            t = time.time()
            new = None
            while time.time() - t < 20 and not new:
                time.sleep(.3)
                addr = told_leader(pd, gid, ghost)
                new = next((n for n in f.values() if n.addr == addr), None)
            if new:
                nodes.append(started(binary, r(), pd=pd.addr, group=gid, freeze=T0 + 600001, workers=2))
                probe = nodes[-1]
            if not new:
                chk.violation("group: no follower took over within 20 s after the leader died", "")
            else:
                g = {n: x for n, x in f.items() if x is not new}
                g["joined after the leader died"] = probe
                time.sleep(1.2)          # the others hear of it with their next heartbeat
                w = Writers(new.addr, rng, 3, keys=4)
                time.sleep(N(1, 5))
                w.end()
                chk.add("writes", w.count)
                chk.add("failovers")
                out += converged(chk, new, g, "group after the leader died")
        for n in nodes[1:]:
            alive(chk, n, "group") if n is not lead or not failover else None
        c.close()
    finally:
        for n in nodes:
            n.kill()
    return out


def ghost_of(pd, gid):
    """registers a server that does not exist: the driver tells it what it tells everyone"""
    c = node.Client(pd.addr)
    try:
        return bincode.decode(bytes(c.cmd(b"pd_sever_init", bincode.init({"group": gid, "server": ("127.0.0.9", 1), "forward": ("127.0.0.9", 2)}))), "status")["id"]
    finally:
        c.close()


def told_leader(pd, gid, ghost):
    """whom the driver calls leader, as it tells a heartbeat that reports something else"""
    c = node.Client(pd.addr)
    try:
        v = c.cmd(b"pd_sever_heartbeat", bincode.status({"id": ghost, "group": gid, "role": "leader", "leader": None}))
        s = bincode.decode(bytes(v), "opt_status")
        return tuple(s["leader"]["server"]) if s and s["leader"] else None
    finally:
        c.close()


def disturbed(chk, binary, i, secs):
    """followers reach their leader through connections that break and stall"""
    rng = random.Random("C21d/%d/%d" % (core.SEED, i))
    r = lambda: repl.ip(rng.randrange(10 ** 6))
    out, nodes, prox, pds = [], [], [], []
    try:
        lead = repl.server_node(binary, r(), freeze=T0, workers=6, env={"VNODE_NOISE": rng.choice([4, 10])})
        nodes.append(lead)
        fill(lead.addr, rng, N(600, 10000))
        w = Writers(lead.addr, rng, 5, keys=5, flush=.001)
        f = {}
        for n in range(2):
            h = r()
            a, b = Proxy((h, 6379), lead.addr), Proxy((h, 7379), lead.fwd)
            prox.append((a, b))
            if rng.random() < .5:
                a.limit = rng.choice([100, 50000, 200000])       # the first snapshot is cut off
            pd = repl.FakePD(r())
            pds.append(pd)
            info = {"id": 1, "server": a.addr, "forward": b.addr}
            pd.on_init = lambda q, info=info: {"id": 2, "group": q["group"], "role": "follower", "leader": info}
            f["follower %d" % n] = x = repl.server_node(binary, r(), pd=pd.addr, freeze=T0, workers=3, env={"VNODE_NOISE": rng.choice([0, 6])})
            nodes.append(x)
            time.sleep(rng.choice([0, .4]))
        end = time.time() + secs
        while time.time() < end:
            a, b = rng.choice(prox)
            x = rng.randrange(6)
            if x == 0:
                b.cut()
            elif x == 1:
                a.cut()
            elif x == 2:
                a.cut()
                b.cut()
            elif x == 3:
                p = rng.choice([a, b])
                p.go.clear()
                time.sleep(rng.choice([.05, .3]))
                p.go.set()
            elif x == 4:
                b.limit = rng.choice([1, 1000, 30000])
            else:
                a.limit = rng.choice([1, 90, 1000, 150000])
            chk.add("disturbances")
            time.sleep(rng.choice([0, .05, .4, 1.3]))
        w.end()
        for a, b in prox:
            a.limit = b.limit = None
        chk.add("writes", w.count)
        out += converged(chk, lead, f, "disturbed connections", timeout=60)
        # and it stays so
        w = Writers(lead.addr, rng, 4, keys=3)
        time.sleep(.7)
        w.end()
        out += converged(chk, lead, f, "disturbed connections")
        for n in nodes:
            alive(chk, n, "disturbed connections")
    finally:
        for n in nodes:
            n.kill()
        for a, b in prox:
            a.close()
            b.close()
        for p in pds:
            p.close()
    return out


def backlog(chk, binary, i, mb, tags=300):
    """a follower stands still while megabytes of writes are made to slots that nobody writes again, then goes on"""
    rng = random.Random("C21b/%d/%d" % (core.SEED, i))
    r = lambda: repl.ip(rng.randrange(10 ** 6))
    out, nodes = [], []
    pd = repl.FakePD(r())
    try:
        lead = repl.server_node(binary, r(), freeze=T0, workers=4)
        nodes.append(lead)
        info = {"id": 1, "server": lead.addr, "forward": lead.fwd}
        pd.on_init = lambda q: {"id": 2, "group": q["group"], "role": "follower", "leader": info}
        f = repl.server_node(binary, r(), pd=pd.addr, freeze=T0, workers=2)
        nodes.append(f)
        cl = node.Client(lead.addr)
        for t in range(tags):
            cl.cmd(b"RPUSH", b"{%d}list" % t, b"first")
        out += converged(chk, lead, {"follower before it stands still": f}, "backlog")
        f.pause()
        n = (mb << 20) // 1000
        def pump(a):
            c = node.Client(lead.addr)
            for j in range(a, n, 3 * 50):
                t = j * tags // n
                q = [SET(b"{%d}k%d" % (t, x), b"%d" % (x % 7) * 1000) if x % 25 else PUSH(b"{%d}list" % t, [b"%d" % x]) for x in range(j, j + 50)]
                c.send(b"".join(x.bytes() for x in q))
                for x in q:
                    c.read()
            c.close()
        core.parallel([lambda a=a: pump(a * 50) for a in range(3)], 3)
        chk.add("writes", n)
        f.cont()
        out += converged(chk, lead, {"follower that stood still": f}, "backlog")
        for x in nodes:
            alive(chk, x, "backlog")
        cl.close()
    finally:
        for x in nodes:
            x.kill()
        pd.close()
    return out


def late(chk, binary):
    """a follower that applies a write only after a deadline has passed which the write still saw on the leader"""
    rng = random.Random("C21l/%d" % core.SEED)
    r = lambda: repl.ip(rng.randrange(10 ** 6))
    out, nodes = [], []
    pd = node.Node(binary, "pd", bind=r() + ":7000")
    nodes.append(pd)
    try:
        c = node.Client(pd.addr)
        gid = 1
        c.cmd(b"pd_crate_group")
        lead = started(binary, r(), pd=pd.addr, group=gid)
        nodes.append(lead)
        f = started(binary, r(), pd=pd.addr, group=gid)
        nodes.append(f)
        cl = node.Client(lead.addr)
        for k in range(40):
            cl.cmd(b"SET", b"lagging%d" % k, b"1")
        lead.now = f.now = int(time.time() * 1000)
        out += converged(chk, lead, {"follower before it lags": f}, "late")
        # the follower stops (for less than the driver takes for death)
        f.pause()
        for k in range(40):
            cl.cmd(b"SET", b"lagging%d" % k, b"5", b"PX", b"400")
            cl.cmd(b"INCR", b"lagging%d" % k)
        time.sleep(.9)
        f.cont()
        time.sleep(.5)
        lead.now = f.now = int(time.time() * 1000)
        q = converged(chk, lead, {"follower": f}, "late", timeout=6)
        for x in q:
            # the keys lagging* are gone at the leader; the follower made them anew out of the INCR alone, for good
            if all(not d and x.foll[s][0] == w and all(k.startswith(b"lagging") and (v[1], v[2]) == (b"1", 0) for k, v in x.foll[s][1].items())
                   for s, (w, d) in x.lead.items() if (w, d) != x.foll.get(s)):
                x.what = "late: follower that applied SET PX and INCR after the deadline"
        out += q
        cl.close()
        c.close()
    finally:
        for n in nodes:
            n.kill()
    return out


def judge(chk, cmps, jobs=8):
    todo = [(f, s, l) for f in cmps for s, l in f.lines()]
    groups = [todo[a::jobs] for a in range(jobs) if todo[a::jobs]]
    bad = []

    def one(g, n):
        p = os.path.join(core.workdir(), "conv.%d.ndjson" % n)
        with open(p, "w") as f:
            f.write("\n".join(l for _, _, l in g) + "\n")
        r = core.tlc("ReplTrace", env={"TRACE": p}, xmx="3g", timeout=800)
        os.unlink(p)
        return g, r
    for g, r in core.parallel([lambda g=g, n=n: one(g, n) for n, g in enumerate(groups)], jobs):
        if not r.ok:
            raise core.ToolError("ReplTrace failed: " + r.out[-2500:])
        done = {d["h"] for d in r.prints("DONE")}
        chk.traces += len(done)
        chk.events += len(g)
        bad += [(f, s) for j, (f, s, _) in enumerate(g) if j + 1 not in done]
    chk.add("slots_compared", len(todo))
    for f in cmps:
        q = sorted(s for x, s in bad if x is f)
        if not q:
            continue
        show = lambda w, d: "write %s %s" % (w, {k: (x[0], x[1] if len(repr(x[1])) < 200 else "(large)", x[2]) for k, x in sorted(d.items())})
        s = q[0]
        line = "%s does not hold what its leader holds: %d slots differ, slot %d: leader %s, follower %s" % (f.what, len(q), s, show(*f.lead[s])[:600], show(*f.foll.get(s, (None, {})))[:600])
        chk.violation(line, "\n".join([line, ""] + ["slot %d\n  leader   %s\n  follower %s" % (s, show(*f.lead[s]), show(*f.foll.get(s, (None, {})))) for s in q[:20]]))


def c21(chk, b):
    chk.design(core.tlc_must("Repl", cfg="Repl3" if core.thorough() else "Repl1", workers=4, xmx="6g", timeout=3000))
    jobs = [lambda i=i: group(chk, b, i, failover=i % 2 == 1) for i in range(N(2, 12))] + [lambda i=i: disturbed(chk, b, i, N(8, 60)) for i in range(N(2, 8))]
    jobs += [lambda: late(chk, b)] + [lambda i=i: backlog(chk, b, i, N(24, 120)) for i in range(N(1, 3))]
    cmps = [c for q in core.parallel(jobs, 3) for c in q]
    core.log("driven")
    judge(chk, cmps)
