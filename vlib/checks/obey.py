"""C24: a real server with a scripted placement driver and scripted leaders (spec/Obey.tla, MCObey.tla, ObeyTrace.tla)."""
import collections, json, os, random, threading, time
from .. import bincode, core, ks, node, repl, resp
from ..ks import *
from ..tour import T0
from .keyspace import N, alive

SLOTS = repl.SLOTS
EMPTY = bincode.memdict(0, {})


def astr(a):
    return "%s:%d" % tuple(a)


def lstr(l):
    return {"id": str(l["id"]), "server": astr(l["server"]), "forward": astr(l["forward"])}


def sstr(s):
    return {"id": str(s["id"]), "group": str(s["group"]), "lead": s["role"] == "leader", "leader": [lstr(s["leader"])] if s["leader"] else []}


class Lead:
    """a leader: serves its snapshot, streams its writes to whoever asks"""

    def __init__(self, lid, server, forward, rng):
        self.rng = rng
        self.slots = {}                   # slot -> [id, {key: value}]
        self.live, self.regs, self.synced, self.hold = [], 0, 0, None
        self.cv = threading.Condition()
        self.a = repl.Server(server, self._server)
        self.b = repl.Server(forward, self._forward)
        self.info = {"id": lid, "server": self.a.addr, "forward": self.b.addr}
        self.name = astr(self.b.addr)

    def _server(self, c):
        f = repl.Frames(c)
        v = f.read()
        if bytes(v[0]).lower() != b"syncsnapshot":
            return
        which = range(SLOTS) if int(v[1]) == SLOTS else [int(v[1])]
        hold, full = self.hold, len(which) > 1
        with self.cv:
            mine = self.regs
            dicts = {s: bincode.memdict(x[0], {k: ("str", y, 0, 0) for k, y in x[1].items()}) for s, x in self.slots.items()}
        out = bytearray()
        for s in which:
            out += b"\x01" + bincode.u16(s) + dicts.get(s, EMPTY)
            if hold and s == 2000:
                c.sendall(out)
                out = bytearray()
                hold.wait(20)
        c.sendall(bytes(out) + b"\x00")
        with self.cv:
            # the full snapshot that goes with the last registration
            if full:
                self.synced = max(self.synced, mine)

    def _forward(self, c):
        buf = b""
        while len(buf) < len(repl.SYNC_CMD):
            d = c.recv(65536)
            if not d:
                return
            buf += d
        with self.cv:
            self.live.append(c)
            self.regs += 1
        none = bincode.message({"id": 0, "slot": 0, "cmd": "None"})
        try:
            c.sendall(none)
            while c.recv(65536):
                with self.cv:
                    c.sendall(none)
        finally:
            with self.cv:
                self.live.remove(c)

    def say(self, key, value):
        """a write of this leader: SET, or DEL when value is None"""
        from .repl import slot_of
        s = slot_of(key)
        with self.cv:
            x = self.slots.setdefault(s, [0, {}])
            x[0] += 1
            m = {"id": x[0], "slot": s, "key": key}
            if value is None:
                x[1].pop(key, None)
                m.update(cmd="Del")
            else:
                x[1][key] = value
                m.update(cmd="Set", value=("str", value), at=0, nx="")
            b = bincode.message(m)
            for c in self.live:
                try:
                    c.sendall(b)
                except OSError:
                    pass

    def close(self):
        if self.hold:
            self.hold.set()
        self.a.close()
        self.b.close()


class Driver(repl.FakePD):
    """answers what the script says; None: agrees"""

    def __init__(self, host, first):
        self.script, self.told, self.first, self.clock = collections.deque(), None, first, 0
        super().__init__(host)

    def _conn(self, c):
        f = repl.Frames(c)
        while True:
            v = f.read()
            name, body = bytes(v[0]).lower(), bytes(v[1])
            with self.lock:
                while self.mute:
                    self.lock.wait(.05)
                if name == b"pd_sever_init":
                    q = bincode.decode(body, "init")
                    self.told = self.first(q)
                    self.log.append({"op": "init", "group": str(q["group"]), "server": astr(q["server"]), "forward": astr(q["forward"]), "ans": sstr(self.told)})
                    b = bincode.status(self.told)
                elif name == b"pd_sever_heartbeat":
                    q = bincode.decode(body, "status")
                    a = self.script.popleft() if self.script else None
                    self.log.append({"op": "hb", "st": sstr(q), "ans": [] if a is None else [sstr(a)], "at": self.clock})
                    b = bincode.opt(a, bincode.status)
                    self.told = a or self.told
                else:
                    self.log.append({"op": "strange", "st": name.decode("latin1")})
                    b = b""
                self.lock.notify_all()
            c.sendall(b"$%d\r\n%s\r\n" % (len(b), b))


class Play:
    def __init__(self, chk, binary, rng, first="lead", group=None, mono=True):
        self.chk, self.rng = chk, rng
        r = lambda: repl.ip(rng.randrange(10 ** 6))
        self.h = r()
        self.me = rng.choice([1, 2, 77, 2 ** 40])
        self.group = rng.choice([0, 1, 9, 2 ** 33]) if group is None else group
        a, b = r(), r()
        self.leads = {"A": Lead(5, (a, 6379), (a, 7379), rng), "B": Lead(6, (b, 6379), (b, 7379), rng)}
        c = r()
        self.leads["A2"] = Lead(5, (c, 6400), (a, 7400), rng)
        x = r()
        self.X = {"id": 8, "server": (x, 6379), "forward": (x, 7379)}
        self.sport, self.fport = rng.choice([(6379, 7379), (6390, 7390), (31000, 31001)])
        self.pd = Driver(r(), lambda q: self.status(first))
        self.taken = 0
        self.tr = ks.Trace()
        self.total = 0
        self.mono = mono
        self.n = 0
        self.ev({"op": "config", "group": str(self.group), "server": "%s:%d" % (self.h, self.sport), "forward": "%s:%d" % (self.h, self.fport),
                 "leaders": [l.name for l in self.leads.values()]})

    def start(self, binary, early=False):
        kw = dict(port=self.sport, fwd=self.fport, pd=self.pd.addr, group=self.group, workers=2, env={"VNODE_MONO": "1"} if self.mono else {}, freeze=T0)
        if early:
            # nobody is served before the driver has answered
            # (the process must be started from this thread: it dies with the thread that started it)
            self.pd.mute = True
            res = []

            def look():
                time.sleep(1.0)
                res.append(self.answers())
                self.pd.mute = False
            th = threading.Thread(target=look)
            th.start()
            self.nd = repl.server_node(binary, self.h, **kw)
            th.join()
            self.ev({"op": "early", "answered": res[0]})
        else:
            self.nd = repl.server_node(binary, self.h, **kw)
        self.cl = node.Client(self.nd.addr)
        t = time.time()
        while self.pd.told is None and time.time() - t < 10:
            time.sleep(.01)

    def answers(self):
        try:
            c = node.Client((self.h, self.sport), timeout=.5, connect_timeout=.5)
        except OSError:
            return False
        try:
            c.cmd(b"PING")
            return True
        except (OSError, resp.Closed, TimeoutError):
            return False
        finally:
            c.close()

    def ev(self, d, rep=None):
        c = ks.Cmd([json.dumps(d, default=repr)[:300].encode()], d, "any")
        c.rep, c.now = rep or {"k": "skip", "v": []}, T0
        self.tr.ev.append(c)
        return c

    def status(self, letter):
        me = {"id": self.me, "server": (self.h, self.sport), "forward": (self.h, self.fport)}
        s = {"id": self.me, "group": self.group, "role": "leader" if letter.startswith("lead") else "follower"}
        s["leader"] = {"lead": me, "lead0": None, "leadA": self.leads["A"].info, "A": self.leads["A"].info, "B": self.leads["B"].info, "A2": self.leads["A2"].info, "none": None,
                       "self": me, "X": self.X}[letter]
        return s

    def collect(self):
        with self.pd.lock:
            new = self.pd.log[self.taken:]
            self.taken += len(new)
        for e in new:
            self.ev(e)
        return new

    def tick(self, ms=250):
        self.total += ms
        self.pd.clock = self.total
        self.nd.control("mono %d" % ms)

    def until(self, pred, timeout=15, ms=250, wait=.004):
        t = time.time()
        while not pred():
            if time.time() - t > timeout:
                return False
            self.tick(ms)
            time.sleep(wait)
        return True

    def answer(self, letter):
        """the next heartbeat is answered so"""
        with self.pd.lock:
            self.pd.script.append(None if letter == "agree" else self.status(letter))
            n = len(self.pd.log)
        self.until(lambda: len(self.pd.log) > n and not self.pd.script)
        self.collect()
        self.chk.add("heartbeats", 1)

    def followed(self):
        """the scripted leader the server has been told to follow"""
        t = self.pd.told
        if t is None or t["role"] == "leader" or not t["leader"] or t["leader"]["id"] == t["id"]:
            return None
        return next((l for l in self.leads.values() if l.info == t["leader"]), None)

    def say(self, lead):
        self.n += 1
        k = b"%s%d" % (self.rng.choice([b"k", b"l", b"{m}"]), self.rng.randrange(6))
        v = None if self.rng.random() < .2 else b"%s:%d" % (lead.name.encode(), self.n)
        self.write(lead, k, v)

    def write(self, lead, k, v):
        lead.say(k, v)
        d = {"op": "say", "l": lead.name}
        d.update({"what": "del", "ks": [ks.W(k)]} if v is None else {"what": "set", "k": ks.W(k), "v": ks.S(v), "c": "", "ex": [], "get": False})
        self.ev(d)

    def settle(self):
        """until nothing is under way any more"""
        f = self.followed()
        if f:
            self.until(lambda: f.live and f.synced == f.regs and all(not l.live for l in self.leads.values() if l is not f))
            self.n += 1
            # in the last slot, which is replaced last: a write there is applied when the whole snapshot is
            k = b"{z4995}%d" % (self.n % 20)
            v = b"p%d" % self.n
            self.collect()
            self.write(f, k, v)

            def there():
                x = self.cl.cmd(b"GET", k)
                return isinstance(x, bytes) and bytes(x) == v
            self.until(there)
        else:
            self.until(lambda: all(not l.live for l in self.leads.values()), 5)
        self.collect()

    def look(self):
        self.settle()
        try:
            snap = repl.snapshot(self.nd.addr)
        except repl.Incomplete as e:
            self.chk.violation("obey: snapshot of the server: %s" % e, str(e))
            return
        self.collect()
        c = repl.contents_cmd(snap, T0, ids=False)
        self.ev({"op": "obs", "streams": sorted(l.name for l in self.leads.values() for _ in l.live), "at": self.total}, c.rep)

    def own(self):
        """a client writes; only while nobody is followed, as a leader would"""
        for c in [SET(b"own%d" % self.rng.randrange(4), b"o%d" % self.n), DEL(b"k%d" % self.rng.randrange(6)), GET(b"k%d" % self.rng.randrange(6))]:
            self.cl.send(c.bytes())
            c.rep = c.fixed or decode(c.dec, self.cl.read())
            c.now = T0
            self.tr.ev.append(c)

    def close(self):
        self.nd.kill()
        for l in self.leads.values():
            l.close()
        self.pd.close()


def walk(g, rng, start):
    """every transition of the graph at least once, on one path where that is possible: a list of letters"""
    left = {s: list(q) for s, q in g.items()}
    for q in left.values():
        rng.shuffle(q)
    out, s = [], start
    n = sum(len(q) for q in left.values())
    while n:
        if not left[s]:
            # the nearest state with something left
            prev, q = {s: None}, collections.deque([s])
            while q:
                x = q.popleft()
                if left[x]:
                    break
                for o, t in g[x]:
                    if t not in prev:
                        prev[t] = (x, o)
                        q.append(t)
            else:
                break
            back = []
            while prev[x]:
                back.append(prev[x][1])
                x = prev[x][0]
            for o in reversed(back):
                out.append(o)
                s = next(t for p, t in g[s] if p == o)
            continue
        o, t = left[s].pop()
        n -= 1
        out.append(o)
        s = t
    return out


def obedient(chk, binary, i, letters, first):
    rng = random.Random("C24/%d/%d" % (core.SEED, i))
    p = Play(chk, binary, rng, first)
    try:
        p.start(binary, early=i % 2 == 0)
        # the leaders are busy from the beginning
        for l in p.leads.values():
            for _ in range(4):
                p.say(l)
        p.collect()
        # what was said before registration is part of what the leader had: events of the leaders come first
        p.tr.ev.sort(key=lambda c: 0 if c.ev["op"] == "config" else 1 if c.ev["op"] == "say" else 2)
        p.look()
        for n, x in enumerate(letters):
            prev = p.followed()
            p.answer(x)
            chk.add("answers_given")
            for l in p.leads.values():
                if rng.random() < .4 and l is not prev and l is not p.followed():
                    p.say(l)
            if p.followed() is None or p.followed() is prev:
                p.settle()
            if p.followed() is None and p.pd.told["role"] == "leader":
                p.own()
            f = p.followed()
            if f and f is prev:
                for _ in range(rng.choice([0, 1, 3])):
                    p.say(f)
                if rng.random() < .15:
                    # the connection breaks; what is written meanwhile is not lost
                    p.settle()
                    f.b.kill_conns()
                    p.until(lambda: not f.live, 3, ms=0)
                    p.say(f)
                    p.until(lambda: f.live)
            p.look()
            if n % 97 == 96:
                core.log("obey %d: %d answers" % (i, n + 1))
        alive(chk, p.nd, "obeying")
    finally:
        p.close()
    return p.tr


def abandoned(chk, binary, i, rounds):
    """the server is told to follow another leader, or none, in the middle of a snapshot: the rest of it must not come in"""
    rng = random.Random("C24a/%d/%d" % (core.SEED, i))
    p = Play(chk, binary, rng, "lead0")
    try:
        p.start(binary)
        p.collect()
        for l in p.leads.values():
            for k in [b"k%d" % j for j in range(40)]:
                p.write(l, k, b"%s %s" % (l.name.encode(), k))
        p.tr.ev.sort(key=lambda c: 0 if c.ev["op"] == "config" else 1 if c.ev["op"] == "say" else 2)
        p.look()
        for r in range(rounds):
            a, b = rng.sample(["A", "B", "A2"], 2)
            la = p.leads[a]
            la.hold = threading.Event()
            p.answer(a)
            p.until(lambda: la.live, 5)
            time.sleep(.02)
            back = rng.random() < .3
            p.answer(b)
            if back:
                p.answer("lead")
                p.answer(b)
            if rng.random() < .5:
                p.look()
                h, la.hold = la.hold, None
                h.set()
                time.sleep(.05)
            else:
                h, la.hold = la.hold, None
                h.set()
            p.look()
            chk.add("snapshots_abandoned")
            p.answer("lead")
            p.look()
        alive(chk, p.nd, "obeying")
    finally:
        p.close()
    return p.tr


def realtime(chk, binary, secs):
    """how often a server reports, by the clock on the wall"""
    rng = random.Random("C24r/%d" % core.SEED)
    p = Play(chk, binary, rng, "lead", mono=False)
    try:
        p.start(binary)
        t = time.monotonic()
        time.sleep(secs)
        p.collect()
        el = time.monotonic() - t
        snap = repl.snapshot(p.nd.addr)
        p.ev({"op": "obs", "streams": [], "at": int(el * 1000)}, repl.contents_cmd(snap, T0, ids=False).rep)
    finally:
        p.close()
    return p.tr


def judge(chk, trs, what):
    def one(t):
        p = os.path.join(core.workdir(), "obey.%d.ndjson" % id(t))
        with open(p, "w") as f:
            f.write("\n".join(t.encode()) + "\n")
        r = core.tlc("ObeyTrace", env={"TRACE": p}, xmx="3g", timeout=800)
        os.unlink(p)
        return t, r
    for t, r in core.parallel([lambda t=t: one(t) for t in trs], 8):
        if r.ok:
            chk.traces += 1
            chk.events += len(t.ev)
            continue
        mm, rj = r.prints("MISMATCH"), r.prints("REJECTED")
        if not mm and not rj:
            raise core.ToolError("ObeyTrace failed: " + r.out[-2500:])
        pos = (mm[0]["i"] if mm else rj[0]["reached"]) - 1
        bad = t.ev[min(pos, len(t.ev) - 1)]
        show = lambda c: c.text() + ("" if c.ev["op"] not in ("obs", "get") else " -> " + brief(c.rep)[:600])
        line = "%s: %s; required %s" % (what, show(bad), json.dumps(mm[0]["exp"]) if mm else "a step of the specification")
        chk.violation(line, "\n".join([line, "", "the events before:"] + ["  " + show(c) for c in t.ev[max(0, pos - 40):pos + 1]]))


def c24(chk, b):
    chk.design(core.tlc_must("Obey", cfg="Obey2" if core.thorough() else "Obey1", workers=2, xmx="4g", timeout=1000))
    r = core.tlc_must("MCObey", cfg="MCObey2" if core.thorough() else "MCObey1", xmx="3g", timeout=600)
    chk.design(r)
    g = collections.defaultdict(list)
    for t in r.prints("TR"):
        g[json.dumps(t["a"])].append((t["o"], json.dumps(t["b"])))
    rng = random.Random("C24/%d" % core.SEED)
    path = walk(g, rng, "[]")
    names = sorted({x for q in g.values() for x, _ in q})
    parts = N(4, 8)
    # every transition is walked; cut into parts for several servers, overlapping by what a state remembers
    size = len(path) // parts + 1
    cuts = [path[max(0, j * size - 2):(j + 1) * size] for j in range(parts)]
    rnd = [[rng.choice(names) for _ in range(N(30, 300))] for _ in range(2)]
    jobs = [lambda i=i, q=q: obedient(chk, b, i, q, rng.choice(["lead", "A", "none"]) if i else "lead") for i, q in enumerate(cuts + rnd)]
    jobs += [lambda i=i: abandoned(chk, b, i, N(8, 80)) for i in range(2)] + [lambda: realtime(chk, b, 8)]
    trs = core.parallel(jobs, 6)
    core.log("driven: %d answers" % (len(path) + sum(map(len, rnd))))
    chk.sample("answers of the driver in order: " + " ".join(path[:40]))
    judge(chk, trs, "server and placement driver")
