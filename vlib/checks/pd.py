"""C22, C23: the placement driver against spec/Pd.tla."""
import collections, json, os, random
from .. import bincode, core, node, resp
from .keyspace import N, alive

T0 = 1_700_000_000_000


def address(n):
    """the n-th pair of addresses a server registers"""
    h = "%032x" % (0x20010db8 << 96 | n) if n % 5 == 4 else "10.%d.%d.%d" % (n >> 16 & 255, n >> 8 & 255, n & 255)
    return {"server": (h, 6379 + n % 7), "forward": (h, 7379 + n % 11)}


class Pd:
    """one real placement driver whose clock and one-second ticks move only on command"""

    def __init__(self, chk, binary, conns=3):
        self.chk = chk
        self.nd = node.Node(binary, "pd", freeze=T0, workers=1, env={"VNODE_MONO": "1"})
        self.now = 0
        self.cls = [node.Client(self.nd.addr) for _ in range(conns)]
        self.groups = 0
        self.n = 0
        self.addrs = {}
        self.queue = []
        self.nd.control("settle")

    def cl(self):
        self.n += 1
        return self.cls[self.n % len(self.cls)]

    def create(self):
        if self.cl().cmd(b"pd_crate_group") != b"OK":
            self.chk.violation("creating a group was not answered OK", "")
        self.groups += 1
        return self.groups

    def adv(self, d):
        self.now += d
        self.nd.set_now(T0 + self.now)

    def tick(self):
        self.nd.control("mono 1000")

    def req(self, cl, kind, body):
        v = cl.cmd(kind, body)
        if isinstance(v, resp.Error):
            return "error"
        return bytes(v) if isinstance(v, (bytes, bytearray)) else "weird %r" % (v,)

    def close(self):
        for c in self.cls:
            c.close()
        self.nd.kill()


class Group:
    """one group of a driver and its recorded trace"""

    def __init__(self, pd, create=True):
        self.pd = pd
        self.ev = []
        self.told = {}
        self.n = 0
        self.addr = {}         # address pair -> index
        self.id = pd.create() if create else pd.groups + 1
        self.made = create
        if create:
            self.ev.append({"op": "create"})

    def _view(self, st):
        if st["group"] != self.id:
            return {"id": st["id"], "lead": "group %d" % st["group"], "leader": []}
        l = st["leader"]
        return {"id": st["id"], "lead": st["role"] == "leader",
                "leader": [] if l is None else [{"id": l["id"], "addr": self.addr.get((l["server"], l["forward"]), -1)}]}

    def status(self, view):
        """the wire form of a view of the specification"""
        l = view["leader"]
        rev = {v: k for k, v in self.addr.items()}
        ld = None
        if l:
            s, f = rev[l[0]["addr"]]
            ld = {"id": l[0]["id"], "server": s, "forward": f}
        return {"id": view["id"], "group": self.id, "role": "leader" if view["lead"] else "follower", "leader": ld}

    def reg(self, cl=None):
        pd = self.pd
        self.n += 1
        pd.n += 1
        a = address(pd.n)
        self.addr[(a["server"], a["forward"])] = self.n
        body = bincode.init({"group": self.id, **a})
        return self.reg_done(self.n, pd.req(cl or pd.cl(), b"pd_sever_init", body))

    def reg_done(self, n, v, now=None):
        r = v
        if isinstance(v, bytes):
            try:
                st = bincode.decode(v, "status")
                r = self._view(st)
                self.told[st["id"]] = st
            except (bincode.Short, bincode.Malformed) as e:
                r = "malformed %s %r" % (e, v)
        self.ev.append({"op": "reg", "addr": n, "now": self.pd.now, "r": r})
        return r

    def hb(self, sid, report):
        """report: a status"""
        v = self.pd.req(self.pd.cl(), b"pd_sever_heartbeat", bincode.status(report))
        r = v
        if isinstance(v, bytes):
            try:
                r = bincode.decode(v, "opt_status")
                if r is not None:
                    self.told[sid] = r
                r = [] if r is None else [self._view(r)]
            except (bincode.Short, bincode.Malformed) as e:
                r = "malformed %s %r" % (e, v)
        self.ev.append({"op": "hb", "id": sid, "report": self._view(report), "now": self.pd.now, "r": r})
        return r

    def check(self):
        self.ev.append({"op": "check", "now": self.pd.now})


def altered(rng, st):
    """a report that differs from st in one thing"""
    st = dict(st)
    l = st["leader"]
    k = rng.randrange(5)
    if k == 0 or l is None:
        st["role"] = "follower" if st["role"] == "leader" else "leader"
    elif k == 1:
        st["leader"] = None
    elif k == 2:
        st["leader"] = dict(l, id=l["id"] + rng.choice([1, -1, 7]))
    elif k == 3:
        st["leader"] = dict(l, server=("192.0.2.1", rng.randrange(1, 65536)))
    else:
        st["leader"] = dict(l, forward=("192.0.2.1", rng.randrange(1, 65536)))
    return st


def judge(chk, evs, what):
    """evs: list of per-group event lists"""
    chunks, cur = [], []
    for e in evs:
        cur.append(e)
        if sum(map(len, cur)) > 25000:
            chunks.append(cur)
            cur = []
    if cur:
        chunks.append(cur)

    def one(i, ch):
        lines = []
        for e in ch:
            lines.append({"op": "reset"})
            lines += e
        p = os.path.join(core.workdir(), "pd.%d.%d.ndjson" % (id(evs), i))
        with open(p, "w") as f:
            f.write("\n".join(json.dumps(x) for x in lines) + "\n")
        r = core.tlc("PdTrace", env={"TRACE": p}, xmx="3g")
        return ch, lines, r
    for ch, lines, r in core.parallel([lambda i=i, ch=ch: one(i, ch) for i, ch in enumerate(chunks)], 6):
        if r.ok:
            chk.traces += len(ch)
            chk.events += len(lines)
            continue
        mm, rj = r.prints("MISMATCH"), r.prints("REJECTED")
        if not mm and not rj:
            raise core.ToolError("PdTrace failed: " + r.out[-1500:])
        pos = min((mm[0]["i"] if mm else rj[0]["reached"]) - 1, len(lines) - 1)
        start = max(i for i in range(pos + 1) if lines[i]["op"] == "reset")
        line = "%s: %s; the specification requires %s" % (what, json.dumps(lines[pos]), json.dumps(mm[0]["exp"]) if mm else "something else")
        chk.violation(line, line + "\n\nhistory of the group (now = ms of the driver's clock):\n" + "\n".join(json.dumps(x) for x in lines[start:pos + 1]))


def edges(n):
    """all transitions of the bounded model: {state json: [(op, next state json)]}"""
    r = core.tlc_must("MCPd", cfg="MCPd%d" % n, env={"EDGES": "1"}, timeout=800)
    g = collections.defaultdict(list)
    for t in r.prints("TR"):
        g[json.dumps(t["a"], sort_keys=True)].append((t["o"], json.dumps(t["b"], sort_keys=True)))
    r.out = ""
    return r, g


def walk_op(grp, o, state, rng):
    pd = grp.pd
    if o[0] == "reg":
        grp.reg()
    elif o[0] == "adv":
        pd.adv(o[1])
    elif o[0] == "tick":
        pd.tick()
        grp.check()
    else:
        i = o[1] - 1
        if i >= grp.n:
            return
        s = state["servers"][i]
        st = grp.status({"id": s["id"], "lead": s["lead"], "leader": state["leader"]})
        grp.hb(s["id"], st if o[2] else altered(rng, st))


def tour(chk, binary, g, init, what, part=0, parts=1, suffix=False, limit=None):
    """walks transitions of the model on real groups; with suffix every transition ends in a fixed set of observations"""
    rng = random.Random("pd/%d/%d" % (core.SEED, part))
    prev = {init: None}
    q = collections.deque([init])
    while q:
        s = q.popleft()
        for o, t in g[s]:
            if t not in prev:
                prev[t] = (s, o)
                q.append(t)

    def path(s):
        p = []
        while prev[s]:
            p.append((prev[s][1], prev[s][0]))
            s = prev[s][0]
        return p[::-1]
    pd = Pd(chk, binary)
    evs = []
    parsed = {s: json.loads(s) for s in g}
    try:
        if suffix:
            todo = [(s, o, t) for s in g for o, t in g[s]][part::parts]
            for s, o, t in todo[:limit]:
                grp = Group(pd)
                evs.append(grp.ev)
                for oo, ss in path(s):
                    walk_op(grp, oo, parsed[ss], rng)
                walk_op(grp, o, parsed[s], rng)
                ids = list(grp.told)
                if rng.random() < .5:
                    pd.tick()
                    grp.check()
                for k in ids:
                    grp.hb(k, grp.told[k] if rng.random() < .7 else altered(rng, grp.told[k]))
                pd.adv(3001)
                for k in ids[rng.randrange(len(ids) + 1):] if ids else []:
                    grp.hb(k, grp.told[k])
                pd.tick()
                grp.check()
                for k in ids:
                    grp.hb(k, grp.told[k])
        else:
            left = {s: collections.deque(es) for s, es in g.items()}
            order = list(g)
            rng.shuffle(order)
            n = 0
            for s0 in order:
                while left[s0]:
                    grp = Group(pd)
                    evs.append(grp.ev)
                    for oo, ss in path(s0):
                        walk_op(grp, oo, parsed[ss], rng)
                    s, steps = s0, 0
                    while left[s] and steps < 400:
                        o, t = left[s].popleft()
                        walk_op(grp, o, parsed[s], rng)
                        s, steps = t, steps + 1
                        if not left[s]:
                            # hop to a neighbour with something left
                            for o2, t2 in g[s]:
                                if left[t2]:
                                    walk_op(grp, o2, parsed[s], rng)
                                    s = t2
                                    break
                    n += steps
        alive(chk, pd.nd, what)
    finally:
        pd.close()
    judge(chk, evs, what)


def random_groups(chk, binary, i, ngroups, rounds, maxsrv, failover):
    """many groups of one driver at once, random registrations and heartbeats between random steps of the clock"""
    rng = random.Random("pdr/%d/%d" % (core.SEED, i))
    pd = Pd(chk, binary, conns=6)
    gs = []
    ghost = Group(pd, create=False)
    ghosts = [ghost]
    try:
        for r in range(rounds):
            while len(gs) < ngroups and (not gs or rng.random() < .6):
                ghost.id = rng.choice([pd.groups + 1, pd.groups + 2, 0, 1 << 40])
                if rng.random() < .3:
                    ghost.reg()
                gs.append(Group(pd))
            order = list(gs)
            rng.shuffle(order)
            for g in order:
                for _ in range(rng.choice([0, 1, 1, 2, 4])):
                    if g.n < maxsrv and (not g.told or rng.random() < .25):
                        g.reg()
                    elif g.told:
                        # a server that is silent for long stretches
                        sid = rng.choice(list(g.told))
                        if failover and (sid * 7 + r // 5 + g.id) % 3 == 0:
                            continue
                        st = g.told[sid]
                        g.hb(sid, st if rng.random() < .75 else altered(rng, st))
            pd.adv(rng.choice([0, 1, 300, 999, 1000, 1000, 1500, 2000, 2999, 3000, 3001, 5000] if failover else [0, 1, 500, 1000]))
            if rng.random() < .8:
                pd.tick()
                for g in gs:
                    g.check()
        for g in gs:
            for sid in sorted(g.told):
                g.hb(sid, g.told[sid])
        alive(chk, pd.nd, "placement driver")
    finally:
        pd.close()
    judge(chk, [g.ev for g in gs] + [g.ev for g in ghosts], "placement driver, %d groups" % len(gs))
    chk.add("groups", len(gs))


def concurrent(chk, binary, i, groups, srv):
    """many servers register at once over their own connections, together with creations of groups; the ids in the answers are the order"""
    rng = random.Random("pdc/%d/%d" % (core.SEED, i))
    nd = node.Node(binary, "pd", freeze=T0, workers=8)
    pd = Pd.__new__(Pd)
    pd.chk, pd.nd, pd.now, pd.groups, pd.n = chk, nd, 0, 0, 0
    pd.cls = [node.Client(nd.addr) for _ in range(srv)]
    gs = []
    try:
        for k in range(groups):
            g = Group(pd)
            gs.append(g)
            reqs = []
            for j in range(srv):
                g.n += 1
                pd.n += 1
                a = address(pd.n)
                g.addr[(a["server"], a["forward"])] = g.n
                reqs.append((g.n, bincode.init({"group": g.id, **a})))
            msgs = [resp.enc([b"pd_sever_init", b]) for _, b in reqs]
            per = rng.choice([1, 3])
            for c, m in zip(pd.cls, msgs):
                c.send(m)
            out = [(n, c.read()) for c, (n, _) in zip(pd.cls, reqs)]
            ans = []
            for n, v in out:
                if isinstance(v, resp.Error) or not isinstance(v, (bytes, bytearray)):
                    g.reg_done(n, "weird %r" % (v,))
                    continue
                st = bincode.decode(bytes(v), "status")
                ans.append((st["id"], n, bytes(v)))
            for _, n, v in sorted(ans):
                g.reg_done(n, v)
            if rng.random() < .5:
                for sid in list(g.told):
                    g.hb(sid, g.told[sid])
        alive(chk, nd, "placement driver")
    finally:
        pd.close()
    judge(chk, [g.ev for g in gs], "servers registering at once")


def c22(chk, b):
    r, g = edges(3)
    chk.design(r)
    init = next(s for s in g if json.loads(s)["servers"] == [])
    core.parallel([lambda: tour(chk, b, g, init, "placement driver history", 0, N(8, 1), True)] +
                  [lambda i=i: random_groups(chk, b, i, N(120, 400), N(60, 400), 6, False) for i in range(2)] +
                  [lambda: random_groups(chk, b, 7, N(60, 200), N(60, 400), 6, True)] +
                  [lambda i=i: concurrent(chk, b, i, N(60, 600), 12) for i in range(2)], 4)


def c23(chk, b):
    r, g3 = edges(3)
    chk.design(r)
    r, g4 = edges(4 if not core.thorough() else 5)
    chk.design(r)
    init = next(s for s in g3 if json.loads(s)["servers"] == [])
    core.parallel([lambda i=i: tour(chk, b, g3, init, "failover history", i, 3, True) for i in range(3)] +
                  [lambda: tour(chk, b, g4, init, "failover history")] +
                  [lambda i=i: random_groups(chk, b, 20 + i, N(80, 200), N(80, 800), 6, True) for i in range(2)], 6)
