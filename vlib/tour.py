"""Exhaustive small-scope models: let TLC enumerate every transition of MCKeyspace for a command set, then walk all of
them on the real server (a transition tour), recording a trace that KsTrace judges."""
import collections, json, os
from . import core, ks

T0 = 1_700_000_000_000
TICK = "tick"


class Family:
    def __init__(self, name, cmds, observers, maxsize=3, ints=(), blobs=(), setup=None, ghosts=False):
        """cmds: functions now -> Cmd, or (TICK, ms); observers: (Cmd) -> [Cmd] run after a command that is no read
        blobs: list of (type, value-in-model-form with placeholders, payload bytes); setup: Cmds making the payloads known"""
        self.name, self.cmds, self.observers, self.maxsize = name, cmds, observers, maxsize
        self.ints, self.blobs, self.setup, self.ghosts = ints, blobs, setup or [], ghosts


def explore(fam):
    """returns (TlcResult, transitions: dict state -> [(cmd index, next state)])"""
    evs = []
    for c in fam.cmds:
        evs.append({"op": "tick", "n": ks.num(c[1])} if isinstance(c, tuple) else c(T0).ev)
    words = set()

    def scan(x):
        if isinstance(x, ks.W) or (isinstance(x, ks.S) and ks.canon_int(x.b) is None):
            words.add(x.b)
        elif isinstance(x, dict):
            [scan(y) for y in x.values()]
        elif isinstance(x, list):
            [scan(y) for y in x]
    scan(evs)
    scan([b[1] for b in fam.blobs])
    rank = {w: i + 1 for i, w in enumerate(sorted(words))}
    pay = {b[2]: i + 1 for i, b in enumerate(fam.blobs)}

    def tr(x):
        if isinstance(x, ks.W):
            return rank[x.b]
        if isinstance(x, ks.S):
            i = ks.canon_int(x.b)
            return ["w", rank[x.b]] if i is None else ["i"] + ks.num(i)
        if isinstance(x, ks.F):
            return ks.score(x.f)
        if isinstance(x, ks.PAYLOAD):
            return pay.get(x.b, 0)
        if isinstance(x, dict):
            return {k: tr(v) for k, v in x.items()}
        if isinstance(x, list):
            return [tr(v) for v in x]
        return x
    conf = {"cmds": tr(evs), "now": ks.num(T0), "maxsize": fam.maxsize, "ghosts": fam.ghosts, "ints": [ks.num(i) for i in fam.ints],
            "blobs": [{"t": t, "v": tr(v)} for t, v, _ in fam.blobs]}
    p = os.path.join(core.workdir(), "fam.%s.json" % fam.name)
    with open(p, "w") as f:
        json.dump(conf, f)
    r = core.tlc_must("MCKeyspace", env={"CMDS": p}, xmx="4g", timeout=800)
    g = collections.defaultdict(list)
    ids = {}
    first = None
    for line in r.out.splitlines():
        if line.startswith('"TR '):
            a, c, b = json.loads(line)[3:].split(" # ")
            a, b = ids.setdefault(a, len(ids)), ids.setdefault(b, len(ids))
            if first is None:
                first = a
            g[a].append((int(c) - 1, b))
    r.out = ""
    r.initial = first
    return r, g


READS = {"get", "exists", "ttl", "pttl", "llen", "lrange", "hget", "hmget", "hgetall", "hexists", "sismember", "smismember",
         "smembers", "zrank", "zrange", "dump", "objinfo", "debugobj", "ping", "config", "info"}


def plan(g, init, limit=None):
    """a walk from init covering every transition: list of (cmd index, next state); self loops are taken in place"""
    todo = {s: collections.deque(es) for s, es in g.items()}
    for s, es in todo.items():
        loops = [e for e in es if e[1] == s]
        rest = [e for e in es if e[1] != s]
        todo[s] = (loops, collections.deque(rest))
    left = sum(len(r) for _, r in todo.values())
    cur, walk = init, []
    adj = {s: {} for s in g}
    for s, es in g.items():
        for c, t in es:
            if t != s:
                adj[s].setdefault(t, c)
    visited = set()
    while True:
        if cur not in visited:
            visited.add(cur)
            walk += [(c, cur) for c, _ in todo[cur][0]]
        r = todo[cur][1]
        if r:
            c, t = r.popleft()
            walk.append((c, t))
            cur = t
            left -= 1
            continue
        if left <= 0 and len(visited) == len(g):
            return walk
        # BFS to the nearest state with something left
        prev, q, goal = {cur: None}, collections.deque([cur]), None
        while q:
            s = q.popleft()
            if s != cur and (todo[s][1] or s not in visited):
                goal = s
                break
            for t, c in adj[s].items():
                if t not in prev:
                    prev[t] = (s, c)
                    q.append(t)
        if goal is None:
            return walk
        path = []
        s = goal
        while prev[s]:
            path.append((prev[s][1], s))
            s = prev[s][0]
        for c, t in reversed(path):
            walk.append((c, t))
            cur = t
            if cur not in visited:
                visited.add(cur)
                walk += [(cc, cur) for cc, _ in todo[cur][0]]


def run_tour(chk, fam, nd, seglen=1500, stride=1, offset=0, limit=None, rng=None):
    """explore fam with TLC, walk every transition on node nd; returns the Trace (to be judged by ks.check_trace)"""
    r, g = explore(fam)
    chk.design(r)
    walk = plan(g, r.initial)
    chk.add("tour_%s" % fam.name, len(walk))
    d = ks.Driver(nd)
    fresh(d, fam)
    n = 0
    # the walk is cut into segments; a new segment replays the shortest prefix from the empty keyspace
    path_to = spanning(g, r.initial)
    cur = r.initial
    for c, t in walk:
        if n >= seglen and t != cur:
            fresh(d, fam)
            n = 0
            for cc in path_to[cur]:
                step(d, fam, cc, False)
        n += step(d, fam, c, True)
        cur = t
    d.flush()
    d.drop()
    return d.tr


def spanning(g, init):
    p, q = {init: []}, collections.deque([init])
    while q:
        s = q.popleft()
        for c, t in g.get(s, ()):
            if t not in p:
                p[t] = p[s] + [c]
                q.append(t)
    return p


def fresh(d, fam):
    d.flush()
    d.tr.reset()
    d.do(ks.FLUSHALL(b"SYNC"))
    for c in fam.setup:
        d.do(c.copy())


def step(d, fam, ci, observe):
    c = fam.cmds[ci]
    if isinstance(c, tuple):
        d.set_now(d.nd.now + c[1])
        return 0
    c = c(d.nd.now)
    d.do(c)
    if not observe or c.ev["op"] in READS:
        return 1
    obs = fam.observers(c)
    for o in obs:
        d.do(o)
    return 1 + len(obs)
