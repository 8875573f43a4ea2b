"""C17: where keys live, and that they do not interfere."""
import itertools, json, os, random
from .. import core, gen, ks, node, repl, resp
from ..ks import *
from ..tour import T0
from .keyspace import N, alive, note
from .repl import KINDS, slot_of


def creators(cl, payload):
    """ways to bring a key into existence"""
    return [[b"SET", None, b"v"], [b"RPUSH", None, b"a"], [b"HSET", None, b"f", b"v"], [b"SADD", None, b"m"], [b"ZADD", None, b"1", b"m"],
            [b"INCR", None], [b"SETEX", None, b"1000", b"v"], [b"PSETEX", None, b"100000", b"v"], [b"LPUSH", None, b"a", b"b"], [b"HSETNX", None, b"f", b"v"],
            [b"HINCRBY", None, b"f", b"2"], [b"DECRBY", None, b"3"], [b"SET", None, b"v", b"NX"], [b"RESTORE", None, b"0", payload], [b"INCRBY", None, b"5"],
            [b"ZADD", None, b"INCR", b"1", b"m"]]


def keyset(rng, n):
    ks_ = [bytes(t) for m in range(0, 6) for t in itertools.product(b"{}ab", repeat=m)]
    if core.thorough():
        ks_ += [bytes(t) for m in (6, 7) for t in itertools.product(b"{}ab", repeat=m)]
    ks_ += [bytes([b]) for b in range(256)] + [bytes([b, c]) for b in (0, 13, 10, 123, 125, 255) for c in range(256)]
    ks_ += [b"123456789", b"user1000", b"{user1000}.following", b"foo{}{bar}", b"foo{{bar}}zap", b"foo{bar}{zap}"]
    while n > 0:
        m = rng.choice([1, 3, 8, 20, 60, 300])
        k = bytes(rng.randrange(256) for _ in range(rng.randrange(1, m + 1)))
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            p = rng.randrange(len(k) + 1)
            k = k[:p] + rng.choice([b"{", b"}"]) + k[p:]
        ks_.append(k)
        n -= 1
    return list(dict.fromkeys(ks_))


def placement(chk, binary, i):
    rng = random.Random("C17/%d/%d" % (core.SEED, i))
    keys = keyset(rng, N(2500, 40000))
    rng.shuffle(keys)
    with repl.server_node(binary, repl.ip(500 + i), freeze=T0) as nd:
        st = repl.Stream(nd.fwd)
        cl = node.Client(nd.addr)
        cl.cmd(b"SET", b"src", b"v")
        cr = creators(cl, bytes(cl.cmd(b"DUMP", b"src")))
        sent = [b"src"]
        for a in range(0, len(keys), 200):
            part = keys[a:a + 200]
            cl.send(b"".join(resp.enc([k if x is None else x for x in cr[(j + a) % len(cr)]]) for j, k in enumerate(part)))
            for k in part:
                r = cl.read()
                if isinstance(r, resp.Error):
                    chk.violation("creating the key %r was refused: %r" % (k, r), "")
            sent += part
        cl.cmd(b"SET", b"last", b"v")
        sent.append(b"last")
        st.wait_key(b"last")
        snap = repl.snapshot(nd.addr)
        # each key is found under its own name by reading commands too
        cl.send(b"".join(resp.enc([b"EXISTS", k]) for k in sent))
        for k in sent:
            if cl.read() != 1:
                chk.violation("the key %r does not exist after it was created" % k, "")
        alive(chk, nd, "placement")
        st.close()
    where = {k: [] for k in sent}
    for s, (_, d) in snap.items():
        for k in d:
            if k not in where:
                chk.violation("a key nobody created is stored: %r" % k, "slot %d" % s)
            else:
                where[k].append(s)
    lines = [{"k": list(k), "s": s} for k, s in where.items()] + [{"k": list(m["key"]), "s": [m["slot"]]} for m in st.msgs]
    judge(chk, lines)
    chk.add("keys_placed", len(where))
    chk.add("messages_placed", len(st.msgs))


def judge(chk, lines):
    per = len(lines) // 4 + 1

    def one(j):
        p = os.path.join(core.workdir(), "slot.%d.%d.ndjson" % (id(lines), j))
        ch = lines[j * per:(j + 1) * per]
        with open(p, "w") as f:
            f.write("\n".join(json.dumps(x) for x in ch) + "\n")
        return ch, core.tlc("SlotTrace", env={"TRACE": p})
    for ch, r in core.parallel([lambda j=j: one(j) for j in range(4)], 4):
        if r.ok:
            chk.traces += 1
            chk.events += len(ch)
            continue
        mm = r.prints("MISMATCH")
        if not mm:
            raise core.ToolError("SlotTrace failed: " + r.out[-1500:])
        e = ch[mm[0]["i"] - 1]
        chk.violation("the key %r is found in slots %r, its slot is %d" % (bytes(e["k"]), e["s"], mm[0]["exp"]), json.dumps(e))


def crc_twins(rng, n):
    """groups of unrelated keys that share a slot"""
    by = {}
    while len([1 for v in by.values() if len(v) >= 3]) < n:
        k = b"k%d" % rng.randrange(10 ** 7)
        by.setdefault(slot_of(k), []).append(k)
    return [v for v in by.values() if len(v) >= 3][:n]


def interference(chk, binary, i, steps):
    """every kind of command on names made to be confused with each other; the whole keyspace is compared again and again"""
    rng = random.Random("C17i/%d/%d" % (core.SEED, i))
    t = b"{t}"
    pools = [
        [t, t + b"a", t + b"A", t + b"b", t + b"\0", t + b"\0\0", b"a" + t, t + t, t + b" ", b"t"],
        [b"", b"\0", b" ", b"a", b"A", b"aa", b"a ", b"{a}", b"{}a", b"a{", b"\xff", b"\xc3\xa9", b"e\xcc\x81", b"a\r\n"],
        sum(crc_twins(rng, 3), []),
        [b"0", b"00", b"-0", b"1", b"+1", b"1.0", b"10", b"16384", b"-1", b"0x10"],
        [b"x" * 300, b"x" * 301, b"x" * 300 + b"y", b"y" + b"x" * 300, b"x" * 299 + b"X"],
    ]
    tr = ks.Trace()
    with repl.server_node(binary, repl.ip(550 + i), freeze=T0) as nd:
        d = ks.Driver(nd)
        for pool in pools[i::2] if not core.thorough() else pools:
            d.run(FLUSHALL(b"SYNC"))
            d.tr = tr
            tr.reset()
            g = gen.Gen(rng, KINDS, nkeys=3, cross=.05)
            for kind in g.keys:
                if kind != "zlex":
                    g.keys[kind] = [rng.choice(pool) for _ in range(4)]
            for n in range(steps):
                c = g.next(nd.now)
                if isinstance(c, int):
                    d.set_now(nd.now + c)
                    continue
                d.do(c)
                if c.ev["op"] == "dump":
                    d.flush()
                    if c.rep["k"] == "blob" and len(g.payloads) < 30:
                        g.payloads.append(c.rep["v"].b)
                if n % (steps // 4) == steps // 4 - 1:
                    d.flush()
                    tr.ev.append(repl.contents_cmd(repl.snapshot(nd.addr), nd.now, ids=False, what="all keys"))
        d.flush()
        alive(chk, nd, "interference")
    note(chk, "interference", tr)
    ks.check_trace(chk, tr, "interference", jobs=4)


def c17(chk, b):
    core.parallel([lambda: placement(chk, b, 0)] + [lambda i=i: interference(chk, b, i, N(1500, 8000)) for i in range(2)], 3)
