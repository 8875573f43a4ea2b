"""Keyspace commands: wire form, event form for spec/Keyspace.tla, decoding of replies, trace checking with TLC."""
import json, math, os, struct
from . import core, resp, node

B = 1 << 21
IMAX = (1 << 63) - 1
IMIN = -(1 << 63)


def num(i):
    """Num triple of a (possibly slightly out of i64) integer"""
    c = i % B
    b = (i // B) % B
    a = i // (B * B)
    return [a, b, c]


def score(f):
    if f == math.inf:
        return [B, 0, 0]
    if f == -math.inf:
        return [-B - 1, 0, 0]
    q = f * 4
    if q != int(q) or abs(q) >= 1 << 62:
        raise ValueError("score not encodable: %r" % f)
    return num(int(q))


def canon_int(b):
    """int if b is the canonical decimal form of an i64, else None"""
    if not b or len(b) > 20:
        return None
    d = b[1:] if b[:1] == b"-" else b
    if not d.isdigit() or (len(d) > 1 and d[:1] == b"0") or b == b"-0":
        return None
    v = int(b)
    return v if IMIN <= v <= IMAX else None


class W:
    """byte string appearing as a key/field/member (becomes its rank)"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = bytes(b)

    def __repr__(self):
        return "W%r" % self.b


class S:
    """byte string appearing as a stored value (becomes a scalar)"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = bytes(b)

    def __repr__(self):
        return "S%r" % self.b


class F:
    """a sorted set score"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "F(%r)" % self.f


def score_opaque(f):
    """order preserving injection of the doubles into i64 (no arithmetic possible): for runs without INCR"""
    if f in (math.inf, -math.inf):
        return score(f)
    (b,) = struct.unpack("<q", struct.pack("<d", f + 0.0 if f else 0.0))
    return num(b if b >= 0 else -(b & IMAX))


def fstr(f):
    if f == math.inf:
        return b"inf"
    if f == -math.inf:
        return b"-inf"
    if f == int(f):
        return b"%d" % int(f)
    return repr(f).encode()


def b_(x):
    return x if isinstance(x, bytes) else str(x).encode()


class Cmd:
    __slots__ = ("wire", "ev", "dec", "risky", "now", "rep", "raw", "fixed", "inv", "res", "known", "either")

    def __init__(self, wire, ev, dec, risky=False):
        self.wire = wire          # list of args, or bytes (raw request)
        self.ev, self.dec, self.risky = ev, dec, risky
        self.now = self.rep = self.raw = self.fixed = None

    def bytes(self):
        return self.wire if isinstance(self.wire, bytes) else resp.enc(self.wire)

    def copy(self):
        c = Cmd(self.wire, self.ev, self.dec, self.risky)
        c.fixed = self.fixed
        return c

    def text(self):
        w = self.wire if isinstance(self.wire, list) else [self.wire]
        return " ".join(repr(x.b if isinstance(x, resp.RawFrame) else x)[1:] if len(x.b if isinstance(x, resp.RawFrame) else x) < 80
                        else "<%d bytes %r..>" % (len(x), x[:20]) for x in w)


RESET = object()


# --------------------------------------------------------------------------------------------- command constructors
def safe(c):
    """whether a server that is right never closes the connection because of it"""
    return not c.risky or c.ev["op"] in ("zrange", "zremrange", "zadd")


def GET(k):
    return Cmd([b"GET", k], {"op": "get", "k": W(k)}, "val")


def SET(k, v, c="", ex=None, get=False, rng=None):
    """ex: None, ("EX"|"PX"|"EXAT"|"PXAT", int) or ("KEEPTTL",)"""
    opts = []
    if ex:
        opts.append([ex[0].encode()] + [b_(x) for x in ex[1:]])
    if c:
        opts.append([c.encode()])
    if get:
        opts.append([b"GET"])
    if rng:
        rng.shuffle(opts)
        opts = [[(x.lower() if rng.random() < .3 and x.isalpha() else x) for x in o] for o in opts]
    exn = [] if not ex else [ex[0]] + (num(ex[1]) if len(ex) > 1 else [])
    return Cmd([b"SET", k, v] + sum(opts, []),
               {"op": "set", "k": W(k), "v": S(v), "c": c, "ex": exn, "get": get}, "val" if get else "ok",
               risky=bool(ex and len(ex) > 1 and not (0 < ex[1] < 1 << 40)))


def SETEX(k, n, v, ms=False):
    return Cmd([b"PSETEX" if ms else b"SETEX", k, b_(n), v],
               {"op": "set", "k": W(k), "v": S(v), "c": "", "ex": ["PX" if ms else "EX"] + num(n), "get": False}, "ok",
               risky=not (0 < n < 1 << 40))


def INCRBY(k, n, plain=False):
    if plain and n == 1:
        return Cmd([b"INCR", k], {"op": "incrby", "k": W(k), "n": num(1)}, "int")
    if plain and n == -1:
        return Cmd([b"DECR", k], {"op": "incrby", "k": W(k), "n": num(-1)}, "int")
    return Cmd([b"INCRBY", k, b_(n)], {"op": "incrby", "k": W(k), "n": num(n)}, "int", risky=abs(n) > 1 << 40)


def DECRBY(k, n):
    return Cmd([b"DECRBY", k, b_(n)], {"op": "decrby", "k": W(k), "n": num(n)}, "int", risky=abs(n) > 1 << 40)


def DEL(*ks):
    return Cmd([b"DEL", *ks], {"op": "del", "ks": [W(k) for k in ks]}, "int")


def EXISTS(*ks):
    return Cmd([b"EXISTS", *ks], {"op": "exists", "ks": [W(k) for k in ks]}, "int")


def EXPIRE(k, n, unit="s", abs_=False, flags=()):
    name = {("s", False): b"EXPIRE", ("ms", False): b"PEXPIRE", ("s", True): b"EXPIREAT", ("ms", True): b"PEXPIREAT"}[(unit, abs_)]
    return Cmd([name, k, b_(n)] + [f.encode() for f in flags],
               {"op": "expire", "k": W(k), "n": num(n), "u": unit, "abs": abs_, "f": list(flags)}, "int",
               risky=not (0 < n < 1 << 42))


def TTL(k):
    return Cmd([b"TTL", k], {"op": "ttl", "k": W(k)}, "int")


def PTTL(k):
    return Cmd([b"PTTL", k], {"op": "pttl", "k": W(k)}, "int")


def PUSH(k, vs, left=True, x=False):
    return Cmd([(b"L" if left else b"R") + b"PUSH" + (b"X" if x else b""), k, *vs],
               {"op": "push", "k": W(k), "vs": [S(v) for v in vs], "left": left, "x": x}, "int")


def POP(k, n=None, left=True):
    return Cmd([b"LPOP" if left else b"RPOP", k] + ([] if n is None else [b_(n)]),
               {"op": "pop", "k": W(k), "n": num(1 if n is None else n), "left": left}, "arrS", risky=n is not None and n < 0)


def LLEN(k):
    return Cmd([b"LLEN", k], {"op": "llen", "k": W(k)}, "int")


def LRANGE(k, a, b):
    return Cmd([b"LRANGE", k, b_(a), b_(b)], {"op": "lrange", "k": W(k), "a": num(a), "b": num(b)}, "arrS",
               risky=abs(a) > 1 << 40 or abs(b) > 1 << 40)


def HSET(k, fvs):
    return Cmd([b"HSET", k] + [x for p in fvs for x in p],
               {"op": "hset", "k": W(k), "fv": [[W(f), S(v)] for f, v in fvs]}, "int")


def HSETNX(k, f, v):
    return Cmd([b"HSETNX", k, f, v], {"op": "hsetnx", "k": W(k), "f": W(f), "v": S(v)}, "int")


def HGET(k, f):
    return Cmd([b"HGET", k, f], {"op": "hget", "k": W(k), "f": W(f)}, "val")


def HMGET(k, fs):
    return Cmd([b"HMGET", k, *fs], {"op": "hmget", "k": W(k), "fs": [W(f) for f in fs]}, "arrS")


def HGETALL(k):
    return Cmd([b"HGETALL", k], {"op": "hgetall", "k": W(k)}, "map")


def HEXISTS(k, f):
    return Cmd([b"HEXISTS", k, f], {"op": "hexists", "k": W(k), "f": W(f)}, "int")


def HDEL(k, fs):
    return Cmd([b"HDEL", k, *fs], {"op": "hdel", "k": W(k), "fs": [W(f) for f in fs]}, "int")


def HINCRBY(k, f, n):
    return Cmd([b"HINCRBY", k, f, b_(n)], {"op": "hincrby", "k": W(k), "f": W(f), "n": num(n)}, "int",
               risky=abs(n) > 1 << 40)


def SADD(k, ms):
    return Cmd([b"SADD", k, *ms], {"op": "sadd", "k": W(k), "ms": [W(m) for m in ms]}, "int")


def SREM(k, ms):
    return Cmd([b"SREM", k, *ms], {"op": "srem", "k": W(k), "ms": [W(m) for m in ms]}, "int")


def SISMEMBER(k, m):
    return Cmd([b"SISMEMBER", k, m], {"op": "sismember", "k": W(k), "m": W(m)}, "int")


def SMISMEMBER(k, ms):
    return Cmd([b"SMISMEMBER", k, *ms], {"op": "smismember", "k": W(k), "ms": [W(m) for m in ms]}, "arrI")


def SMEMBERS(k):
    return Cmd([b"SMEMBERS", k], {"op": "smembers", "k": W(k)}, "arrM")


def ZADD(k, sms, c="", g="", ch=False, incr=False, rng=None):
    opts = [x for x in (c, g, "CH" if ch else "", "INCR" if incr else "") if x]
    if rng:
        rng.shuffle(opts)
    return Cmd([b"ZADD", k] + [o.encode() for o in opts] + [x for s, m in sms for x in (fstr(s), m)],
               {"op": "zadd", "k": W(k), "c": c, "g": g, "ch": ch, "incr": incr,
                "ms": [[F(s), W(m)] for s, m in sms]}, "score" if incr else "int", risky=incr)


def ZREM(k, ms):
    return Cmd([b"ZREM", k, *ms], {"op": "zrem", "k": W(k), "ms": [W(m) for m in ms]}, "int")


def ZRANK(k, m, rev=False):
    return Cmd([b"ZREVRANK" if rev else b"ZRANK", k, m], {"op": "zrank", "k": W(k), "m": W(m), "rev": rev}, "int")


def sb_wire(x, s):
    t = {math.inf: b"+inf", -math.inf: b"-inf"}.get(s) or fstr(s)
    return (b"(" if x else b"") + t


def lb_wire(b):
    return {"min": b"-", "max": b"+"}.get(b[0]) or ((b"[" if b[0] == "in" else b"(") + b[1])


def lb_ev(b):
    return {"t": b[0], "w": W(b[1]) if len(b) > 1 else W(b"")}


def lim_wire(l):
    return [] if l is None else [b"LIMIT", b_(l[0]), b_(l[1])]


def lim_ev(l):
    return [] if l is None else num(l[0]) + num(l[1])


def _zr_ev(op, k, by, rev, lim, ws, a=0, b=0, lo=(False, 0.0), hi=(False, 0.0), llo=("min",), lhi=("max",)):
    e = {"op": op, "k": W(k), "by": by, "rev": rev, "ws": ws, "lim": lim_ev(lim)}
    if by == "rank":
        e["a"], e["b"] = num(a), num(b)
    elif by == "score":
        e["lo"] = {"x": lo[0], "s": F(lo[1])}
        e["hi"] = {"x": hi[0], "s": F(hi[1])}
    else:
        e["lo"], e["hi"] = lb_ev(llo), lb_ev(lhi)
    return e


def ZRANGE_RANK(k, a, b, rev=False, ws=False, lim=None, old=False):
    """old: the ZREVRANGE form"""
    w = [b"ZREVRANGE" if old else b"ZRANGE", k, b_(a), b_(b)]
    if rev and not old:
        w.append(b"REV")
    if not old:
        w += lim_wire(lim)
    if ws:
        w.append(b"WITHSCORES")
    return Cmd(w, _zr_ev("zrange", k, "rank", rev or old, None if old else lim, ws, a=a, b=b), "arrMS" if ws else "arrM",
               risky=abs(a) > 1 << 40 or abs(b) > 1 << 40)


def ZRANGE_SCORE(k, lo, hi, rev=False, ws=False, lim=None, old=False):
    first, second = (hi, lo) if rev else (lo, hi)
    w = [k, sb_wire(*first), sb_wire(*second)]
    if old:
        w = [b"ZREVRANGEBYSCORE" if rev else b"ZRANGEBYSCORE"] + w
        if ws:
            w.append(b"WITHSCORES")
        w += lim_wire(lim)
    else:
        w = [b"ZRANGE"] + w + [b"BYSCORE"] + ([b"REV"] if rev else []) + lim_wire(lim) + ([b"WITHSCORES"] if ws else [])
    return Cmd(w, _zr_ev("zrange", k, "score", rev, lim, ws, lo=lo, hi=hi), "arrMS" if ws else "arrM", risky=True)


def ZRANGE_LEX(k, lo, hi, rev=False, lim=None, old=False):
    first, second = (hi, lo) if rev else (lo, hi)
    w = [k, lb_wire(first), lb_wire(second)]
    if old:
        w = [b"ZREVRANGEBYLEX" if rev else b"ZRANGEBYLEX"] + w + lim_wire(lim)
    else:
        w = [b"ZRANGE"] + w + [b"BYLEX"] + ([b"REV"] if rev else []) + lim_wire(lim)
    return Cmd(w, _zr_ev("zrange", k, "lex", rev, lim, False, llo=lo, lhi=hi), "arrM", risky=True)


def ZREMRANGE_RANK(k, a, b):
    return Cmd([b"ZREMRANGEBYRANK", k, b_(a), b_(b)], _zr_ev("zremrange", k, "rank", False, None, False, a=a, b=b), "int",
               risky=abs(a) > 1 << 40 or abs(b) > 1 << 40)


def ZREMRANGE_SCORE(k, lo, hi):
    return Cmd([b"ZREMRANGEBYSCORE", k, sb_wire(*lo), sb_wire(*hi)],
               _zr_ev("zremrange", k, "score", False, None, False, lo=lo, hi=hi), "int", risky=True)


def ZREMRANGE_LEX(k, lo, hi):
    return Cmd([b"ZREMRANGEBYLEX", k, lb_wire(lo), lb_wire(hi)],
               _zr_ev("zremrange", k, "lex", False, None, False, llo=lo, lhi=hi), "int", risky=True)


def DUMP(k):
    return Cmd([b"DUMP", k], {"op": "dump", "k": W(k)}, "blob")


def RESTORE(k, n, payload, replace=False, absttl=False, rng=None, idle=None, freq=None):
    o = ([[b"REPLACE"]] if replace else []) + ([[b"ABSTTL"]] if absttl else []) + \
        ([[b"IDLETIME", b_(idle)]] if idle is not None else []) + ([[b"FREQ", b_(freq)]] if freq is not None else [])
    if rng:
        rng.shuffle(o)
    return Cmd([b"RESTORE", k, b_(n), payload] + sum(o, []),
               {"op": "restore", "k": W(k), "n": num(n), "b": PAYLOAD(payload), "rep": replace, "abs": absttl,
                "idle": -1 if idle is None else min(idle, (1 << 31) - 1), "freq": -1 if freq is None else min(freq, (1 << 31) - 1)}, "ok", risky=True)


def KNOWN(c, p):
    """an event that states what a payload taken from another server denotes (that server held the same value): a DUMP whose
    reply is the given payload"""
    c = Cmd([b"PING"], dict(c.ev), "pong", True)
    c.fixed = {"k": "blob", "v": PAYLOAD(p)}
    return c


class PAYLOAD:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = bytes(b)


def FLUSHALL(mode=None):
    return Cmd([b"FLUSHALL"] + ([mode] if mode else []), {"op": "flushall"}, "ok")


def OBJECT(sub, k):
    return Cmd([b"OBJECT", sub, k], {"op": "objinfo", "k": W(k), "sub": sub.lower().decode()}, "int")


def DEBUGOBJ(k):
    return Cmd([b"DEBUG", b"object", k], {"op": "debugobj", "k": W(k)}, "ok")


def PING():
    return Cmd([b"PING"], {"op": "ping"}, "pong")


def CONFIG():
    return Cmd([b"CONFIG", b"SET", b"a", b"b"], {"op": "config"}, "ok")


def INFO():
    return Cmd([b"INFO"], {"op": "info"}, "any")


def UNKNOWN(*args):
    return Cmd(list(args), {"op": "unknown"}, "any")


def MALFORMED(args):
    return Cmd(args, {"op": "malformed"}, "any", risky=True)


# ------------------------------------------------------------------------------------------------------- replies
def err_class(e):
    if e.startswith(b"WRONGTYPE"):
        return "wrongtype"
    if e.startswith(b"BUSYKEY"):
        return "busy"
    return "other"


NILE = ["z", "z", "z"]


def weird(v):
    return {"k": "weird", "v": [], "raw": repr(v)[:200]}


def text_of(v):
    """bytes of a scalar-like reply, or None"""
    if isinstance(v, (resp.Simple, resp.Bulk)):
        return bytes(v)
    if isinstance(v, int):
        return b"%d" % v
    return None


def decode(dec, v):
    """observed reply -> event form (with W/S placeholders)"""
    if v is None:
        return {"k": "closed", "v": []}
    if isinstance(v, resp.Error):
        return {"k": "err", "v": err_class(v)}
    if dec == "any":
        return {"k": "other", "v": []}
    if v is resp.NIL:
        return {"k": "nil", "v": []}
    if dec == "ok":
        return {"k": "ok", "v": []} if isinstance(v, resp.Simple) and v == b"OK" else weird(v)
    if dec == "pong":
        return {"k": "pong", "v": []} if isinstance(v, resp.Simple) and v == b"PONG" else weird(v)
    if dec == "int":
        return {"k": "int", "v": num(v)} if isinstance(v, int) else weird(v)
    if dec == "val":
        t = text_of(v)
        return weird(v) if t is None else {"k": "val", "v": S(t)}
    if dec == "score":
        t = text_of(v)
        try:
            return {"k": "score", "v": [F(float(t))]}
        except (ValueError, TypeError, OverflowError):
            return weird(v)
    if dec == "blob":
        return {"k": "blob", "v": PAYLOAD(v)} if isinstance(v, resp.Bulk) else weird(v)
    if not isinstance(v, list):
        return weird(v)
    out = []
    for j, x in enumerate(v):
        if x is resp.NIL:
            out.append(NILE)
            continue
        if dec == "arrI":
            if not isinstance(x, int):
                return weird(v)
            out.append(["i"] + num(x))
            continue
        t = text_of(x)
        if t is None:
            return weird(v)
        if dec == "arrS" or (dec == "map" and j % 2 == 1):
            out.append(S(t))
        elif dec == "arrMS" and j % 2 == 1:
            try:
                out.append([F(float(t))])
            except (ValueError, OverflowError):
                return weird(v)
        else:
            out.append([W(t)])
    return {"k": "arr", "v": out}


class Trace:
    """a recorded execution: list of Cmd with rep/now filled, or RESET"""

    def __init__(self):
        self.ev = []
        self.opaque = False       # scores are compared only, never added: encode any double

    def reset(self):
        self.ev.append(RESET)

    def encode(self, ev=None):
        """list of json lines; placeholders replaced by ranks of the byte strings of this trace"""
        ev = self.ev if ev is None else ev
        words, payloads = set(), {}

        def scan(x):
            if isinstance(x, W):
                words.add(x.b)
            elif isinstance(x, S):
                if canon_int(x.b) is None:
                    words.add(x.b)
            elif isinstance(x, PAYLOAD):
                payloads.setdefault(x.b, len(payloads) + 1)
            elif isinstance(x, dict):
                for y in x.values():
                    scan(y)
            elif isinstance(x, list):
                for y in x:
                    scan(y)
        for c in ev:
            if c is not RESET:
                scan(c.ev)
                scan(c.rep)
        rank = {w: i + 1 for i, w in enumerate(sorted(words))}

        def tr(x):
            if isinstance(x, W):
                return rank[x.b]
            if isinstance(x, S):
                i = canon_int(x.b)
                return ["w", rank[x.b]] if i is None else ["i"] + num(i)
            if isinstance(x, PAYLOAD):
                return payloads[x.b]
            if isinstance(x, F):
                return (score_opaque if self.opaque else score)(x.f)
            if isinstance(x, dict):
                return {k: tr(v) for k, v in x.items()}
            if isinstance(x, list):
                if len(x) == 1 and isinstance(x[0], F):
                    try:
                        return ["s"] + tr(x[0])
                    except ValueError:
                        return ["x", 0, 0, 0]
                return [tr(v) for v in x]
            return x
        lines = []
        for c in ev:
            if c is RESET:
                lines.append('{"op":"reset"}')
            else:
                d = tr(c.ev)
                d["now"] = num(c.now)
                d["r"] = tr(c.rep)
                lines.append(json.dumps(d, separators=(",", ":")))
        return lines

    def segments(self):
        segs, cur = [], []
        for c in self.ev:
            if c is RESET:
                if cur:
                    segs.append(cur)
                cur = []
            else:
                cur.append(c)
        if cur:
            segs.append(cur)
        return segs


_n = [0]


def tlc_trace(lines, xmx="3g", module="KsTrace"):
    _n[0] += 1
    p = os.path.join(core.workdir(), "trace.%d.ndjson" % _n[0])
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = core.tlc(module, env={"TRACE": p}, xmx=xmx, timeout=850)
    if r.ok:
        os.unlink(p)
    return r, p


def check_trace(chk, tr, what, jobs=None, maxev=None, module="KsTrace"):
    """Let TLC decide whether the recorded trace is a behaviour of Keyspace (or of another module over the same events). Reports to chk; returns True when accepted."""
    segs = tr.segments()
    jobs = jobs or core.NCPU
    total = sum(len(s) for s in segs)
    if not total:
        return True
    per = max(400, min(total // jobs + 1, maxev or 20000))
    # chunk whole segments; a segment is never split
    chunks, cur, n = [], [], 0
    for s in segs:
        if cur and n + len(s) > per:
            chunks.append(cur)
            cur, n = [], 0
        cur.append(s)
        n += len(s)
    if cur:
        chunks.append(cur)

    def one(ch):
        evs = []
        for s in ch:
            evs.append(RESET)
            evs.extend(s)
        lines = tr.encode(evs)
        r, p = tlc_trace(lines, module=module)
        return ch, evs, r
    res = core.parallel([lambda ch=ch: one(ch) for ch in chunks], jobs)
    good = True
    for ch, evs, r in res:
        if r.ok:
            chk.traces += len(ch)
            chk.events += sum(len(s) for s in ch)
            continue
        mm, rj = r.prints("MISMATCH"), r.prints("REJECTED")
        if not mm and not rj:
            import sys
            print(r.out[-3000:], file=sys.stderr)
            raise core.ToolError("TLC failed while checking a trace")
        pos = (mm[0]["i"] if mm else rj[0]["reached"]) - 1   # 0-based index in evs
        pos = min(pos, len(evs) - 1)
        start = max(i for i in range(pos + 1) if evs[i] is RESET)
        bad = evs[pos]
        keys = set(map(repr, _keys(bad)))
        hist = [c for c in evs[start + 1:pos] if keys & set(map(repr, _keys(c))) or not keys][-40:]
        exp = json.dumps(mm[0]["exp"]) if mm else "a transition of the specification"
        line = "%s: %s at +%sms answered %s; the specification requires %s" % (
            what, bad.text(), bad.now, brief(bad.rep), exp)
        good = False
        rep = [line, "", "last commands on the same keys (clock: command -> reply):"]
        rep += ["  %s: %s -> %s" % (c.now, c.text(), brief(c.rep)) for c in hist + [bad]]
        chk.violation(line, "\n".join(rep))
    return good


def _keys(c):
    if c is RESET:
        return []
    e = c.ev
    return [e["k"].b] if "k" in e else [w.b for w in e.get("ks", [])]


def brief(r):
    def f(x):
        if isinstance(x, (W, S)):
            return repr(x.b[:60])
        if isinstance(x, F):
            return repr(x.f)
        if isinstance(x, PAYLOAD):
            return "payload(%d bytes)" % len(x.b)
        if isinstance(x, list):
            if len(x) == 3 and all(isinstance(y, int) for y in x):
                return str((x[0] * B + x[1]) * B + x[2])
            return "[" + ", ".join(f(y) for y in x[:40]) + ("..." if len(x) > 40 else "") + "]"
        return str(x)
    return "none" if r is None else r["k"] + (" " + f(r["v"]) if r["v"] != [] else "") + (" " + r["raw"] if "raw" in r else "")


class Driver:
    """executes Cmds on a real node over one connection, recording replies into a Trace"""

    def __init__(self, nd, trace=None, base=None, batch=64):
        self.nd, self.tr, self.batch = nd, trace if trace is not None else Trace(), batch
        self.cl = None
        self.pending = []
        self.timeouts = 0

    def conn(self):
        if self.cl is None:
            self.cl = node.Client(self.nd.addr)
        return self.cl

    def drop(self):
        if self.cl:
            self.cl.close()
        self.cl = None

    def do(self, c):
        self.pending.append(c)
        if c.risky or len(self.pending) >= self.batch:
            self.flush()
        return c

    def run(self, c):
        self.do(c)
        self.flush()
        return c.rep

    def reset(self):
        self.flush()
        self.tr.reset()

    def flush(self):
        while self.pending:
            cl = self.conn()
            ps, self.pending = self.pending, []
            done = 0
            try:
                cl.send(b"".join(c.bytes() for c in ps))
                for c in ps:
                    v = cl.read()
                    c.raw = v
                    c.rep = c.fixed or decode(c.dec, v)
                    c.now = self.nd.now
                    self.tr.ev.append(c)
                    done += 1
            except (resp.Closed, resp.Bad, TimeoutError) as e:
                self.drop()
                c = ps[done]
                c.now = self.nd.now
                if isinstance(e, resp.Closed):
                    c.rep = {"k": "closed", "v": []}
                else:
                    c.rep = {"k": "weird", "v": [], "raw": "%s %s" % (type(e).__name__, e)}
                self.tr.ev.append(c)
                self.pending = ps[done + 1:]
                self.timeouts += isinstance(e, TimeoutError)
                if not self.nd.alive() or self.timeouts > 1:
                    last = "; ".join(x.text() for x in self.tr.ev[-12:] if x is not RESET)
                    raise node.Dead("%s after: %s %s" % ("server does not answer" if self.nd.alive() else "server process died", last,
                                                         self.nd.stderr()[-300:]))

    def set_now(self, ms):
        self.flush()
        self.nd.set_now(ms)
