"""The server's binary encodings (bincode 1, fixed-width little endian): replication messages, snapshot stream, PD payloads."""
import io, math, struct
from . import resp


class Short(Exception):
    pass


class Malformed(Exception):
    pass


class R:
    """reader over a byte buffer; raises Short when more bytes are needed"""

    def __init__(self, b, pos=0):
        self.b, self.p = b, pos

    def take(self, n):
        if self.p + n > len(self.b):
            raise Short()
        r = bytes(self.b[self.p:self.p + n])
        self.p += n
        return r

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        return struct.unpack("<H", self.take(2))[0]

    def u32(self):
        return struct.unpack("<I", self.take(4))[0]

    def u64(self):
        return struct.unpack("<Q", self.take(8))[0]

    def i64(self):
        return struct.unpack("<q", self.take(8))[0]

    def f64(self):
        return struct.unpack("<d", self.take(8))[0]

    def bool(self):
        v = self.u8()
        if v > 1:
            raise Malformed("bool %d" % v)
        return v == 1

    def bytes(self):
        n = self.u64()
        if n > 1 << 32:
            raise Malformed("length %d" % n)
        return self.take(n)

    def vec(self, f):
        n = self.u64()
        if n > 1 << 32:
            raise Malformed("length %d" % n)
        return [f() for _ in range(n)]

    def opt(self, f):
        t = self.u8()
        if t > 1:
            raise Malformed("option tag %d" % t)
        return f() if t else None

    def variant(self, n):
        t = self.u32()
        if t >= n:
            raise Malformed("variant %d of %d" % (t, n))
        return t

    def node(self):
        s = self.f64()
        return s, self.bytes()

    def data(self):
        """-> (type, value): ("null",), ("str", bytes), ("list",[bytes]), ("hash",{}), ("set",set), ("zset",{m:score})"""
        t = self.variant(9)
        if t == 0:
            return "null", None
        if t in (1, 2):
            return "str", self.bytes()
        if t == 3:
            return "str", b"%d" % self.i64()
        if t == 4:
            from .ks import fstr
            return "str", fstr(self.f64())
        if t == 5:
            l = self.vec(lambda: (self.bytes(), self.scalar()))
            if len(dict(l)) != len(l):
                raise Malformed("duplicate hash field")
            return "hash", dict(l)
        if t == 6:
            return "list", self.vec(self.scalar)
        if t == 7:
            l = self.vec(self.bytes)
            return "set", set(l)
        h = self.vec(lambda: (self.bytes(), self.node()))
        v = self.vec(self.node)
        hs = {k: n[0] for k, n in h}
        vs = {m: s for s, m in v}
        if hs != vs or len(v) != len(vs) or any(n[1] != k for k, n in h):
            raise Malformed("sorted set index and order disagree: %r %r" % (h, v))
        if [(s, m) for s, m in v] != sorted((s, m) for s, m in v):
            raise Malformed("sorted set out of order: %r" % (v,))
        return "zset", hs

    def scalar(self):
        t, v = self.data()
        if t not in ("str", "null"):
            raise Malformed("collection inside a collection")
        return v

    def nxxx(self):
        return ("NX", "XX", "")[self.variant(3)]

    def gtlt(self):
        return ("GT", "LT", "")[self.variant(3)]

    def bound(self, f):
        t = self.variant(3)
        return ("un",) if t == 0 else ("in", f()) if t == 1 else ("ex", f())

    def message(self):
        m = {"id": self.u64(), "slot": self.u64()}
        t = self.variant(17)
        n = m["cmd"] = CMDS[t]
        if n == "None":
            return m
        m["key"] = self.bytes()
        if n == "Expire":
            m.update(at=self.u64(), nx=self.nxxx(), gt=self.gtlt())
        elif n == "Incr":
            m.update(n=self.i64())
        elif n == "Set":
            m.update(value=self.data(), at=None)
            if self.variant(2) == 0:
                m["at"] = self.u64()
            m["nx"] = self.nxxx()
        elif n == "KvpDel":
            m.update(fields=self.vec(self.bytes))
        elif n == "KvpIncr":
            m.update(field=self.bytes(), n=self.i64())
        elif n == "KvpSet":
            m.update(entries=self.vec(lambda: (self.bytes(), self.scalar())), nx=self.nxxx())
        elif n == "DequePop":
            m.update(n=self.u64(), left=self.bool())
        elif n == "DequePush":
            m.update(elements=self.vec(self.scalar), left=self.bool(), nx=self.nxxx())
        elif n in ("SetAdd", "SetRemove", "SortedSetRemove"):
            m.update(members=self.vec(self.bytes))
        elif n == "SortedSetAdd":
            m.update(nodes=self.vec(self.node), nx=self.nxxx(), gt=self.gtlt(), incr=self.bool())
        elif n == "SortedSetRemoveByRankRange":
            m.update(a=self.i64(), b=self.i64(), rev=self.bool())
        elif n == "SortedSetRemoveByScoreRange":
            m.update(lo=self.bound(self.f64), hi=self.bound(self.f64), rev=self.bool())
        elif n == "SortedSetRemoveByLexRange":
            m.update(lo=self.bound(self.bytes), hi=self.bound(self.bytes), rev=self.bool())
        return m

    def dict(self):
        """MemDict -> (write_id, {key: (type, value, expires_at, visit_log)})"""
        wid = self.u64()
        out = {}
        for _ in range(self.u64()):
            k = self.bytes()
            t, v = self.data()
            if k in out:
                raise Malformed("key twice in a slot")
            out[k] = (t, v, self.u64(), self.u64())
        return wid, out

    def addr(self):
        if self.variant(2) == 0:
            return ".".join(str(x) for x in self.take(4)), self.u16()
        h = self.take(16)
        return h.hex(), self.u16()

    def leader(self):
        return {"id": self.u64(), "server": self.addr(), "forward": self.addr()}

    def status(self):
        return {"id": self.u64(), "group": self.u64(), "role": ("leader", "follower")[self.variant(2)], "leader": self.opt(self.leader)}

    def opt_status(self):
        return self.opt(self.status)

    def init(self):
        return {"group": self.u64(), "server": self.addr(), "forward": self.addr()}

    def done(self):
        if self.p != len(self.b):
            raise Malformed("%d bytes left over" % (len(self.b) - self.p))


CMDS = ["Del", "Expire", "Incr", "Set", "KvpDel", "KvpIncr", "KvpSet", "DequePop", "DequePush", "SetAdd", "SetRemove", "SortedSetAdd",
        "SortedSetRemove", "SortedSetRemoveByRankRange", "SortedSetRemoveByScoreRange", "SortedSetRemoveByLexRange", "None"]


def decode(b, what):
    r = R(b)
    v = getattr(r, what)()
    r.done()
    return v


# --------------------------------------------------------------------------------------------------------------- writing
def u16(x):
    return struct.pack("<H", x)


def u32(x):
    return struct.pack("<I", x)


def u64(x):
    return struct.pack("<Q", x)


def i64(x):
    return struct.pack("<q", x)


def bs(b):
    return u64(len(b)) + b


def vec(l, f):
    return u64(len(l)) + b"".join(f(x) for x in l)


def node(sm):
    return struct.pack("<d", sm[0]) + bs(sm[1])


def data(t, v):
    from .ks import canon_int
    if t == "null":
        return u32(0)
    if t == "str":
        i = canon_int(v)
        return u32(2) + bs(v) if i is None else u32(3) + i64(i)
    if t == "hash":
        return u32(5) + vec(list(v.items()), lambda p: bs(p[0]) + data("str", p[1]))
    if t == "list":
        return u32(6) + vec(v, lambda x: data("str", x))
    if t == "set":
        return u32(7) + vec(sorted(v), bs)
    l = sorted((s, m) for m, s in v.items())
    return u32(8) + vec(l, lambda p: bs(p[1]) + node(p)) + vec(l, node)


def nx(x):
    return u32({"NX": 0, "XX": 1, "": 2}[x])


def gt(x):
    return u32({"GT": 0, "LT": 1, "": 2}[x])


def bo(x):
    return b"\x01" if x else b"\x00"


def bound(b, f):
    return u32(0) if b[0] == "un" else u32(1 if b[0] == "in" else 2) + f(b[1])


def message(m):
    n = m["cmd"]
    out = u64(m["id"]) + u64(m["slot"]) + u32(CMDS.index(n))
    if n == "None":
        return out
    out += bs(m["key"])
    d = struct.Struct("<d").pack
    if n == "Expire":
        out += u64(m["at"]) + nx(m["nx"]) + gt(m["gt"])
    elif n == "Incr":
        out += i64(m["n"])
    elif n == "Set":
        out += data(*m["value"]) + (u32(1) if m["at"] is None else u32(0) + u64(m["at"])) + nx(m["nx"])
    elif n == "KvpDel":
        out += vec(m["fields"], bs)
    elif n == "KvpIncr":
        out += bs(m["field"]) + i64(m["n"])
    elif n == "KvpSet":
        out += vec(m["entries"], lambda p: bs(p[0]) + data("str", p[1])) + nx(m["nx"])
    elif n == "DequePop":
        out += u64(m["n"]) + bo(m["left"])
    elif n == "DequePush":
        out += vec(m["elements"], lambda x: data("str", x)) + bo(m["left"]) + nx(m["nx"])
    elif n in ("SetAdd", "SetRemove", "SortedSetRemove"):
        out += vec(m["members"], bs)
    elif n == "SortedSetAdd":
        out += vec(m["nodes"], node) + nx(m["nx"]) + gt(m["gt"]) + bo(m["incr"])
    elif n == "SortedSetRemoveByRankRange":
        out += i64(m["a"]) + i64(m["b"]) + bo(m["rev"])
    elif n == "SortedSetRemoveByScoreRange":
        out += bound(m["lo"], d) + bound(m["hi"], d) + bo(m["rev"])
    elif n == "SortedSetRemoveByLexRange":
        out += bound(m["lo"], bs) + bound(m["hi"], bs) + bo(m["rev"])
    return out


def memdict(wid, entries):
    return u64(wid) + vec(list(entries.items()), lambda p: bs(p[0]) + data(p[1][0], p[1][1]) + u64(p[1][2]) + u64(p[1][3]))


def addr(a):
    if len(a[0]) == 32:
        return u32(1) + bytes.fromhex(a[0]) + u16(a[1])
    return u32(0) + bytes(int(x) for x in a[0].split(".")) + u16(a[1])


def leader(l):
    return u64(l["id"]) + addr(l["server"]) + addr(l["forward"])


def opt(x, f):
    return b"\x00" if x is None else b"\x01" + f(x)


def status(s):
    return u64(s["id"]) + u64(s["group"]) + u32(0 if s["role"] == "leader" else 1) + opt(s["leader"], leader)


def init(i):
    return u64(i["group"]) + addr(i["server"]) + addr(i["forward"])
