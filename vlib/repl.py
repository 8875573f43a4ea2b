"""Talking the replication and placement-driver protocols: snapshots, the write stream, fake leader, fake PD."""
import os, random, socket, struct, threading, time
from . import bincode, core, ks, node, resp

SLOTS = 16384
SYNC_CMD = b"*1\r\n$7\r\nsynccmd\r\n"


def ip(n=None):
    """a loopback address of this run's own, so that fixed ports never collide between concurrent checks"""
    r = random.Random(os.getpid() * 7919 + time.monotonic_ns() + (n or 0))
    return "127.%d.%d.%d" % (r.randrange(1, 255), r.randrange(0, 255), r.randrange(1, 255))


def snapshot(addr, slot=SLOTS, timeout=60, raws=None):
    """{slot: (write_id, {key: (type, value, at, log)})} as served to a replica; raises Incomplete"""
    c = node.Client(addr, timeout=timeout)
    try:
        c.send(b"*2\r\n$12\r\nsyncsnapshot\r\n:%d\r\n" % slot)
        return read_snapshot(c.s, raws)
    finally:
        c.close()


class Incomplete(Exception):
    pass


def read_snapshot(s, raws=None):
    buf = bytearray()
    try:
        while True:
            d = s.recv(1 << 20)
            if not d:
                break
            buf += d
    except (ConnectionError, TimeoutError) as e:
        raise Incomplete("snapshot stream: %s after %d bytes" % (type(e).__name__, len(buf)))
    return parse_snapshot(bytes(buf), raws)


def parse_snapshot(buf, raws=None):
    r = bincode.R(buf)
    out = {}
    try:
        while True:
            s = r.opt(r.u16)
            if s is None:
                break
            if s in out or s >= SLOTS:
                raise Incomplete("slot %d twice or out of range" % s)
            at = r.p
            out[s] = r.dict()
            if raws is not None:
                raws[s] = bytes(buf[at:r.p])
        r.done()
    except bincode.Short:
        raise Incomplete("snapshot stream ends early (%d bytes)" % len(buf))
    except bincode.Malformed as e:
        raise Incomplete("snapshot stream malformed: %s" % e)
    return out


class Stream:
    """a subscriber of a leader's write stream; a thread records every message with its arrival order"""

    def __init__(self, addr, timeout=20, raw=False, rcvbuf=None):
        self.raw = raw
        self.reading, self.piece = threading.Event(), 1 << 20
        self.reading.set()
        t = time.time()
        while True:
            try:
                self.s = socket.socket()
                self.s.settimeout(5)
                if rcvbuf:
                    self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
                self.s.connect(addr)
                break
            except OSError:
                if time.time() - t > timeout:
                    raise
                time.sleep(.02)
        self.s.settimeout(None)
        self.msgs, self.error, self.none = [], None, 0
        self.cv = threading.Condition()
        self.buf = bytearray()
        self.s.sendall(SYNC_CMD)
        self.th = threading.Thread(target=self._run, daemon=True)
        self.th.start()
        self.wait(lambda: self.none > 0, 20)

    def _run(self):
        buf, pos = bytearray(), 0
        try:
            while True:
                self.reading.wait()
                d = self.s.recv(self.piece)
                if not d:
                    break
                buf += d
                got = []
                while True:
                    r = bincode.R(buf, pos)
                    try:
                        m = r.message()
                    except bincode.Short:
                        break
                    if self.raw:
                        m["raw"] = bytes(buf[pos:r.p])
                    got.append(m)
                    pos = r.p
                del buf[:pos]
                pos = 0
                with self.cv:
                    for m in got:
                        if m["cmd"] == "None":
                            self.none += 1
                            if m["id"] or m["slot"]:
                                self.error = "a heartbeat carries data: %r" % m
                        else:
                            m["t"] = time.monotonic()
                            self.msgs.append(m)
                    self.cv.notify_all()
        except bincode.Malformed as e:
            self.error = "malformed message: %s" % e
        except OSError:
            pass
        with self.cv:
            self.cv.notify_all()

    def ping(self):
        self.s.sendall(b"+PING\r\n")

    def wait(self, pred, timeout=20):
        with self.cv:
            return self.cv.wait_for(lambda: self.error or pred(), timeout)

    def wait_key(self, key, timeout=20):
        """until a message naming key has arrived"""
        return self.wait(lambda: any(m["key"] == key for m in self.msgs[-400:]), timeout)

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()


# ------------------------------------------------------------------------------------------------- fake leader, fake PD
class Server:
    """accept loop on a fixed loopback address; handler(conn) in a thread per connection"""

    def __init__(self, addr, handler):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(addr)
        self.l.listen(64)
        self.addr = self.l.getsockname()
        self.conns, self.closed = [], False
        self.handler = handler
        threading.Thread(target=self._run, daemon=True).start()

    def _run(self):
        while True:
            try:
                c, _ = self.l.accept()
            except OSError:
                return
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.conns.append(c)
            threading.Thread(target=self._one, args=(c,), daemon=True).start()

    def _one(self, c):
        try:
            self.handler(c)
        except (OSError, resp.Closed, resp.Bad):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def kill_conns(self):
        for c in self.conns:
            try:
                c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
        self.conns = []

    def close(self):
        self.closed = True
        try:
            self.l.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.l.close()
        self.kill_conns()


class Frames:
    """incremental RESP reader of a socket"""

    def __init__(self, s):
        self.s, self.buf, self.pos = s, bytearray(), 0

    def read(self):
        while True:
            r = resp.parse(self.buf, self.pos)
            if r is not None:
                self.pos = r[1]
                return r[0]
            d = self.s.recv(1 << 16)
            if not d:
                raise resp.Closed("EOF")
            if self.pos:
                del self.buf[:self.pos]
                self.pos = 0
            self.buf += d


class FakePD:
    """a placement driver whose view is set by the test; records everything the servers report"""

    def __init__(self, host, port=7000):
        self.view = {}            # server id -> status to tell
        self.log = []             # (t, kind, payload, answer)
        self.next = 0
        self.by_addr = {}
        self.lock = threading.Condition()
        self.mute = False         # answer nothing
        self.on_init = None
        self.srv = Server((host, port), self._conn)
        self.addr = self.srv.addr

    def _conn(self, c):
        f = Frames(c)
        while True:
            v = f.read()
            name = bytes(v[0]).lower()
            body = bytes(v[1]) if len(v) > 1 else b""
            with self.lock:
                while self.mute:
                    self.lock.wait(.05)
                if name == b"pd_sever_init":
                    q = bincode.decode(body, "init")
                    a = self.on_init(q) if self.on_init else self._init(q)
                    if isinstance(a, bytes):
                        out = b"-%s\r\n" % a
                    else:
                        b = bincode.status(a)
                        out = b"$%d\r\n%s\r\n" % (len(b), b)
                    self.log.append((time.monotonic(), "init", q, a))
                elif name == b"pd_sever_heartbeat":
                    q = bincode.decode(body, "status")
                    cur = self.view.get(q["id"])
                    a = None if cur is None or cur == q else cur
                    b = bincode.opt(a, bincode.status)
                    out = b"$%d\r\n%s\r\n" % (len(b), b)
                    self.log.append((time.monotonic(), "hb", q, a))
                else:
                    out = b"+OK\r\n"
                    self.log.append((time.monotonic(), name.decode("latin1"), body, None))
                self.lock.notify_all()
            c.sendall(out)

    def _init(self, q):
        self.next += 1
        st = self.view.get(self.next)
        if st is None:
            st = self.view[self.next] = {"id": self.next, "group": q["group"], "role": "leader", "leader": {"id": self.next, "server": q["server"], "forward": q["forward"]}}
        self.by_addr[q["server"]] = self.next
        return st

    def tell(self, sid, st):
        with self.lock:
            self.view[sid] = dict(st, id=sid)

    def wait(self, pred, timeout):
        with self.lock:
            return self.lock.wait_for(lambda: pred(self.log), timeout)

    def close(self):
        self.srv.close()


def server_node(binary, host, port=6379, fwd=7379, pd=None, group=1, freeze=None, workers=4, env=None, name=None, wait=True):
    """a real server on fixed loopback addresses, registered with the driver at pd when given"""
    e = {"RUDIS_server_addr": "%s:%d" % (host, port), "RUDIS_forward_addr": "%s:%d" % (host, fwd)}
    e.update(env or {})
    if pd:
        p = os.path.join(core.workdir(), "conf.%d.yml" % time.monotonic_ns())
        with open(p, "w") as f:
            f.write("from_pd:\n  addr: \"%s:%d\"\n  group_id: %d\n" % (pd[0], pd[1], group))
        e["RUDIS_CONFIG"] = p
    n = node.Node(binary, freeze=freeze, workers=workers, bind="%s:%d" % (host, port), env=e, name=name)
    n.fwd = (host, fwd)
    return n


# ------------------------------------------------------------------------------------- messages and snapshots as spec events
def value_ev(t, v):
    if t in ("str", "null"):
        return ks.S(v or b"")
    if t == "list":
        return [ks.S(x) for x in v]
    if t == "hash":
        return [[ks.W(f), ks.S(x)] for f, x in v.items()]
    if t == "set":
        return [ks.W(m) for m in v]
    return [[ks.W(m), ks.F(s)] for m, s in v.items()]


def dl(at):
    """deadline in a set-style option"""
    return ["KEEPTTL"] if at is None else [] if at == 0 else ["PXAT"] + ks.num(at)


def msg_ev(m):
    n, k = m["cmd"], ks.W(m["key"])
    W, S, F, num = ks.W, ks.S, ks.F, ks.num
    if n == "Del":
        return {"op": "del", "ks": [k]}
    if n == "Expire":
        return {"op": "expire", "k": k, "n": num(m["at"]), "u": "ms", "abs": True, "f": [x for x in (m["nx"], m["gt"]) if x]}
    if n == "Incr":
        return {"op": "incrby", "k": k, "n": num(m["n"])}
    if n == "Set":
        t, v = m["value"]
        if t == "str":
            return {"op": "set", "k": k, "v": S(v), "c": m["nx"], "ex": dl(m["at"]), "get": False}
        return {"op": "put", "k": k, "t": t, "v": value_ev(t, v), "c": m["nx"], "ex": dl(m["at"])}
    if n == "KvpDel":
        return {"op": "hdel", "k": k, "fs": [W(f) for f in m["fields"]]}
    if n == "KvpIncr":
        return {"op": "hincrby", "k": k, "f": W(m["field"]), "n": num(m["n"])}
    if n == "KvpSet":
        if m["nx"] == "NX" and len(m["entries"]) == 1:
            return {"op": "hsetnx", "k": k, "f": W(m["entries"][0][0]), "v": S(m["entries"][0][1])}
        return {"op": "hset", "k": k, "fv": [[W(f), S(v)] for f, v in m["entries"]]}
    if n == "DequePop":
        return {"op": "pop", "k": k, "n": num(m["n"]), "left": m["left"]}
    if n == "DequePush":
        return {"op": "push", "k": k, "vs": [S(v) for v in m["elements"]], "left": m["left"], "x": m["nx"] == "XX"}
    if n == "SetAdd":
        return {"op": "sadd", "k": k, "ms": [W(x) for x in m["members"]]}
    if n == "SetRemove":
        return {"op": "srem", "k": k, "ms": [W(x) for x in m["members"]]}
    if n == "SortedSetRemove":
        return {"op": "zrem", "k": k, "ms": [W(x) for x in m["members"]]}
    if n == "SortedSetAdd":
        return {"op": "zadd", "k": k, "c": m["nx"], "g": m["gt"], "ch": False, "incr": m["incr"], "ms": [[F(s), W(x)] for s, x in m["nodes"]]}
    e = {"op": "zremrange", "k": k, "rev": m["rev"], "ws": False, "lim": []}
    if n == "SortedSetRemoveByRankRange":
        e.update(by="rank", a=num(m["a"]), b=num(m["b"]))
    elif n == "SortedSetRemoveByScoreRange":
        e.update(by="score")
        for x, inf in (("lo", -ks.math.inf), ("hi", ks.math.inf)):
            b = m[x]
            e[x] = {"x": b[0] == "ex", "s": F(inf if b[0] == "un" else b[1])}
    else:
        e.update(by="lex")
        for x, un in (("lo", "min"), ("hi", "max")):
            b = m[x]
            e[x] = {"t": un if b[0] == "un" else b[0], "w": W(b[1] if len(b) > 1 else b"")}
    return e


def brief_msg(m):
    return "message slot %d id %d: %s" % (m["slot"], m["id"], " ".join("%s=%r" % (k, v) for k, v in m.items() if k not in ("slot", "id", "t", "_done")))[:300]


def msg_cmd(m, now):
    """a message of a write stream as an event of the replayed keyspace (no reply of its own)"""
    ev = msg_ev(m)
    ev["slot"], ev["id"] = m["slot"], m["id"]
    c = ks.Cmd([brief_msg(m).encode()], ev, "any")
    c.rep = {"k": "skip", "v": []}
    c.now = now
    return c


def contents_cmd(snap, now, ids=True, what="snapshot", only=None, dead=None):
    """a snapshot as an event: the keyspace must hold exactly this"""
    out, idl = [], []
    for s, (wid, d) in sorted(snap.items()):
        if only is not None and s not in only:
            continue
        if wid:
            idl.append([s, wid])
        for k, (t, v, at, log) in sorted(d.items()):
            out.append([ks.W(k), t, value_ev(t, v), ks.num(at) if at else []])
    ev = {"op": "contents"}
    if dead is not None:
        ev["dead"] = ks.num(dead)
    if ids:
        ev["ids"] = idl
    c = ks.Cmd([what.encode()], ev, "any")
    c.rep = {"k": "contents", "v": out}
    c.now = now
    return c


def restrict(c, f):
    """the part of a contents event that is about the keys with f(key)"""
    q = ks.Cmd(c.wire, dict(c.ev), "any")
    q.rep = {"k": "contents", "v": [x for x in c.rep["v"] if f(x[0].b)]}
    q.now = c.now
    return q
