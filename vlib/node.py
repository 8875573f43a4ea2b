"""Starting real server / pd processes (harness binary) and talking to them."""
import os, re, select, signal, socket, subprocess, sys, time
from . import core, resp


class Node:
    def __init__(self, binary, mode="server", freeze=None, env=None, workers=4, bind="127.0.0.1:0", name=None, vmem_kb=None):
        e = dict(os.environ)
        for k in list(e):
            if k.startswith("RUDIS_"):
                del e[k]
        e["RUDIS_CONFIG"] = os.path.join(core.workdir(), "no-such-config")
        e["RUST_BACKTRACE"] = "0"
        e["VNODE_WORKERS"] = str(workers)
        if freeze is not None:
            e["VNODE_FREEZE"] = str(freeze)
        e.update({k: str(v) for k, v in (env or {}).items()})
        self.now = freeze
        self.errpath = os.path.join(core.workdir(), "%s.%d.err" % (name or mode, time.monotonic_ns()))
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen([binary, mode, bind], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=e, cwd=core.workdir(), start_new_session=True)
        line = self._line(20)
        m = re.match(rb"listening (\S+):(\d+)", line)
        if not m:
            self.kill()
            raise NotStarted("node did not start: %r %s" % (line, self.stderr()[-500:]))
        self.addr = (m.group(1).decode(), int(m.group(2)))

    def _line(self, timeout):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        return self.p.stdout.readline() if r else b""

    def control(self, s):
        try:
            self.p.stdin.write(s.encode() + b"\n")
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            raise Dead("process is gone")
        r = self._line(20)
        if r.strip() != b"ok":
            raise Dead("control channel: %r" % r)

    def set_now(self, ms):
        if ms != self.now:
            self.control("freeze %d" % ms)
            self.now = ms

    def alive(self):
        return self.p.poll() is None

    def stderr(self):
        try:
            return open(self.errpath, "rb").read().decode("utf8", "replace")
        except OSError:
            return ""

    def panics(self):
        return [l for l in self.stderr().splitlines() if "panicked at" in l or "overflowed its stack" in l]

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass

    def pause(self):
        os.kill(self.p.pid, signal.SIGSTOP)

    def cont(self):
        os.kill(self.p.pid, signal.SIGCONT)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.kill()


class NotStarted(Exception):
    pass


class Dead(Exception):
    pass


class Client:
    def __init__(self, addr, timeout=20, connect_timeout=10):
        self.s = socket.create_connection(addr, timeout=connect_timeout)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.settimeout(timeout)
        self.buf = bytearray()
        self.pos = 0

    def send(self, b):
        try:
            self.s.sendall(b)
        except (ConnectionError, BrokenPipeError) as e:
            raise resp.Closed(str(e))

    def _more(self):
        try:
            # the server answers a pipeline with many small writes; without this Nagle + delayed ACK cost 40 ms a batch
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
            d = self.s.recv(1 << 18)
        except ConnectionError as e:
            raise resp.Closed(str(e))
        if not d:
            raise resp.Closed("EOF")
        if self.pos:
            del self.buf[:self.pos]
            self.pos = 0
        self.buf += d

    def read(self):
        while True:
            r = resp.parse(self.buf, self.pos)
            if r is not None:
                self.pos = r[1]
                return r[0]
            self._more()

    def cmd(self, *args):
        self.send(resp.enc([a if isinstance(a, (bytes, resp.RawFrame)) else str(a).encode() for a in args]))
        return self.read()

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass
