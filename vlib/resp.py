"""RESP client side: encoding requests, strict decoding of replies."""


class Closed(Exception):
    pass


class Bad(Exception):
    """the bytes received are not well-formed RESP"""


def enc(args):
    out = [b"*%d\r\n" % len(args)]
    for a in args:
        if isinstance(a, RawFrame):
            out.append(a.b)
        else:
            out.append(b"$%d\r\n%s\r\n" % (len(a), a))
    return b"".join(out)


class RawFrame:
    """an already encoded frame used as an argument"""

    def __init__(self, b):
        self.b = b


class Simple(bytes):
    pass


class Bulk(bytes):
    pass


class Error(bytes):
    pass


class Nil:
    def __repr__(self):
        return "nil"


NIL = Nil()


def parse(buf, pos):
    """returns (value, newpos) or None when incomplete; raises Bad"""
    if pos >= len(buf):
        return None
    e = buf.find(b"\r\n", pos)
    t = buf[pos:pos + 1]
    if t not in b"+-:$*":
        raise Bad("unexpected byte %r at %d: %r" % (t, pos, bytes(buf[pos:pos + 60])))
    if e < 0:
        if len(buf) - pos > 1 << 20 and t in b":$*":
            raise Bad("unterminated header")
        return None
    line = bytes(buf[pos + 1:e])
    if b"\n" in line or b"\r" in line:
        raise Bad("CR or LF inside a line reply: %r" % line[:80])
    p = e + 2
    if t == b"+":
        return Simple(line), p
    if t == b"-":
        return Error(line), p
    if t == b":":
        if not (line.lstrip(b"-").isdigit()):
            raise Bad("bad integer %r" % line[:40])
        return int(line), p
    if t == b"$":
        if line == b"-1":
            return NIL, p
        if not line.isdigit():
            raise Bad("bad bulk length %r" % line[:40])
        n = int(line)
        if len(buf) < p + n + 2:
            return None
        if bytes(buf[p + n:p + n + 2]) != b"\r\n":
            raise Bad("bulk not terminated by CRLF")
        return Bulk(buf[p:p + n]), p + n + 2
    if line == b"-1":
        return NIL, p
    if not line.isdigit():
        raise Bad("bad array length %r" % line[:40])
    res = []
    for _ in range(int(line)):
        r = parse(buf, p)
        if r is None:
            return None
        res.append(r[0])
        p = r[1]
    return res, p
