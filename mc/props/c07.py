"""C07: exactly-once, ordered, boundary-preserving delivery between two real endpoints, all operation sequences to a depth."""
import itertools
from collections import deque

from .. import ref, sess
from ..env import S

BATCHES = [((b"a",), False), ((b"",), False), ((b"b1", b"b2"), False), ((b"", b"x", b""), False), ((b"L",), True),
           ((b"l1", b"l2"), True), ((b"p", bytes(65536), b"q"), False), ((bytes([7]) * 65536, b"r"), True)]
OPS = [("w", e, b) for e in "CS" for b in range(len(BATCHES))] + [("r", e) for e in "CS"]
SIZES = [0, 1, 2, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 102, 127, 128, 129, 250, 251, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096,
         32767, 32768, 65519, 65520, 65529, 65530, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 1 << 20]
COUNTS = [2, 3, 4, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 32766, 32767, 32768, 65534, 65535, 65536, 65537]
BOUNDS = {
    "quick": "4 buffering configurations x all operation sequences of length 3 over 18 operations (16 write shapes in two directions, "
             "reads), then draining; 42 message sizes x 7 batch positions and 6 further contents x both directions; 19 message counts up to 65537; 80 counts x 8 patterns of empty, equal and oversized messages; 1000 sizes around powers of two minus headers; 2^24+1 bytes; buffers changed after the write; "
             "4883 contents (every byte alone, first, last, look-alikes of packets); backlogs of 16..3000 writes",
    "thorough": "operation sequences of length 4; every size 0..2100 and 65400..65700; counts up to 131073; 70000 writes in sequence"
}


def setup():
    sess.setup()


def units(tier):
    us = []
    d = 3 if tier == "quick" else 4
    for i in range(4):
        for a in range(len(OPS)):
            us.append(dict(kind="seq", cfg=i, first=a, depth=d))
        for e in "CS":
            us.append(dict(kind="sizes", cfg=i, end=e))
    for e in "CS":
        us.append(dict(kind="counts", end=e, counts=[n for n in COUNTS if n < 30000]))
        for n in COUNTS + ([65538, 98304, 131071, 131072, 131073] if tier == "thorough" else []):
            if n >= 30000:
                us.append(dict(kind="counts", end=e, counts=[n]))
        us += [dict(kind="empties", end=e, part=p) for p in range(2)]
        us.append(dict(kind="aligned", end=e))
        us.append(dict(kind="mixed", end=e))
        us.append(dict(kind="huge", end=e))
        us += [dict(kind="contents", end=e, cfg=c) for c in range(4)]
        us.append(dict(kind="backlog", end=e))
    if tier == "thorough":
        for e in "CS":
            us.append(dict(kind="many", end=e, n=70000))
    return sorted(us, key=lambda u: u["kind"] == "seq")


class Model:
    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.p = sess.Pair(buf2=bool(cfg & 1), buf4=bool(cfg & 2))
        st, r = self.p.handshake(first_msg=b"hello")
        ctx.check(st == "ok" and r == [None, None], "handshake: %r", r)
        self.app = {"C": self.p.c.app_channel, "S": self.p.s.app_channel}
        self.ch = {"C": self.p.cch, "S": self.p.sch}
        self.q = {"C": deque(), "S": deque()}       # messages each end has still to read: (msg, None | last mark)
        if self.p.buf4:
            self.q["S"].append((b"hello", False))

    def write(self, e, msgs, last):
        n = len(self.ch[e].out)
        r = self.p.call(self.app[e].write(*msgs, is_last=last))
        self.ctx.check(r[0] == "ok", "write: %s", sess.show(r))
        calls = self.ch[e].out[n:]
        pk = [m for ms, _ in calls for m in ms]
        self.ctx.check(pk, "write put nothing on the transport")
        flags = [ref.last_flag(m) for m in pk]
        self.ctx.check(flags == [False] * (len(pk) - 1) + [last], "last flags on the wire: %r for last=%r",
                       flags if len(flags) < 10 else flags[-10:], last)
        marks = [l for _, l in calls]
        self.ctx.check(marks == [False] * (len(calls) - 1) + [last], "transport told %r for last=%r", marks[-5:], last)
        o = "S" if e == "C" else "C"
        self.q[o].extend((m, last if i == len(msgs) - 1 else None) for i, m in enumerate(msgs))

    def read(self, e):
        r = self.p.call(self.app[e].read())
        if not self.q[e]:
            self.ctx.check(r[0] == "pending", "read with nothing sent: %s", sess.show(r))
            return
        m, mark = self.q[e].popleft()
        self.ctx.check(r[0] == "ok" and bytes(r[1]) == m, "read got %s instead of %d bytes %s", sess.show(r), len(m), m[:20].hex())
        if mark is not None:
            self.ctx.check(bool(self.app[e].last) == mark, "last indication is %r after a write with last=%r", self.app[e].last, mark)

    def drain(self):
        for e in "CS":
            while self.q[e]:
                self.read(e)
            self.read(e)


def run_unit(u, ctx):
    if u["kind"] == "seq":
        for rest in itertools.product(range(len(OPS)), repeat=u["depth"] - 1):
            seq = (u["first"],) + rest
            ctx.begin(dict(cfg=u["cfg"], ops=[OPS[i] for i in seq]))
            m = Model(ctx, u["cfg"])
            for i in seq:
                op = OPS[i]
                ctx.step()
                m.read(op[1]) if op[0] == "r" else m.write(op[1], *BATCHES[op[2]])
                ctx.state(u["cfg"], len(m.q["C"]), len(m.q["S"]), [x[1] for x in m.q["C"]], [x[1] for x in m.q["S"]], op)
            m.drain()
            m.p.loop.close()
            ctx.outcome("ok")
        ctx.sample(ctx.case)
    elif u["kind"] == "sizes":
        sizes = SIZES if not ctx.thorough else sorted(set(SIZES) | set(range(2100)) | set(range(65400, 65700)))
        m = Model(ctx, u["cfg"])
        for k, n in enumerate(sizes):
            body = bytes((i * 7 + n) & 0xff for i in range(min(n, 997))) * (n // 997 + 1)
            body = body[:n]
            zero, tail = bytes(n), body[:n // 2] + bytes(n - n // 2)
            if n <= 70000:
                for f, z in enumerate((zero, tail, tail[::-1], b" " * n, b"\n" * n, b"\xff" * n)):
                    for msgs in ((z,), (z, z), (z, b"t")):
                        ctx.begin(dict(cfg=u["cfg"], writer=u["end"], size=n, fill=f, messages=len(msgs)))
                        m.write(u["end"], msgs, f % 2 == 1)
                        ctx.step()
                        m.drain()
            for shape, msgs in enumerate([(body,), (body, b"t"), (b"h", body), (body, body), (b"", body, b""), (b"h", body, b"t"), (body,) * 3]):
                if ctx.thorough and n not in SIZES and shape > 2:
                    continue
                ctx.begin(dict(cfg=u["cfg"], writer=u["end"], size=n, shape=shape))
                m.write(u["end"], msgs, (k + shape) % 2 == 1)
                ctx.step()
                m.drain()
                ctx.state("size", u["cfg"], u["end"], n, shape)
    elif u["kind"] == "counts":
        for n in u["counts"]:
            ctx.begin(dict(writer=u["end"], count=n))
            m = Model(ctx, 2 if u["end"] == "C" else 0)
            m.write(u["end"], tuple(b"%d" % i for i in range(n)), n % 2 == 1)
            ctx.step(n)
            m.drain()
            ctx.state("count", u["end"], n)
            ctx.outcome("count")
    elif u["kind"] == "empties":
        # empty and oversized messages at the ends and in the middle of writes of many messages
        m = Model(ctx, 0)
        for n in list(range(2, 68)) + [100, 127, 128, 129, 255, 256, 257, 258, 512, 513, 1000, 1001, 1024, 1025] + ([2000, 4097] if u["part"] else []):
            if n % 2 != u["part"] and n < 1000:
                continue
            for pat in ("first", "last", "all", "ends", "bigfirst", "biglast", "bigmid", "equal"):
                ctx.begin(dict(writer=u["end"], count=n, pattern=pat))
                ms = [b"%d" % i for i in range(n)]
                if pat == "all":
                    ms = [b""] * n
                elif pat == "equal":
                    ms = [b"same"] * n
                elif pat.startswith("big"):
                    ms[dict(first=0, last=-1, mid=n // 2)[pat[3:]]] = bytes(65536)
                else:
                    for i in dict(first=(0,), last=(-1,), ends=(0, -1))[pat]:
                        ms[i] = b""
                m.ch[u["end"]].out.clear()
                m.write(u["end"], tuple(ms), n % 3 == 1)
                ctx.step(n)
                m.drain()
                ctx.state("empties", u["end"], n, pat)
        ctx.outcome("patterns")
    elif u["kind"] == "aligned":
        # sizes whose packets, ciphertexts or plaintexts end exactly at or next to round numbers
        m = Model(ctx, 0)
        for k in range(7, 19):
            for d in range(-3, 44):
                for mul in (1, 3) if k < 17 else (1,):
                    n = mul * (1 << k) - d
                    ctx.begin(dict(writer=u["end"], size=n))
                    m.ch[u["end"]].out.clear()
                    body = bytes([n & 0xff, n >> 8 & 0xff, k]) * (n // 3 + 1)
                    m.write(u["end"], (body[:n],), d % 2 == 1)
                    m.write(u["end"], (body[:n // 2], body[n // 2:n], b""), False)
                    ctx.step(2)
                    m.drain()
                    ctx.state("aligned", u["end"], n)
        ctx.outcome("aligned sizes")
    elif u["kind"] == "huge":
        # 2^24 bytes; and buffers the caller changes after the write
        for n in ((1 << 24) - 1, 1 << 24, (1 << 24) + 1) if ctx.thorough else ((1 << 24) + 1,):
            ctx.begin(dict(writer=u["end"], size=n))
            m = Model(ctx, 0)
            m.write(u["end"], (b"\x5a" * n, b"after"), False)
            m.drain()
            ctx.step(2)
            ctx.state("huge", u["end"], n)
        for cfg in range(4):
            for shape in ((b"one",), (b"one", b"two"), (b"", b"x" * 300), (b"y" * 65536, b"z")):
                for k in range(3):
                    ctx.begin(dict(writer=u["end"], buffers=[len(x) for x in shape], cfg=cfg, writes=k + 1))
                    m = Model(ctx, cfg)
                    for _ in range(k + 1):
                        bufs = [bytearray(x) for x in shape]
                        m.write(u["end"], tuple(bufs), False)
                        o = "S" if u["end"] == "C" else "C"
                        for i, x in enumerate(shape):
                            q = m.q[o][len(m.q[o]) - len(shape) + i]
                            m.q[o][len(m.q[o]) - len(shape) + i] = (x, q[1])
                        ctx.check([bytes(b) for b in bufs] == list(shape), "the caller's buffers were changed")
                        for b in bufs:
                            b[:] = b"!" * len(b)
                    m.drain()
                    m.p.loop.drop()
                    ctx.step(2)
                    ctx.state("buffers", u["end"], cfg, len(shape), k)
    elif u["kind"] == "contents":
        # every byte value alone, first and last; contents that look like packets, lengths or text to be stripped
        m = Model(ctx, u["cfg"])
        cs = [bytes([v]) for v in range(256)] + [bytes([v]) + b"mid" + bytes([255 - v]) for v in range(256)] + [bytes([v]) * 33 for v in range(256)]
        cs += [bytes([a, b]) for a in range(16) for b in range(256)]
        cs += [ref.m1(0, sess.A_ENC.pub), ref.m1(1, sess.A_ENC.pub, sess.B_SIG.pub), ref.m2(0, sess.B_ENC.pub), ref.m2(1, bytes(32), nosuch=True), ref.app(0, b"x"),
               ref.multi(0, [b"a", b"b"]), ref.a1(), ref.a1(1, sess.B_SIG.pub), ref.a2(ref.DEFAULT_PROTS), ref.seal(m.p.key, 3, b"y" * 20), b"None", b"null",
               "\u00e5\U0001f511".encode(), b"\0" * 4, b"\xff" * 8, b"\r\n", b" lead", b"trail ", b"\t\n"]
        for k, c in enumerate(cs):
            ctx.begin(dict(cfg=u["cfg"], writer=u["end"], content=c))
            m.ch[u["end"]].out.clear()
            m.write(u["end"], ((c,), (c, c[::-1]), (b"h", c))[k % 3] if k < 4800 else (c,), k % 5 == 0)
            if k >= 4800:
                m.write(u["end"], (c, b"", c), False)
            ctx.step(2)
            m.drain()
            ctx.state("content", u["cfg"], u["end"], c)
    elif u["kind"] == "backlog":
        # many writes before the first read, in both directions at once
        for cfg, n in itertools.product(range(4), (16, 17, 64, 65, 100, 128, 129, 255, 256, 257, 1000, 1025, 3000)):
            ctx.begin(dict(cfg=cfg, writer=u["end"], backlog=n))
            m = Model(ctx, cfg)
            o = "S" if u["end"] == "C" else "C"
            for i in range(n):
                m.write(u["end"], (b"%d" % i,) if i % 4 else (b"%d" % i, b"", b"more"), i % 7 == 3)
                if i % 3 == 0:
                    m.write(o, (b"back%d" % i,), i % 2 == 0)
            ctx.step(n)
            m.drain()
            m.p.loop.drop()
            ctx.state("backlog", cfg, u["end"], n)
    elif u["kind"] == "mixed":
        sz = [0, 1, 255, 256, 65535, 65536]
        for combo in itertools.product(sz, repeat=3):
            for last in (False, True):
                ctx.begin(dict(writer=u["end"], sizes=combo, last=last))
                m = Model(ctx, 2)
                m.write(u["end"], tuple(bytes([i + 1]) * n for i, n in enumerate(combo)), last)
                m.write(u["end"], (b"after",), False)
                m.drain()
                ctx.step(2)
                ctx.state("mixed", u["end"], combo, last)
    else:
        m = Model(ctx, 0)
        for n in range(u["n"]):
            if n % 1000 == 0:
                ctx.begin(dict(writer=u["end"], writes=n))
            m.ch[u["end"]].out.clear()
            m.write(u["end"], (b"%d" % n,), False)
            m.read("S" if u["end"] == "C" else "C")
            ctx.step(2)
        ctx.state("many", u["n"])
