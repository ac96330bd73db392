"""C12: framing of the socket and stream transports under every segmentation, interleaving and end of stream."""
import asyncio
import itertools
import struct

from .. import explore, sess, solo
from ..env import S
from ..streams import Blocked, FakeSocket, FakeTransport, StreamEnd, frame, frames

BOUNDS = {
    "quick": "all 32768 segmentations of 6 16-byte streams for both transports; all interleavings of byte arrivals and read calls of 4 "
             "streams of 9..13 bytes; 17 boundary sizes up to 16 MiB with every split of the header and of the body edges; end of stream and "
             "5 failures at every byte; all batches of <= 4 messages over 4 sizes written in 4 API styles with partial sends; 9 negative lengths at 3 places; "
             "streams of 400..3000 messages in pieces of every size 1..40; two channels of every kind in all 924 interleavings of their operations",
    "thorough": "as quick plus all 262144 segmentations of 3 19-byte streams"
}
STREAMS = [
    [b"", b"a", b"xyz"], [b"abcdefghijkl"], [b"", b"", b"", b""], [b"\1\0\0\0", b"\0\0\0\0"], [b"", b"\0\0\0\0\3\0\0\0"], [b"\xff\xff\xff\xff\xff\xff\xff", b"x"],
]
STREAMS19 = [[b"", b"ab", b"vwxyz"], [b"\2\0\0\0", b"", b"\xff\xff\xff"], [b"a" * 15]]
SIZES = [0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 131073, 1 << 20, (1 << 24) + 1]


def setup():
    sess.setup()
    assert all(len(b"".join(map(frame, s))) == 16 for s in STREAMS)
    assert all(len(b"".join(map(frame, s))) == 19 for s in STREAMS19)


def units(tier):
    us = []
    for t in ("sock", "stream"):
        for i in range(len(STREAMS)):
            for part in range(4):
                us.append(dict(kind="seg", t=t, set=16, s=i, part=part, of=4))
        if tier == "thorough":
            for i in range(len(STREAMS19)):
                for part in range(16):
                    us.append(dict(kind="seg", t=t, set=19, s=i, part=part, of=16))
        us += [dict(kind="sizes", t=t), dict(kind="eof", t=t), dict(kind="neg", t=t), dict(kind="write", t=t)]
    us += [dict(kind="arrive", s=i) for i in range(4)]
    us += [dict(kind="open"), dict(kind="long", t="sock"), dict(kind="long", t="stream")]
    us += [dict(kind="turns", pair=list(p)) for p in itertools.combinations_with_replacement(TURNERS, 2)]
    return us


def sock_call(f, *a, **k):
    try:
        return ("ok", f(*a, **k))
    except Blocked:
        return ("pending", None)
    except Exception as e:
        return ("exc", e)


def cuts_of(mask, n):
    return [i + 1 for i in range(n - 1) if mask >> i & 1]


def sock_read(ctx, raw, cuts, expect, eof=True, style=0):
    nxt = cuts + [len(raw)]

    def seg(pos, k):
        for c in nxt:
            if c > pos:
                return c - pos
    sk = FakeSocket(raw, seg=seg, eof=eof)
    ch = S.SocketChannel(sk)
    for i, m in enumerate(expect):
        if style == 0:
            r = sock_call(ch.read_sync)
        else:
            r = ctx.loop.call(ch.read())
        ctx.step()
        ctx.check(r[0] == "ok" and bytes(r[1]) == m, "message %d of %d bytes read as %s (cuts %r)", i, len(m), sess.show(r), cuts[:20])
    r = sock_call(ch.read_sync)
    ctx.check(sess.is_com(r), "end of stream after the last message gives %s", sess.show(r))


def stream_read(ctx, raw, cuts, expect, prefeed, eof=True):
    loop = ctx.loop
    E = StreamEnd(loop)
    pos = [0]
    segs = [raw[a:b] for a, b in zip([0] + cuts, cuts + [len(raw)])]

    def idle():
        if pos[0] < len(segs):
            E.inc += segs[pos[0]]
            pos[0] += 1
            E.give()
            return True
        if eof and not E.eof:
            E.end()
            return True
        return False
    for _ in range(prefeed):
        idle()
    loop.idle = idle
    ch = E.channel()
    for i, m in enumerate(expect):
        r = loop.call(ch.read())
        ctx.step()
        ctx.check(r[0] == "ok" and bytes(r[1]) == m, "message %d of %d bytes read as %s (cuts %r, %d pieces before the read)", i, len(m), sess.show(r), cuts[:20], prefeed)
    r = loop.call(ch.read())
    ctx.check(sess.is_com(r), "end of stream after the last message gives %s", sess.show(r))
    loop.idle = None


def run_seg(u, ctx):
    msgs = (STREAMS if u["set"] == 16 else STREAMS19)[u["s"]]
    raw = b"".join(map(frame, msgs))
    n = 1 << (len(raw) - 1)
    for mask in range(u["part"] * n // u["of"], (u["part"] + 1) * n // u["of"]):
        cuts = cuts_of(mask, len(raw))
        ctx.begin(dict(transport=u["t"], messages=msgs, cuts=cuts))
        if u["t"] == "sock":
            sock_read(ctx, raw, cuts, msgs, style=mask % 16 == 5)
        else:
            stream_read(ctx, raw, cuts, msgs, prefeed=mask % 3)
        ctx.state(u["t"], u["set"], u["s"], mask)
    ctx.outcome("%s %r" % (u["t"], [len(m) for m in msgs]))


def run_sizes(u, ctx):
    for n in SIZES:
        m = bytes(i * 7 & 0xff for i in range(n))
        for follow in ([], [b"next"], [b"", m[:300]]):
            msgs = [m] + follow
            raw = b"".join(map(frame, msgs))
            points = sorted(set(p for p in (1, 2, 3, 4, 5, n + 3, n + 4, n + 5, n + 6, n + 7, n + 8, (n + 4) // 2, 65536, 65540) if 0 < p < len(raw)))
            for k in (0, 1, 2) if n <= 1 << 20 else (0,):
                for cuts in itertools.combinations(points, k):
                    ctx.begin(dict(transport=u["t"], size=n, follow=len(follow), cuts=cuts))
                    if u["t"] == "sock":
                        sock_read(ctx, raw, list(cuts), msgs)
                    else:
                        stream_read(ctx, raw, list(cuts), msgs, prefeed=len(cuts) % 2)
                    ctx.state(u["t"], n, len(follow), cuts)
        ctx.outcome("%s %d" % (u["t"], n))


def run_eof(u, ctx):
    fails = {"reset": ConnectionResetError, "timeout": TimeoutError, "oserror": OSError, "pipe": BrokenPipeError, "eof": None}
    lists = STREAMS + STREAMS19 + [[b"m" * 300, b"n"], [b"q" * 65536]]
    for msgs in lists:
        raw = b"".join(map(frame, msgs))
        for off in range(len(raw)):
            if 400 < off < len(raw) - 40:
                continue
            done, acc = 0, 0
            for m in msgs:
                acc += 4 + len(m)
                if acc > off:
                    break
                done += 1
            for name, e in fails.items():
                for seg in (None, 1, 3) if len(raw) < 500 else (None, 4093):
                    ctx.begin(dict(transport=u["t"], messages=[len(m) for m in msgs], offset=off, end=name, seg=seg))
                    ctx.state(u["t"], msgs[0][:8], len(raw), off, name, seg)
                    if u["t"] == "sock":
                        def f():
                            if e is None:
                                return b""
                            raise e("failed")
                        sk = FakeSocket(raw, read_fault=(off, f), seg=None if seg is None else (lambda p, k: seg))
                        ch = S.SocketChannel(sk)
                        read = lambda: sock_call(ch.read_sync)
                    else:
                        E = StreamEnd(ctx.loop)
                        pos = [0]

                        def idle():
                            if pos[0] < off:
                                k = min(seg or off, off - pos[0])
                                E.inc += raw[pos[0]:pos[0] + k]
                                pos[0] += k
                                E.give()
                                return True
                            if not (E.eof or E.lost):
                                E.end() if e is None else E.lose(e("failed"))
                                return True
                            return False
                        ctx.loop.idle = idle
                        ch = E.channel()
                        read = lambda: ctx.loop.call(ch.read())
                    for i in range(len(msgs) + 2):
                        r = read()
                        ctx.step()
                        if i < done:
                            ctx.check(r[0] == "ok" and bytes(r[1]) == msgs[i] or (sess.is_com(r) and u["t"] == "stream" and e), "complete message %d read as %s", i, sess.show(r))
                        else:
                            ctx.check(sess.is_com(r), "read %d of a stream that ends inside message %d gives %s", i, done, sess.show(r))
                    ctx.loop.idle = None
                    ctx.outcome("%s ends by %s" % (u["t"], name))


def run_neg(u, ctx):
    for v in (-1, -2, -3, -4, -5, -128, -65536, -(1 << 31), -(1 << 31) + 1):
        for before in ([], [b"ok"], [b"", b"abc"]):
            for after in (b"", b"abcdefghijkl", frame(b"next") * 3, b"\xff" * 40):
                for eof in (False, True):
                    raw = b"".join(map(frame, before)) + struct.pack("<i", v) + after
                    ctx.begin(dict(transport=u["t"], length=v, before=before, after=after, eof=eof))
                    ctx.state(u["t"], v, len(before), len(after), eof)
                    if u["t"] == "sock":
                        ch = S.SocketChannel(FakeSocket(raw, eof=eof))
                        read = lambda: sock_call(ch.read_sync)
                    else:
                        E = StreamEnd(ctx.loop, raw)
                        E.give()
                        if eof:
                            E.end()
                        ch = E.channel()
                        read = lambda: ctx.loop.call(ch.read())
                    for m in before:
                        r = read()
                        ctx.check(r[0] == "ok" and bytes(r[1]) == m, "message before: %s", sess.show(r))
                    r = read()
                    ctx.step()
                    ctx.check(sess.is_com(r), "length %d gives %s", v, sess.show(r))
                    ctx.outcome("refused")
    for v in (100, 65536, 0x7fffffff, 0x1000000):     # more announced than ever comes
        ctx.begin(dict(transport=u["t"], length=v, short=True))
        raw = struct.pack("<i", v) + b"z" * 99
        if u["t"] == "sock":
            r = sock_call(S.SocketChannel(FakeSocket(raw, eof=True)).read_sync)
        else:
            E = StreamEnd(ctx.loop, raw)
            E.give()
            E.end()
            r = ctx.loop.call(E.channel().read())
        ctx.check(sess.is_com(r), "length %d with 99 bytes gives %s", v, sess.show(r))


def run_write(u, ctx):
    parts = [b"", b"a", b"\3\0\0\0x" * 60, b"L" * 65536]
    for n in (1, 2, 3, 4):
        for batch in itertools.product(parts, repeat=n):
            if sum(map(len, batch)) > 140000:
                continue
            want = b"".join(map(frame, batch))
            for last in (False, True):
                for style in ("sync", "async"):
                    for send_max in (None, 1, 7) if len(want) < 400 else (None, 65000):
                        for conv in (bytes, bytearray):
                            if conv is bytearray and (send_max or len(want) > 400):
                                continue
                            ctx.begin(dict(transport=u["t"], sizes=[len(b) for b in batch], last=last, style=style, send_max=send_max, type=conv.__name__))
                            args = [conv(b) for b in batch]
                            if u["t"] == "sock":
                                sk = FakeSocket(send_max=send_max)
                                ch = S.SocketChannel(sk)
                                end = sk
                            else:
                                if send_max:
                                    continue
                                end = StreamEnd(ctx.loop)
                                ch = end.channel()
                            for rnd in (1, 2):      # two writes in a row
                                if style == "sync":
                                    r = sess.call_sync(ch.write_sync, *args, is_last=last)
                                else:
                                    r = ctx.loop.call(ch.write(*args, is_last=last))
                                ctx.step()
                                ctx.check(r[0] == "ok", "write gives %s", sess.show(r))
                                ctx.check(bytes(end.sent) == want * rnd, "bytes on the wire are %s instead of %s", bytes(end.sent).hex()[:200], (want * rnd).hex()[:200])
                            ctx.check([bytes(a) for a in args] == list(batch), "the caller's buffers were changed")
                            ctx.state(u["t"], [len(b) for b in batch], last, style, send_max, conv.__name__)
            ctx.outcome("%s batch of %d" % (u["t"], n))


def run_arrive(u, ctx):
    """Every interleaving of single-byte arrivals, the end of the stream, and the start of each read."""
    msgs = [[b"", b"a"], [b"ab"], [b"\0", b""], [b"", b"xyzuv"]][u["s"]]
    raw = b"".join(map(frame, msgs))

    def run(chooser):
        ctx.begin(dict(messages=msgs, choices=chooser.prefix))
        loop = sess.new_loop()
        E = StreamEnd(loop, raw)
        ch = E.channel()
        got, state = [], dict(ended=False)
        gate = []

        async def reader():
            for _ in range(len(msgs) + 1):
                f = loop.create_future()
                gate.append(f)
                await f
                try:
                    got.append(await ch.read())
                except S.ComException:
                    got.append(None)

        def idle():
            acts = []
            if E.inc:
                acts.append(("byte", lambda: E.give(1)))
            elif not state["ended"]:
                acts.append(("end", lambda: (state.update(ended=True), E.end())))
            if gate and not gate[-1].done():
                acts.append(("read", lambda: gate[-1].set_result(None)))
            if not acts:
                return False
            c = chooser.choose(len(acts), ",".join(a[0] for a in acts)) if len(acts) > 1 else 0
            acts[c][1]()
            ctx.step()
            return True
        loop.idle = idle
        r = loop.call(reader())
        ctx.check(r[0] == "ok", "reader ends with %s", sess.show(r))
        ctx.check([None if g is None else bytes(g) for g in got] == msgs + [None], "messages read %r", got)
        loop.drop()
        ctx.state(u["s"], tuple(chooser.choices))
        ctx.outcome("interleaving of stream %d" % u["s"])
    explore.explore(run)


def run_open(u, ctx):
    """The connection helpers hand out readers and writers with these properties."""
    ca = S.client_server_a
    for limit in (None, 1024, 2 ** 20):
        for msgs in STREAMS:
            ctx.begin(dict(helper="open_saltchannel_connection", limit=limit, messages=msgs))
            loop = sess.new_loop()
            made = []

            class End:
                sent = bytearray()

                def _written(self, d):
                    self.sent += d
            end = End()
            end.sent = bytearray()

            async def create_connection(factory, host=None, port=None, **kw):
                p, t = factory(), FakeTransport(end)
                made.append((p, host, port))
                p.connection_made(t)
                return t, p

            async def create_server(factory, host=None, port=None, **kw):
                made.append((factory, host, port))
                return "server"
            loop.create_connection, loop.create_server = create_connection, create_server
            kw = {} if limit is None else dict(limit=limit)
            r = loop.call(ca.open_saltchannel_connection("h", 1234, loop=loop, **kw))
            ctx.check(r[0] == "ok" and made and made[0][1:] == ("h", 1234), "connection helper: %s", sess.show(r))
            reader, writer = r[1]
            ch = S.AsyncioChannel(reader, writer)
            r = loop.call(ch.write(*msgs))
            ctx.check(r[0] == "ok" and bytes(end.sent) == b"".join(map(frame, msgs)), "client write: %s", sess.show(r))
            made[0][0].data_received(bytes(end.sent))
            for m in msgs:
                r = loop.call(ch.read())
                ctx.check(r == ("ok", m), "client read: %s", sess.show(r))
            made.clear()
            ctx.begin(dict(helper="start_saltchannel_server", limit=limit, messages=msgs))
            seen = []

            async def cb(rd, wr):
                c = S.AsyncioChannel(rd, wr)
                seen.append([await c.read() for _ in msgs])
                await c.write(*msgs, is_last=True)
            r = loop.call(ca.start_saltchannel_server(cb, "h", 4321, loop=loop, **kw))
            ctx.check(r == ("ok", "server") and made[0][1:] == ("h", 4321), "server helper: %s", sess.show(r))
            end.sent = bytearray()
            ps = []
            for _ in range(2):      # two connections of one server stay apart
                p = made[0][0]()
                p.connection_made(FakeTransport(end))
                ps.append(p)
            raw = b"".join(map(frame, msgs))
            for i in range(len(raw)):
                for p in ps:
                    p.data_received(raw[i:i + 1])

            async def settle():
                for _ in range(50):
                    await asyncio.sleep(0)
            loop.call(settle())
            ctx.check(seen == [msgs, msgs], "server callbacks read %r", seen)
            ctx.check(bytes(end.sent) == raw * 2, "server callbacks wrote %s", bytes(end.sent).hex())
            ctx.step(2 * len(raw))
            ctx.state(limit, len(msgs), msgs[0])
            ctx.outcome("helpers")
            loop.drop()


def run_long(u, ctx):
    """Thousands of messages through one channel, cut into pieces of every size 1..40, reads and writes alternating."""
    n = 20000 if ctx.thorough else 3000
    msgs = [b"%d" % i * (i % 5) + b"\0" * (i % 3) for i in range(n)]
    raw = b"".join(map(frame, msgs))
    for piece in list(range(1, 41)) + [255, 256, 4096, 65536, len(raw)]:
        ctx.begin(dict(transport=u["t"], piece=piece, messages=n))
        m = n if piece in (1, 7, 256) else 400
        if u["t"] == "sock":
            end = FakeSocket(raw, eof=True, seg=lambda pos, k: piece)
            ch = S.SocketChannel(end)
        else:
            loop = ctx.loop = sess.new_loop()
            end = StreamEnd(loop, raw)
            ch = end.channel()

            def idle():
                if end.inc:
                    end.give(piece)
                    return True
                return False
            loop.idle = idle
        for i in range(m):
            r = sess.call_sync(ch.read_sync)
            ctx.check(r[0] == "ok" and bytes(r[1]) == msgs[i], "message %d in pieces of %d: %s", i, piece, sess.show(r))
            if i % 4 == 0:
                r = sess.call_sync(ch.write_sync, b"o%d" % i, b"")
                ctx.check(r[0] == "ok", "write: %s", sess.show(r))
        want = b"".join(frame(b"o%d" % i) + frame(b"") for i in range(0, m, 4))
        ctx.check(bytes(end.sent) == want, "after %d messages other bytes were sent", m)
        ctx.step(m)
        ctx.state("long", u["t"], piece)
        if u["t"] == "stream":
            ctx.loop.drop()
    ctx.outcome("long " + u["t"])


TURNERS = [("sock", "sync"), ("sock", "async"), ("stream", "sync"), ("stream", "async")]


def turner(ctx, t, style, i):
    """One user of a channel of its own: reads and writes; what it reads, what its transport got."""
    inc = [b"", b"in%d" % i, b"\xfe" * (i + 3)]

    def script():
        raw = b"".join(map(frame, inc))
        if t == "sock":
            end = FakeSocket(raw, eof=True, seg=lambda pos, k: 3)
            ch = S.SocketChannel(end)
        else:
            end = StreamEnd(ctx.loop, raw)
            ch = end.channel()

        def call(name, *a, **k):
            if style == "sync":
                r = sess.call_sync(getattr(ch, name + "_sync"), *a, **k)
            else:
                r = ctx.loop.call(getattr(ch, name)(*a, **k))
            return (r[0], bytes(r[1]) if isinstance(r[1], (bytes, bytearray)) else type(r[1]).__name__), bytes(end.sent)

        def idle():
            if t == "sock" or end.eof:
                return False
            end.give(3) if end.inc else end.end()
            return True
        ctx.idles[i] = idle
        yield "made"
        yield call("write", b"out%d" % i)
        yield call("read")
        yield call("write", b"", b"\1" * (i + 1), is_last=True)
        yield call("read")
        yield call("read"), call("read")
    return script


def run_turns(u, ctx):
    """Two channels used in turns, in every interleaving: neither sees anything of the other."""
    def fresh():
        ctx.idles = {}
        ctx.loop = sess.new_loop()
        ctx.loop.idle = lambda: any([f() for f in list(ctx.idles.values())])
    alone = solo.interleave(ctx, u, [turner(ctx, t, s, i) for i, (t, s) in enumerate(u["pair"])], fresh)
    for i, a in enumerate(alone):
        ctx.check(a[1] == (("ok", "NoneType"), frame(b"out%d" % i)) and a[2][0] == ("ok", b"") and a[4][0] == ("ok", b"in%d" % i) and a[5][0][0] == ("ok", b"\xfe" * (i + 3)) and
                  a[5][1][0][0] == "exc" and a[5][1][1] == b"".join(map(frame, (b"out%d" % i, b"", b"\1" * (i + 1)))), "alone: %r", a)
    ctx.outcome("turns %r" % (u["pair"],))


def run_unit(u, ctx):
    ctx.loop = sess.new_loop()
    {"seg": run_seg, "sizes": run_sizes, "eof": run_eof, "neg": run_neg, "write": run_write, "arrive": run_arrive, "open": run_open,
     "turns": run_turns, "long": run_long}[u["kind"]](u, ctx)
    ctx.sample(ctx.case)
