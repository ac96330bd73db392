"""C11: a transport fault at every I/O operation and every byte offset of session histories."""
import asyncio
import errno
import socket
import ssl
import struct

from .. import pk, ref, sess
from ..env import S
from ..streams import Blocked, FakeSocket, StreamEnd, frame, frames

HIST = ["client", "client4", "server", "server2", "client_big", "server_a1", "server_nosuch", "a1client"]
BOUNDS = {
    "quick": "8 session histories (handshake with each buffering option, reads of single and multiple messages, single and multiple writes, "
             "address queries, no-such-server answers) x {message transport, socket, asyncio stream} x both API styles x "
             "every I/O operation and every incoming byte offset x all fault kinds (end of stream, reset, timeout, other OS and TLS errors), one-shot and persistent; "
             "8 raw message streams through the bare transports, cut or failing at every byte offset",
    "thorough": "as quick with all recv segment sizes 1..8"
}
ASSUMPTIONS = ["a transport that is no channel of this repository reports failures as ComException, as channel.py and the README ask"]


def setup():
    sess.setup()


def units(tier):
    us = [dict(t="raw", ch=c, sync=s) for c in ("sock", "stream") for s in (False, True)]
    us += [dict(t=t, h=h, sync=s) for t in ("msg", "sock", "stream") for h in HIST for s in (False, True)]
    return us


def oserrors():
    return [("reset", lambda: ConnectionResetError(errno.ECONNRESET, "reset")), ("pipe", lambda: BrokenPipeError(errno.EPIPE, "pipe")),
            ("timeout", lambda: socket.timeout("timed out")), ("aborted", lambda: ConnectionAbortedError(errno.ECONNABORTED, "aborted")),
            ("oserror", lambda: OSError(errno.EBADF, "Bad file descriptor")), ("interrupted", lambda: InterruptedError(errno.EINTR, "eintr")),
            ("tls", lambda: ssl.SSLError(1, "tls alert")), ("hostunreach", lambda: OSError(errno.EHOSTUNREACH, "unreachable"))]


def more_errors():
    E = errno
    return [("again", lambda: BlockingIOError(E.EAGAIN, "again")), ("refused", lambda: ConnectionRefusedError(E.ECONNREFUSED, "refused")),
            ("perm", lambda: PermissionError(E.EPERM, "perm")), ("etimedout", lambda: TimeoutError(E.ETIMEDOUT, "timed out")),
            ("gai", lambda: socket.gaierror(-3, "temporary")), ("herr", lambda: socket.herror(1, "h")), ("bare", lambda: OSError()),
            ("text", lambda: OSError("cannot")), ("notconn", lambda: OSError(E.ENOTCONN, "notconn")), ("eio", lambda: OSError(E.EIO, "io")),
            ("nobufs", lambda: OSError(E.ENOBUFS, "nobufs")), ("netdown", lambda: OSError(E.ENETDOWN, "down")), ("shutdown", lambda: OSError(E.ESHUTDOWN, "shut")),
            ("inval", lambda: OSError(E.EINVAL, "inval")), ("toobig", lambda: OSError(E.EMSGSIZE, "size")), ("tlseof", lambda: ssl.SSLEOFError(8, "eof")),
            ("tlszero", lambda: ssl.SSLZeroReturnError(6, "closed")), ("tlswantr", lambda: ssl.SSLWantReadError(2, "want")),
            ("tlswantw", lambda: ssl.SSLWantWriteError(3, "want")), ("tlssys", lambda: ssl.SSLSyscallError(5, "sys")),
            ("tlscert", lambda: ssl.SSLCertVerificationError(1, "cert")), ("notfound", lambda: FileNotFoundError(E.ENOENT, "gone")),
            ("child", lambda: ChildProcessError(E.ECHILD, "child")), ("lookup", lambda: ProcessLookupError(E.ESRCH, "lookup")), ("exists", lambda: FileExistsError(E.EEXIST, "exists"))]


def boundaries(raw):
    """Offsets at the start, inside and at the end of every length field and body of a stream of frames."""
    offs, p = set(), 0
    for m in frames(bytes(raw))[0]:
        offs |= {p, p + 1, p + 3, p + 4, p + 5, p + 4 + len(m) // 2, p + 4 + len(m) - 1}
        p += 4 + len(m)
    return sorted(o for o in offs if o < p)


class History:
    """A session, its peer and a list of calls; needs[i] = messages call i has to receive."""

    def __init__(self, h, sync):
        self.sync, self.h = sync, h
        self.errors = []
        self.first = []
        if h.startswith("client"):
            self.peer = ref.RefServer(sess.B_SIG, sess.B_ENC)
            self.needs = [2, 0, 1, 0, 1, 0, 0]
        elif h in ("server", "server2"):
            self.peer = ref.RefClient(sess.A_SIG, sess.A_ENC)
            self.first = self.peer.start()
            self.needs = [2, 0, 1, 0, 1, 0, 0]
        elif h == "server_a1":
            self.peer, self.first, self.needs = None, [ref.a1(1, sess.B_SIG.pub)], [1]
        elif h == "server_nosuch":
            self.peer, self.first, self.needs = None, [ref.m1(0, sess.A_ENC.pub, sess.C_SIG.pub)], [1]
        else:
            self.peer, self.needs = None, [1]
        self.pushed = 0

    def feed(self, msgs):
        out = []
        for m in msgs:
            if self.h == "a1client":
                out.append(ref.a2(ref.DEFAULT_PROTS))
            elif self.peer is not None:
                try:
                    out += self.peer.feed(m)
                except ValueError as e:
                    self.errors.append(str(e))
                if self.peer.state == "open" and self.pushed == 0:
                    self.pushed = 1
                    big = b"B" * 70001 if self.h == "client_big" else b"push1"
                    out.append(self.peer.app(big))
                if self.peer.got and self.pushed == 1:
                    self.pushed = 2
                    out.append(self.peer.app(b"push2", b"push3", last=True))
        return out

    def start(self, ch):
        if self.h.startswith("client"):
            self.s = sess.client(ch, buf4=self.h == "client4")
        elif self.h.startswith("server"):
            self.s = sess.server(ch, buf2=self.h == "server2")
        else:
            self.s = S.A1Client(ch)

    def calls(self):
        """Yields (name, function) to be called in order; style per self.sync."""
        s, sy = self.s, self.sync
        if self.h == "a1client":
            yield "a1a2", (s.do_a1a2_sync if sy else s.do_a1a2), ()
            return
        yield "handshake", (s.handshake_sync if sy else s.handshake), ()
        if s.app_channel is None:
            return
        a = s.app_channel
        w, r = (a.write_sync, a.read_sync) if sy else (a.write, a.read)
        yield "write", w, (b"w1",)
        yield "read", r, ()
        yield "write", w, (b"w2", b"", b"w4")
        yield "read", r, ()
        yield "read", r, ()
        yield "write", w, (b"W" * 70000, b"w6")

    def expect(self):
        if self.h == "a1client":
            return [None]
        if self.h == "server_a1":
            return [None]
        if self.h == "server_nosuch":
            return ["nosuch"]
        return [None, None, b"B" * 70001 if self.h == "client_big" else b"push1", None, b"push2", b"push3", None]


def call(loop, sync, f, args):
    try:
        return sess.call_sync(f, *args) if sync else loop.call(f(*args))
    except Blocked:
        return ("pending", None)


def judge(ctx, H, results, fired, must=None):
    """results[i]: outcome of call i; fired[i]: a fault hit call i; must: first call that cannot get its input."""
    exp = H.expect()
    broken = False
    for i, r in enumerate(results):
        ok = (r[0] == "ok" and r[1] == exp[i]) if exp[i] != "nosuch" else (r[0] == "exc" and isinstance(r[1], S.NoSuchServerException))
        ctx.step()
        if fired[i] and (exp[i] != "nosuch" or must != "any"):
            ctx.check(sess.is_com(r), "call %d with a failing transport: %s", i, sess.show(r))
            broken = True
        elif must == i:
            ctx.check(sess.is_com(r), "call %d without its complete input: %s", i, sess.show(r))
            broken = True
        elif not broken:
            ctx.check(ok, "call %d before any fault: %s", i, sess.show(r))
        else:
            ctx.check(sess.is_com(r) or ok, "call %d after a fault: %s", i, sess.show(r))
        ctx.outcome("call %d %s" % (i, r[0] if r[0] != "exc" else sess.exc_name(r[1])))
    if H.h == "a1client" and results and results[0][0] == "ok":
        ctx.check(pk.fields("A2", H.s.a2)["prots"] == ref.DEFAULT_PROTS, "answer misread")


def run(H, loop, fired_of, once=False):
    """once: stop at the first call hit by a fault (what follows a passing fault is not specified)."""
    results, fired = [], []
    for name, f, args in H.calls():
        before = fired_of()
        r = call(loop, H.sync, f, args)
        results.append(r)
        fired.append(fired_of() - before)
        if (name == "handshake" and r[0] != "ok") or (once and fired[-1]):
            break
    return results, fired


# ------------------------------------------------------------------------------------------------ message transport
def msg_run(ctx, u, faults, kind, persistent):
    """faults: set of op indexes."""
    loop = sess.new_loop()
    H = History(u["h"], u["sync"])
    count = [0]
    exc = {"com": S.ComException, "sub": type("TransportClosed", (S.ComException,), {}), "bad": S.BadPeer}[kind]

    def hook(op, i):
        if i in faults or (persistent and i >= min(faults)):
            count[0] += 1
            raise exc("transport failed at %s %d" % (op, i))
    ch = sess.ScriptChannel(H.first, feed=H.feed, hook=hook if faults else None)
    H.start(ch)
    results, fired = run(H, loop, lambda: count[0], once=not persistent)
    for r in results:   # an error of the transport is passed on or translated, always within the family
        if r[0] == "exc" and exc is not S.ComException:
            ctx.outcome("passed on" if isinstance(r[1], exc) else "translated")
    judge(ctx, H, results, fired)
    loop.drop()
    return ch.ops, results


def run_msg(ctx, u):
    ctx.begin(dict(u, fault=None))
    n, base = msg_run(ctx, u, set(), "com", False)
    ctx.check(len(base) == len(History(u["h"], False).needs), "history incomplete: %r", base)
    for kind in ("com", "sub", "bad"):
        for k in range(n):
            for persistent in (False, True):
                ctx.begin(dict(u, fault=kind, operation=k, persistent=persistent))
                msg_run(ctx, u, {k}, kind, persistent)
                ctx.state(u["t"], u["h"], u["sync"], kind, k, persistent)
    ctx.begin(dict(u, fault="end of input"))
    H = History(u["h"], u["sync"])
    total = sum(H.needs)
    for k in range(total):   # the transport ends after k messages
        ctx.begin(dict(u, fault="end after messages", messages=k))
        loop = sess.new_loop()
        H = History(u["h"], u["sync"])
        left = [k]
        cnt = [0]

        def hook(op, i):
            if op == "read":
                if left[0] == 0:
                    cnt[0] += 1
                    raise S.ComException("closed")
                left[0] -= 1
        H.start(sess.ScriptChannel(H.first, feed=H.feed, hook=hook))
        results, fired = run(H, loop, lambda: cnt[0])
        judge(ctx, H, results, fired)
        loop.drop()
        ctx.state(u, k)


# ------------------------------------------------------------------------------------------------ socket
def sock_run(ctx, u, read_fault=None, write_fault=None, seg=None, once=False):
    loop = sess.new_loop()
    H = History(u["h"], u["sync"])
    sk = FakeSocket(b"".join(frame(m) for m in H.first), feed=H.feed, read_fault=read_fault, write_fault=write_fault,
                    seg=None if seg is None else (lambda pos, k: seg))
    H.start(S.SocketChannel(sk))
    results, fired = run(H, loop, lambda: sk.fired, once=once or write_fault is not None)
    judge(ctx, H, results, fired)
    loop.drop()
    return sk, results


def passing(e):
    """Fault function that raises the first time it is called and then lets data pass."""
    left = [1]

    def f():
        if left:
            left.pop()
            raise e()
        return None
    return f


def raiser(e):
    def f():
        raise e()
    return f


def offsets(total, inc):
    """All offsets, except deep inside one very long message."""
    return [o for o in range(total) if o < 320 or o > total - 200 or o % 4096 < 2]


def run_sock(ctx, u):
    ctx.begin(dict(u, fault=None))
    sk, base = sock_run(ctx, u)
    ctx.check(len(base) == len(History(u["h"], False).needs), "history incomplete: %r", base)
    total, sends = sk.pos, sk.sends
    kinds = [("eof", lambda: b"")] + [(n, raiser(e)) for n, e in oserrors()]
    segs = [None, 1, 3] if not ctx.thorough else [None] + list(range(1, 9))
    for off in offsets(total, sk.inc):
        for name, f in kinds:
            for seg in segs if total < 2000 else segs[:1]:
                if seg is not None and name not in ("eof", "reset"):
                    continue
                ctx.begin(dict(u, fault=name, offset=off, seg=seg))
                s2, _ = sock_run(ctx, u, read_fault=(off, f), seg=seg)
                ctx.check(s2.fired, "harness: fault not reached")
                ctx.state(u["t"], u["h"], u["sync"], name, off, seg)
        for name, e in [x for x in oserrors() if x[0] != "interrupted"] if off < 400 else ():       # a failure that would pass on a second try
            ctx.begin(dict(u, fault=name, offset=off, passing=True))
            s2, _ = sock_run(ctx, u, read_fault=(off, passing(e)), once=True)
            ctx.state(u["t"], u["h"], u["sync"], name, off, "passing")
    for off in boundaries(sk.inc[:total]):
        for name, e in more_errors():
            ctx.begin(dict(u, fault=name, offset=off))
            s2, _ = sock_run(ctx, u, read_fault=(off, raiser(e)))
            ctx.check(s2.fired, "harness: fault not reached")
            ctx.state(u["t"], u["h"], u["sync"], name, off)
    for k in range(sends):
        for name, e in oserrors() + more_errors():
            ctx.begin(dict(u, fault=name, send=k))
            s2, _ = sock_run(ctx, u, write_fault=(k, raiser(e)))
            ctx.check(s2.fired, "harness: fault not reached")
            s2, _ = sock_run(ctx, u, write_fault=(k, passing(e)))
            ctx.check(s2.fired, "harness: fault not reached")
            ctx.state(u["t"], u["h"], u["sync"], name, k)


# ------------------------------------------------------------------------------------------------ asyncio stream
def stream_run(ctx, u, cut=None, how="eof", exc=None, lose_at=None, pause=False):
    """cut: the peer's stream ends/fails after `cut` bytes; lose_at: connection lost at the k-th transport write."""
    H = History(u["h"], u["sync"])
    loop = sess.new_loop()
    E = StreamEnd(loop, b"".join(frame(m) for m in H.first), feed=H.feed)
    given, count = [0], [0]

    def idle():
        if lose_at is not None and pause and E.writes > lose_at and not E.lost:
            E.lose(exc and exc())
            return True
        n = len(E.inc) if cut is None else min(len(E.inc), cut - given[0])
        if n > 0 and not E.lost:
            given[0] += n
            E.give(n)
            return True
        if cut is not None and given[0] >= cut and not (E.eof or E.lost):
            if how == "eof":
                E.end()
            else:
                E.lose(exc and exc())
            return True
        return False

    def on_write(n):
        if n == lose_at:
            count[0] += 1
            if pause:
                E.protocol.pause_writing()
            else:
                E.lose(exc and exc())
    E.on_write = on_write
    loop.idle = idle
    H.start(E.channel())
    results, fired = run(H, loop, lambda: count[0])
    if cut is not None:
        # calls that lack input have to fail; a lost connection may fail any call from the moment it is lost
        sizes = [4 + len(m) for m in (ctx.stream_frames)]
        have, acc = 0, 0
        for sz in sizes:
            if acc + sz > cut:
                break
            acc += sz
            have += 1
        exp, need, hit = H.expect(), 0, False
        for i, r in enumerate(results):
            need += H.needs[i]
            ctx.step()
            ok = (r[0] == "ok" and r[1] == exp[i]) if exp[i] != "nosuch" else (r[0] == "exc" and isinstance(r[1], S.NoSuchServerException))
            if need > have:
                if H.needs[i] or not ok:
                    ctx.check(sess.is_com(r), "call %d without its complete input: %s", i, sess.show(r))
                hit = True
            elif how == "eof":
                ctx.check(ok, "call %d with its complete input: %s", i, sess.show(r))
            else:
                ctx.check(ok or (sess.is_com(r) and E.lost), "call %d: %s", i, sess.show(r))
            ctx.outcome("call %d %s" % (i, r[0] if r[0] != "exc" else sess.exc_name(r[1])))
        ctx.check(hit, "harness: fault not reached")
    else:
        judge(ctx, H, results, fired)
    loop.drop()
    return E, results, given[0]


def run_stream(ctx, u):
    ctx.begin(dict(u, fault=None))
    rec = []
    orig = History.feed

    # frames of the fault-free run, in order
    def feed(self, msgs):
        r = orig(self, msgs)
        rec.extend(r)
        return r
    History.feed = feed
    try:
        E, base, total = stream_run(ctx, u)
    finally:
        History.feed = orig
    ctx.check(len(base) == len(History(u["h"], False).needs), "history incomplete: %r", base)
    ctx.stream_frames = list(History(u["h"], False).first) + rec
    if u["h"].startswith("client") or u["h"] in ("server", "server2"):
        ctx.stream_frames = ctx.stream_frames[:4]
    total = sum(4 + len(m) for m in ctx.stream_frames)
    edges = set(boundaries(b"".join(frame(m) for m in ctx.stream_frames)))
    for off in offsets(total, None):
        ctx.begin(dict(u, fault="eof", offset=off))
        stream_run(ctx, u, cut=off)
        ctx.state(u["t"], u["h"], u["sync"], "eof", off)
        for name, e in oserrors() + (more_errors() if off in edges else []) + [("closed", None)]:
            ctx.begin(dict(u, fault=name, offset=off))
            stream_run(ctx, u, cut=off, how="lost", exc=e)
            ctx.state(u["t"], u["h"], u["sync"], name, off)
    for k in range(E.writes):
        for name, e in oserrors() + more_errors() + [("closed", None)]:
            ctx.begin(dict(u, fault=name, write=k))
            stream_run(ctx, u, lose_at=k, exc=e)
            ctx.state(u["t"], u["h"], u["sync"], name, k)
            if e is not None:
                ctx.begin(dict(u, fault=name, write=k, while_draining=True))
                stream_run(ctx, u, lose_at=k, exc=e, pause=True)
                ctx.state(u["t"], u["h"], u["sync"], name, k, "pause")


RAW = [[b""], [b"a"], [b"\0" * 4], [b"abcdef"], [b"", b"xy", b"z" * 300], [b"q" * 70], [b"\x01\0\0\0\x05", b"\0"], [b"p" * 5, b"", b""]]


def run_raw(ctx, u):
    """The transports themselves, read until they fail: whole messages only, then errors of the family for ever."""
    for msgs in RAW:
        data = b"".join(frame(m) for m in msgs)
        kinds = [("eof", None)] + oserrors() + more_errors() + ([("closed", None)] if u["ch"] == "stream" else [])
        for cut in range(len(data) + 1):
            whole, acc = [], 0
            for m in msgs:
                acc += 4 + len(m)
                if acc <= cut:
                    whole.append(m)
            for name, e in kinds:
                for seg in (None, 1, 2, 3, 5):
                    if seg is not None and name not in ("eof", "reset"):
                        continue
                    ctx.begin(dict(u, msgs=msgs, fault=name, offset=cut, seg=seg))
                    loop = sess.new_loop()
                    if u["ch"] == "sock":
                        sk = FakeSocket(data, read_fault=(cut, (lambda: b"") if e is None else raiser(e)), seg=None if seg is None else (lambda p, k: seg))
                        ch = S.SocketChannel(sk)
                    else:
                        E = StreamEnd(loop, data[:cut])
                        ch = E.channel()

                        def idle():
                            if E.inc and not E.lost:
                                E.give(min(seg or len(E.inc), len(E.inc)))
                            elif E.eof or E.lost:
                                return False
                            elif name == "eof":
                                E.end()
                            else:
                                E.lose(e and e())
                            return True
                        loop.idle = idle
                    f = ch.read_sync if u["sync"] else ch.read
                    for m in whole:
                        r = call(loop, u["sync"], f, ())
                        ctx.step()
                        # a lost connection may take messages with it that were not read yet
                        if not (u["ch"] == "stream" and name != "eof" and sess.is_com(r)):
                            ctx.check(r[0] == "ok" and bytes(r[1]) == m, "complete message %r: %s", m[:20], sess.show(r))
                    for _ in range(2):
                        r = call(loop, u["sync"], f, ())
                        ctx.step()
                        ctx.check(sess.is_com(r), "read without a complete message: %s", sess.show(r))
                    loop.drop()
                    ctx.state(u, tuple(msgs), name, cut, seg)
    ctx.outcome("raw " + u["ch"])


def run_long(ctx, u):
    """Long announced messages of which only a part arrives."""
    lens = [1, 2, 255, 256, 4096, 65534, 65535, 65536, 65537, 131072, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 1 << 30, (1 << 31) - 1]
    for n in lens:
        for got in sorted({0, 1, 2, 100, 4095, 4096, 65535, 65536, 65537, n // 2, n - 1}):
            if got >= n or got > 200000:
                continue
            for name, e in [("eof", None)] + oserrors()[:3]:
                for before in ((), (b"ok",)):
                    ctx.begin(dict(u, announced=n, received=got, fault=name, before=len(before)))
                    data = b"".join(map(frame, before)) + struct.pack("<i", n) + b"\x33" * got
                    loop = sess.new_loop()
                    if u["ch"] == "sock":
                        sk = FakeSocket(data, read_fault=(len(data), (lambda: b"") if e is None else raiser(e)))
                        ch = S.SocketChannel(sk)
                    else:
                        E = StreamEnd(loop, data)
                        ch = E.channel()

                        def idle():
                            if E.inc and not E.lost:
                                E.give(min(65536, len(E.inc)))
                            elif E.eof or E.lost:
                                return False
                            elif name == "eof":
                                E.end()
                            else:
                                E.lose(e and e())
                            return True
                        loop.idle = idle
                    f = ch.read_sync if u["sync"] else ch.read
                    for m in before:
                        r = call(loop, u["sync"], f, ())
                        ctx.check(r[0] == "ok" and bytes(r[1]) == m, "complete message %r: %s", m[:20], sess.show(r))
                    for _ in range(2):
                        r = call(loop, u["sync"], f, ())
                        ctx.step()
                        ctx.check(sess.is_com(r), "%d of %d bytes received, read gives %s", got, n, sess.show(r))
                    loop.drop()
                    ctx.state(u, n, got, name, len(before))
    ctx.outcome("long " + u["ch"])


def run_unit(u, ctx):
    ctx.CASE_LIMIT_S = 40.0
    if u["t"] == "raw":
        run_raw(ctx, u)
        run_long(ctx, u)
    elif u["t"] == "msg":
        run_msg(ctx, u)
    elif u["t"] == "sock":
        run_sock(ctx, u)
    else:
        run_stream(ctx, u)
    ctx.sample(ctx.case)
