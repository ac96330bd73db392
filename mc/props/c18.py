"""C18: the monitoring decorator and the in-memory channels against a plain list model, over all operation sequences."""
import asyncio
import itertools
import logging
import os
import signal
import threading

from .. import explore, ref, sess, solo
from ..env import S
from ..streams import FakeSocket, StreamEnd, frame, frames

BOUNDS = {
    "quick": "monitor: all sequences of 5 of 9 operations in either API style, and of 4 of 18 operations in both, x (no log, log, buffered log), with every failing "
             "inner operation; log buffering switched in all sequences of 6; 2 reads cancelled or not x arrivals; over socket and stream channels; whole sessions of every configuration with and without monitor; "
             "tunnels: all sequences of 5 operations at 2 ends in both API styles, 8 message contents, up to 5000 waiting messages, 3000 monitored messages; sessions over the tunnels between 2 tasks, threads and processes; two tunnels (924 interleavings of 6 + 6 steps) and two monitors with own logs (3432 of 7 + 7) of every kind",
    "thorough": "as quick with monitor sequences of 6 operations (one style) and 5 (both styles), tunnel sequences of 7 operations",
}
MSGS = [(b"a",), (b"", b"b\0", b"\xff" * 3, b"b\0", b""), (b"x" * 300, b"y"), (b"L",)]
CONTENTS = [b"", b"\0", b"\n", b"\0\0\0\0", b"\xff" * 4, b"a" * 65536, bytes(range(256)), b"\x80" * 1000]


def setup():
    sess.setup()


def units(tier):
    q = tier == "quick"
    us = []
    for log in ("none", "now", "buffered"):
        for first in range(len(OPS)):
            us.append(dict(kind="mitm", log=log, styles=["async"], first=first, depth=5 if q else 6))
            us.append(dict(kind="mitm", log=log, styles=["sync"], first=first, depth=5 if q else 6))
            for st in ("async", "sync"):
                us.append(dict(kind="mitm", log=log, styles=["async", "sync"], first=first, fstyle=st, depth=4 if q else 5))
        us.append(dict(kind="cancel", log=log))
        us += [dict(kind="toggle", log=log, style=s, depth=6 if q else 7) for s in ("async", "sync") if log != "none"]
        us.append(dict(kind="real", log=log))
        us.append(dict(kind="session", log=log))
    for kind in ("Tunnel", "TunnelMP"):
        for first in range(8):
            us.append(dict(kind="tunnel", cls=kind, first=first, depth=5 if q else 7))
        us.append(dict(kind="contents", cls=kind))
        us.append(dict(kind="tunbig", cls=kind))
        us.append(dict(kind="tunlong", cls=kind, n=5000 if q else 50000))
    us += [dict(kind="monsize", log=l, style=s) for l in ("none", "now", "buffered") for s in ("async", "sync")]
    us += [dict(kind="monlong", log=l, n=3000 if q else 30000) for l in ("none", "now", "buffered")]
    for a, b in itertools.combinations_with_replacement(("Tunnel", "TunnelMP"), 2):
        us += [dict(kind="tunturns", cls=[a, b], style=s) for s in ("async", "sync")]
    for a, b in itertools.combinations_with_replacement(("none", "now", "buffered"), 2):
        us += [dict(kind="monturns", logs=[a, b], style=s) for s in ("async", "sync")]
    us += [dict(kind="tunsess", how=h) for h in ("lockstep", "threads", "processes")]
    return us


# ------------------------------------------------------------------------------------------------ monitor
OPS = ["w0", "w1", "w2", "last", "lastb", "read", "failread", "failwrite", "flush"]
BOOM = {"read": lambda: S.ComException("inner read"), "write": lambda: S.ComException("inner write")}


class Log:
    """A real logger whose records are kept."""
    n = 0

    def __init__(self):
        Log.n += 1
        self.logger = logging.Logger("mc%d" % Log.n)
        self.lines = []
        h = logging.Handler()
        h.emit = lambda rec: self.lines.append(rec.getMessage())
        self.logger.addHandler(h)


def make_inner(loop):
    class Inner(sess.ScriptChannel):
        fail = None

        def _op(self, kind):
            super()._op(kind)
            if self.fail is not None:
                e, self.fail = self.fail, None
                raise e
    return Inner(loop=loop)


class Monitor:
    def __init__(self, ctx, loop, log):
        self.ctx, self.loop, self.kind = ctx, loop, log
        self.inner = make_inner(loop)
        self.log = Log() if log != "none" else None
        self.m = S.Mitm(self.inner, log=self.log.logger if self.log else None, loop=loop)
        if log == "buffered":
            self.m.log_buffering = True
        self.n = 0
        self.out, self.want_log, self.pend, self.r, self.w = [], [], [], 0, 0

    def toggle(self):
        """Log buffering switched: what is buffered stays so until the flush."""
        self.kind = "now" if self.kind == "buffered" else "buffered"
        self.m.log_buffering = self.kind == "buffered"
        self.verify("toggle")

    def logged(self, d, data):
        (self.pend if self.kind == "buffered" else self.want_log).append((d, bytes(data)))

    def call(self, style, name, *a, **k):
        if style == "async":
            return self.loop.call(getattr(self.m, name)(*a, **k))
        return sess.call_sync(getattr(self.m, name + "_sync"), *a, **k)

    def do(self, op, style):
        ctx = self.ctx
        ctx.step()
        if op in ("w0", "w1", "w2", "last", "lastb"):
            msgs = MSGS[3] if op == "last" else MSGS[1] if op == "lastb" else MSGS[int(op[1])]
            last = op in ("last", "lastb")
            r = self.call(style, "write", *msgs, is_last=True) if last else self.call(style, "write", *msgs)
            ctx.check(r == ("ok", None), "%s %s: %s", style, op, sess.show(r))
            self.out.append((msgs, last))
            for m in msgs:
                self.w += len(m)
                self.logged("WRITE", m)
        elif op == "read":
            self.n += 1
            m = [b"r%d" % self.n, b"", b"\xfe" * 40][self.n % 3]
            self.inner.inbox.append(m)
            r = self.call(style, "read")
            ctx.check(r == ("ok", m), "%s read: %s instead of %r", style, sess.show(r), m)
            self.r += len(m)
            self.logged("READ", m)
        elif op in ("failread", "failwrite"):
            e = self.inner.fail = BOOM[op[4:]]()
            r = self.call(style, op[4:], *(() if op == "failread" else (b"lost", b"too")))
            ctx.check(r[0] == "exc" and r[1] is e, "%s %s: %s instead of the inner error", style, op, sess.show(r))
        else:
            self.m.flush_log_buffer()
            self.want_log += self.pend
            self.pend = []
        self.verify(op)

    def verify(self, op):
        ctx = self.ctx
        ctx.check(self.inner.out == self.out, "after %s the inner channel got %r instead of %r", op, self.inner.out, self.out)
        ctx.check(not self.inner.inbox, "after %s the inner channel still holds %r", op, list(self.inner.inbox))
        ctx.check((self.m.counter_read, self.m.counter_write) == (self.r, self.w), "after %s counters are %r instead of %r", op,
                  (self.m.counter_read, self.m.counter_write), (self.r, self.w))
        if self.log:
            got = self.log.lines
            ctx.check(len(got) == len(self.want_log), "after %s there are %d log lines for %d messages", op, len(got), len(self.want_log))
            for line, (d, data) in zip(got, self.want_log):
                ctx.check(d in line and data.hex() in line and (d == "WRITE" or "WRITE" not in line), "log line %r for %s of %r", line, d, data)

    def end(self):
        ctx = self.ctx
        self.m.close()
        ctx.check(self.inner.closed, "close() does not reach the inner channel")
        if self.kind == "buffered":
            self.do("flush", "sync")
            self.m.log_buffering, self.kind = False, "now"
            self.do("w1", "sync")
            self.do("flush", "sync")


def run_mitm(ctx, u):
    styles = u["styles"]
    ops = [(o, s) for o in OPS for s in styles if o != "flush" or s == styles[0]]
    firsts = [(o, s) for o, s in ops if o == OPS[u["first"]] and (u.get("fstyle") in (None, s) or o == "flush")]
    if OPS[u["first"]] == "flush" and u.get("fstyle") == "sync":
        return
    loop = sess.new_loop()
    for d in range(u["depth"]):
        if d != u["depth"] - 1 and d > 1:
            continue    # shorter sequences are prefixes of the longest ones
        for f in firsts:
            for rest in itertools.product(ops, repeat=d):
                seq = (f,) + rest
                ctx.begin(dict(u, seq=["%s/%s" % x for x in seq]))
                M = Monitor(ctx, loop, u["log"])
                for op, s in seq:
                    M.do(op, s)
                M.end()
                ctx.check(not loop.leaked, "errors left in the loop: %r", loop.leaked)
    ctx.state(u)
    ctx.outcome("%s %s %s" % (u["log"], "/".join(styles), OPS[u["first"]]))
    loop.drop()


def run_toggle(ctx, u):
    """Log buffering switched on and off at every place between operations and flushes."""
    loop = sess.new_loop()
    for seq in itertools.product(("toggle", "w0", "w1", "read", "flush"), repeat=u["depth"]):
        if seq.count("toggle") < 1:
            continue
        ctx.begin(dict(u, seq=seq))
        M = Monitor(ctx, loop, u["log"])
        for op in seq:
            if op == "toggle":
                ctx.step()
                M.toggle()
            else:
                M.do(op, u["style"])
        M.do("flush", u["style"])
        ctx.check(not M.pend, "not all flushed")
    ctx.state(u)
    ctx.outcome("toggle %s" % u["log"])
    loop.drop()


def run_cancel(ctx, u):
    """A pending read through the monitor may be cancelled; no message is lost, counted or logged twice."""
    for seq in itertools.product(("cancel", "arrive", "arrive+cancel"), repeat=4):
        ctx.begin(dict(u, seq=seq))
        loop = sess.new_loop()
        from ..loop import Net
        net = Net()
        ch = sess.MCChannel(net, "x", loop=loop)
        log = Log() if u["log"] != "none" else None
        m = S.Mitm(ch, log=log.logger if log else None, loop=loop)
        m.log_buffering = u["log"] == "buffered"
        got, want, steps, st = [], [b"m%d" % i for i in range(seq.count("arrive"))], list(seq), dict(t=None)
        ch.inbox.extend(want)
        steps += ["arrive"] * len(want)

        def idle():
            if not steps:
                return False
            s = steps.pop(0)
            ctx.step()
            if s.startswith("arrive") and net.enabled():
                net.complete(net.enabled()[0])
            if s.endswith("cancel"):
                st["t"].cancel()
            return True
        loop.idle = idle

        async def main():
            while len(got) < len(want):
                t = st["t"] = loop.create_task(m.read())
                await asyncio.wait([t])
                if not t.cancelled():
                    got.append(t.result())
        r = loop.call(main())
        ctx.check(r[0] == "ok", "cancelled reads through the monitor: %s", sess.show(r))
        ctx.check(got == want, "with cancelled reads the monitor delivers %r", got)
        ctx.check(m.counter_read == sum(map(len, want)), "counter_read is %d", m.counter_read)
        m.flush_log_buffer()
        if log:
            ctx.check(len(log.lines) == len(want) and all(w.hex() in l for w, l in zip(want, log.lines)), "log %r", log.lines)
        loop.drop()
        ctx.state(u, seq)
    ctx.outcome("cancel " + u["log"])


def run_real(ctx, u):
    """Over the library's own socket and stream channels."""
    batches = [[(b"a",)], [(b"", b"bc")], [(b"a",), (b"b" * 70000, b"")], [(b"x", b"y", b"z"), (b"",)]]
    for incoming, out, tr, style in itertools.product(batches, batches, ("socket", "stream"), ("async", "sync")):
        inc = [m for b in incoming for m in b]
        ctx.begin(dict(u, tr=tr, style=style, inc=[len(m) for m in inc], out=[[len(m) for m in b] for b in out]))
        loop = sess.new_loop()
        if tr == "socket":
            E = FakeSocket(b"".join(map(frame, inc)), eof=True)
            ch = S.SocketChannel(E)
            loop.idle = None
        else:
            E = StreamEnd(loop, b"".join(map(frame, inc)))
            ch = E.channel()

            def idle():
                if E.inc:
                    E.give()
                elif not E.eof:
                    E.end()
                else:
                    return False
                return True
            loop.idle = idle
        log = Log() if u["log"] != "none" else None
        m = S.Mitm(ch, log=log.logger if log else None)
        m.log_buffering = u["log"] == "buffered"

        def call(name, *a, **k):
            ctx.step()
            return loop.call(getattr(m, name)(*a, **k)) if style == "async" else sess.call_sync(getattr(m, name + "_sync"), *a, **k)
        for b in out:
            r = call("write", *b)
            ctx.check(r[0] == "ok", "write: %s", sess.show(r))
        for x in inc:
            r = call("read")
            ctx.check(r[0] == "ok" and bytes(r[1]) == x, "read: %s", sess.show(r))
        r = call("read")
        ctx.check(sess.is_com(r), "read at the end of the stream: %s", sess.show(r))
        fr = frames(bytes(E.sent))
        ctx.check(fr == ([x for b in out for x in b], b""), "the transport got %r", fr)
        ctx.check((m.counter_read, m.counter_write) == (sum(map(len, inc)), sum(len(x) for b in out for x in b)), "counters %r", (m.counter_read, m.counter_write))
        m.flush_log_buffer()
        if log:
            ctx.check(len(log.lines) == len(inc) + sum(map(len, out)), "%d log lines", len(log.lines))
        loop.drop()
        ctx.state(u, tr, style, tuple(inc), tuple(out))
    ctx.outcome("real " + u["log"])


def run_session(ctx, u):
    """Sessions run the same with and without the monitor below them."""
    for role, buf, style in itertools.product(("client", "server"), (False, True), ("async", "sync")):
        obs = []
        for wrap in (False, True, "twice"):
            ctx.begin(dict(u, role=role, buf=buf, style=style, wrap=wrap))
            loop = sess.new_loop()
            peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
            ch = sess.RefPeerChannel.make(peer, inbox=peer.start() if role == "server" else ())
            top, log = ch, None
            for _ in range({False: 0, True: 1, "twice": 2}[wrap]):
                log = Log() if u["log"] != "none" else None
                top = S.Mitm(top, log=log.logger if log else None)
                top.log_buffering = u["log"] == "buffered"
            s = sess.client(top, buf4=buf) if role == "client" else sess.server(top, buf2=buf)

            def call(o, name, *a, **k):
                ctx.step()
                return loop.call(getattr(o, name)(*a, **k)) if style == "async" else sess.call_sync(getattr(o, name + "_sync"), *a, **k)
            r = call(s, "handshake")
            ctx.check(r[0] == "ok", "handshake: %s", sess.show(r))
            ch.inbox.append(peer.app(b"in1"))
            ch.inbox.append(peer.app(b"in2", b"", b"in4"))
            x = [call(s.app_channel, "write", b"o1"), call(s.app_channel, "read"), call(s.app_channel, "write", b"o2", b""),
                 call(s.app_channel, "read"), call(s.app_channel, "read"), call(s.app_channel, "read"), call(s.app_channel, "write", b"end", is_last=True)]
            ch.inbox.append(b"\x06\x00junk")
            bad = call(s.app_channel, "read")
            ctx.check(sess.is_badpeer(bad), "junk: %s", sess.show(bad))
            ctx.check(all(v[0] == "ok" for v in x) and not ch.errors, "%r %r", x, ch.errors)
            obs.append(([v[1] for v in x], ch.out, peer.got))
            if wrap:
                ctx.check(top.counter_write == sum(len(m) for m in ch.sent), "counter_write %d", top.counter_write)
            loop.drop()
            ctx.state(u, role, buf, style, wrap)
        ctx.check(obs[0] == obs[1] == obs[2], "a session behaves differently with a monitor below it: %r", obs)
    ctx.outcome("session " + u["log"])


# ------------------------------------------------------------------------------------------------ tunnels
TOPS = [(e, o, s) for e in (0, 1) for o in ("w", "b", "r") for s in ("async", "sync")]


def run_tunnel(ctx, u):
    wops = [t for t in TOPS if t[1] != "r"]
    first = wops[u["first"]]
    loop = sess.new_loop()
    for rest in itertools.product(TOPS, repeat=u["depth"] - 1):
        # only reads that have something to read
        level, ok = [0, 0], True
        for e, o, s in (first,) + rest:
            if o == "r":
                level[e] -= 1
                if level[e] < 0:
                    ok = False
                    break
            else:
                level[1 - e] += 1 if o == "w" else 3
        if not ok:
            continue
        ctx.begin(dict(u, seq=[first] + list(rest)))
        T = getattr(S.tunnel, u["cls"])()
        ends, q, n = (T.channel1, T.channel2), ([], []), 0
        script = list((first,) + rest)
        script += [(e, "r", "async") for e in (0, 1) for _ in range(level[e])]
        for e, o, s in script:
            ctx.step()
            name = "read" if o == "r" else "write"
            n += 1
            args = {"r": (), "w": (b"m%d" % n,), "b": (b"", b"n%d" % n, b"\0" * n)}[o]
            r = loop.call(getattr(ends[e], name)(*args)) if s == "async" else sess.call_sync(getattr(ends[e], name + "_sync"), *args)
            if o == "r":
                w = q[e].pop(0)
                ctx.check(r[0] == "ok" and bytes(r[1]) == w, "end %d reads %s instead of %r", e, sess.show(r), w)
            else:
                ctx.check(r[0] == "ok", "write at end %d: %s", e, sess.show(r))
                q[1 - e].extend(args)
        if u["cls"] == "Tunnel":
            for e in (0, 1):
                r = loop.call(ends[e].read())
                ctx.check(r[0] != "ok", "end %d reads %s when everything written was read", e, sess.show(r))
        ctx.state(u, rest)
    loop.drop()
    ctx.outcome("%s %r" % (u["cls"], first))


def run_contents(ctx, u):
    loop = sess.new_loop()
    for e, s, last in itertools.product((0, 1), ("async", "sync"), (False, True)):
        for a, b in itertools.product(CONTENTS, repeat=2):
            ctx.begin(dict(u, end=e, style=s, a=a, b=b, last=last))
            T = getattr(S.tunnel, u["cls"])()
            x, y = (T.channel1, T.channel2)[::-1 if e else 1]

            def call(o, name, *args, **k):
                ctx.step()
                return loop.call(getattr(o, name)(*args, **k)) if s == "async" else sess.call_sync(getattr(o, name + "_sync"), *args, **k)
            if len(a) + len(b) < 100000:
                steps = [(x, "write", (a, b), None), (y, "read", (), a), (y, "read", (), b)]
            else:
                steps = [(x, "write", (a,), None), (y, "read", (), a), (x, "write", (b,), None), (y, "read", (), b)]
            for o, name, args, w in steps:
                r = call(o, name, *args, **({"is_last": last} if name == "write" else {}))
                ctx.check(r[0] == "ok" and (w is None or bytes(r[1]) == w), "%s of %r: %s", name, args, sess.show(r))
            ctx.state(u, e, s, last, a, b)
    loop.drop()
    ctx.outcome("contents " + u["cls"])


def endpoints(T, buf2, buf4):
    c = sess.client(T.channel1, buf4=buf4, wanted=sess.B_SIG.pub)
    s = sess.server(T.channel2, buf2=buf2)
    return c, s


def c_script(c):
    c.handshake_sync()
    c.app_channel.write_sync(b"c1", b"", b"c3" * 1000)
    r = [bytes(c.app_channel.read_sync()) for _ in range(2)]
    c.app_channel.write_sync(b"bye", is_last=True)
    return r


def s_script(s):
    s.handshake_sync()
    r = [bytes(s.app_channel.read_sync()) for _ in range(3)]
    s.app_channel.write_sync(b"s1", b"s2")
    r.append(bytes(s.app_channel.read_sync()))
    return r, bytes(s.client_sig_key)


C_WANT, S_WANT = [b"s1", b"s2"], ([b"c1", b"", b"c3" * 1000, b"bye"], sess.A_SIG.pub)


def run_tunsess(ctx, u):
    for buf2, buf4 in itertools.product((False, True), repeat=2):
        ctx.begin(dict(u, buf2=buf2, buf4=buf4))
        if u["how"] == "lockstep":
            # each end written by one channel is read by a reference peer at the other
            for cls in ("Tunnel", "TunnelMP"):
                loop = sess.new_loop()
                T = getattr(S.tunnel, cls)()
                peer = ref.RefServer(sess.B_SIG, sess.B_ENC)

                class Bridge(S.ByteChannel):
                    async def read(self):
                        return await T.channel1.read()

                    async def write(self, msg, *args, is_last=False):
                        await T.channel1.write(msg, *args, is_last=is_last)
                        for _ in (msg,) + args:
                            for a in peer.feed(bytes(await T.channel2.read())):
                                await T.channel2.write(a)
                c = sess.client(Bridge(), buf4=buf4)
                r = loop.call(c.handshake())
                ctx.check(r[0] == "ok", "handshake over %s: %s", cls, sess.show(r))
                loop.call(T.channel2.write(peer.app(b"q1", b"q2")))
                r = [loop.call(c.app_channel.write(b"w")), loop.call(c.app_channel.read()), loop.call(c.app_channel.read())]
                ctx.check([x[1] for x in r] == [None, b"q1", b"q2"] and peer.got == [b"w"], "%r %r", r, peer.got)
                ctx.step(5)
                loop.drop()
        elif u["how"] == "threads":
            T = S.tunnel.TunnelMP()
            res = {}

            def body(name, f):
                try:
                    loop = asyncio.new_event_loop()
                    asyncio.set_event_loop(loop)
                    try:
                        # each end of the tunnel is used by one thread only
                        chan = T.channel1 if name == "c" else T.channel2
                        chan.loop = loop
                        c, s = (sess.client(chan, buf4=buf4, wanted=sess.B_SIG.pub), None) if name == "c" else (None, sess.server(chan, buf2=buf2))
                        res[name] = f(c or s)
                    finally:
                        loop.close()
                except BaseException as e:
                    res[name] = e
            ts = [threading.Thread(target=body, args=a, daemon=True) for a in (("c", c_script), ("s", s_script))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(30)
            ctx.check(res.get("c") == C_WANT and res.get("s") == S_WANT, "session over TunnelMP between threads: %r", res)
            ctx.step(12)
        else:
            sess.new_loop()
            asyncio.set_event_loop(asyncio.new_event_loop())
            T = S.tunnel.TunnelMP()
            pid = os.fork()
            if pid == 0:
                rc = 1
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(100)
                try:
                    rc = 0 if s_script(sess.server(T.channel2, buf2=buf2)) == S_WANT else 2
                finally:
                    os._exit(rc)
            r = sess.call_sync(c_script, sess.client(T.channel1, buf4=buf4, wanted=sess.B_SIG.pub))
            if r[0] != "ok":
                os.kill(pid, 9)
            _, st = os.waitpid(pid, 0)
            ctx.check(r == ("ok", C_WANT) and st == 0, "session over TunnelMP between processes: %s, server status %d", sess.show(r), st)
            ctx.step(12)
        ctx.state(u, buf2, buf4)
    ctx.outcome("session over tunnel, " + u["how"])


# ------------------------------------------------------------------------------------------------ long runs
def run_tunlong(ctx, u):
    """Many messages waiting in both directions at once."""
    loop = sess.new_loop()
    for n in (1, 2, 16, 17, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025, u["n"]):
        n = n if u["cls"] == "Tunnel" else min(n, 64)      # a pipe holds only so much
        ctx.begin(dict(u, waiting=n))
        T = getattr(S.tunnel, u["cls"])()
        for e, ch in enumerate((T.channel1, T.channel2)):
            for i in range(n):
                r = loop.call(ch.write(b"%d.%d" % (e, i)))
                ctx.check(r[0] == "ok", "write: %s", sess.show(r))
        for e, ch in enumerate((T.channel1, T.channel2)):
            for i in range(n):
                r = loop.call(ch.read())
                ctx.check(r[0] == "ok" and bytes(r[1]) == b"%d.%d" % (1 - e, i), "with %d waiting, message %d is %s", n, i, sess.show(r))
        ctx.step(4 * n)
        ctx.state(u, n)
    loop.drop()
    ctx.outcome("long tunnel")


def run_tunbig(ctx, u):
    """Large messages, the writer in a thread of its own as a pipe holds only so much; and through a monitor."""
    sizes = [0, 1, 4095, 4096, 65535, 65536, 65537, 262145, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 24) + 1] + ([(1 << 26) + 1] if ctx.thorough else [])
    for e, style in itertools.product((0, 1), ("async", "sync")):
        T = getattr(S.tunnel, u["cls"])()
        x, y = (T.channel1, T.channel2)[::-1 if e else 1]
        for n in sizes:
            ctx.begin(dict(u, end=e, style=style, size=n))
            m = (bytes(range(251)) * (n // 251 + 1))[:n]
            box = []

            def send():
                loop = asyncio.new_event_loop()
                try:
                    if style == "async":
                        box.append(("ok", loop.run_until_complete(x.write(m, b"tail"))))
                    else:
                        x.loop = loop
                        box.append(("ok", x.write_sync(m, b"tail")))
                except BaseException as ex:
                    box.append(("exc", ex))
                finally:
                    loop.close()
            t = threading.Thread(target=send, daemon=True)
            loop = sess.new_loop()
            y.loop = loop
            t.start()
            if u["cls"] == "Tunnel":
                t.join()
            for w in (m, b"tail"):
                r = loop.call(y.read()) if style == "async" else sess.call_sync(y.read_sync)
                ctx.check(r[0] == "ok" and bytes(r[1]) == w, "message of %d bytes read as %s", len(w), sess.show(r)[:100])
            t.join(60)
            ctx.check(box == [("ok", None)], "write of %d bytes: %r", n, box)
            ctx.step(3)
            ctx.state(u, e, style, n)
            loop.drop()
    for style, n in itertools.product(("async", "sync"), sizes):
        ctx.begin(dict(u, monitor=True, style=style, size=n))
        m = (bytes(range(251)) * (n // 251 + 1))[:n]
        loop = sess.new_loop()
        inner = make_inner(loop)
        inner.inbox.append(m)
        mon = S.Mitm(inner, log=None, loop=loop)
        r = loop.call(mon.write(m, m[:7])) if style == "async" else sess.call_sync(mon.write_sync, m, m[:7])
        ctx.check(r[0] == "ok" and inner.out == [((m, m[:7]), False)], "write of %d bytes through the monitor: %s", n, sess.show(r)[:100])
        r = loop.call(mon.read()) if style == "async" else sess.call_sync(mon.read_sync)
        ctx.check(r == ("ok", m), "read of %d bytes through the monitor: %s", n, sess.show(r)[:100])
        ctx.check((mon.counter_read, mon.counter_write) == (n, n + len(m[:7])), "counters %r", (mon.counter_read, mon.counter_write))
        loop.drop()
    ctx.outcome("large messages")


def run_monsize(ctx, u):
    """Messages of every size class in every direction through a monitor."""
    loop = sess.new_loop()
    sizes = sorted({(1 << k) + d for k in range(21) for d in (-1, 0, 1)} | {100, 1000, 5000, 100000})
    for n in sizes:
        d = bytes([n & 0xff, 0x10, n >> 8 & 0xff]) * (n // 3 + 1)
        d = d[:n]
        for op in ("read", "write", "first", "second"):
            ctx.begin(dict(u, size=n, op=op))
            M = Monitor(ctx, loop, u["log"])
            if op == "read":
                M.inner.inbox.append(d)
                r = M.call(u["style"], "read")
                ctx.check(r == ("ok", d), "read: %s", sess.show(r))
                M.r += n
                M.logged("READ", d)
            else:
                msgs = dict(write=(d,), first=(d, b"x"), second=(b"x", d))[op]
                r = M.call(u["style"], "write", *msgs)
                ctx.check(r == ("ok", None), "write: %s", sess.show(r))
                M.out.append((msgs, False))
                for m in msgs:
                    M.w += len(m)
                    M.logged("WRITE", m)
            M.verify(op)
            if u["log"] == "buffered":
                M.do("flush", u["style"])
            ctx.step()
            ctx.state(u, n, op)
    loop.drop()
    ctx.outcome("sizes through a monitor")


def run_monlong(ctx, u):
    loop = sess.new_loop()
    for style in ("async", "sync"):
        ctx.begin(dict(u, style=style))
        inner = make_inner(loop)
        log = Log() if u["log"] != "none" else None
        m = S.Mitm(inner, log=log.logger if log else None, loop=loop)
        m.log_buffering = u["log"] == "buffered"
        want, rd, wr = [], 0, 0
        for i in range(u["n"]):
            d = b"%d" % i
            if i % 3:
                r = loop.call(m.write(d, b"+")) if style == "async" else sess.call_sync(m.write_sync, d, b"+")
                ctx.check(r[0] == "ok" and inner.out[-1] == ((d, b"+"), False), "write %d: %s", i, sess.show(r))
                want += [("WRITE", d), ("WRITE", b"+")]
                wr += len(d) + 1
            else:
                inner.inbox.append(d)
                r = loop.call(m.read()) if style == "async" else sess.call_sync(m.read_sync)
                ctx.check(r == ("ok", d), "read %d: %s", i, sess.show(r))
                want.append(("READ", d))
                rd += len(d)
            ctx.step()
        ctx.check((m.counter_read, m.counter_write) == (rd, wr), "counters %r instead of %r", (m.counter_read, m.counter_write), (rd, wr))
        if log:
            if u["log"] == "buffered":
                ctx.check(not log.lines, "%d lines before the flush", len(log.lines))
                m.flush_log_buffer()
            ctx.check(len(log.lines) == len(want), "%d log lines for %d messages", len(log.lines), len(want))
            for line, (d, data) in zip(log.lines, want):
                ctx.check(d in line and data.hex() in line, "log line %r for %s of %r", line, d, data)
        ctx.state(u, style)
    loop.drop()
    ctx.outcome("long monitor " + u["log"])


# ------------------------------------------------------------------------------------------------ several at once
def tunnel_user(ctx, cls, style, i):
    def script():
        T = getattr(S.tunnel, cls)()

        def call(end, name, *a):
            ch = (T.channel1, T.channel2)[end]
            r = ctx.loop.call(getattr(ch, name)(*a)) if style == "async" else sess.call_sync(getattr(ch, name + "_sync"), *a)
            return r[0], bytes(r[1]) if isinstance(r[1], (bytes, bytearray)) else r[1] if r[0] == "ok" else repr(r[1])
        yield "made"
        yield call(0, "write", b"a%d" % i, b"")
        yield call(1, "write", b"b%d" % i)
        yield call(1, "read"), call(1, "read")
        yield call(1, "write", b"c%d" % i)
        yield call(0, "read"), call(0, "read")
    return script, ["made", ("ok", None), ("ok", None), (("ok", b"a%d" % i), ("ok", b"")), ("ok", None), (("ok", b"b%d" % i), ("ok", b"c%d" % i))]


def run_tunturns(ctx, u):
    us = [tunnel_user(ctx, c, u["style"], i) for i, c in enumerate(u["cls"])]

    def fresh():
        ctx.loop = sess.new_loop()
    solo.interleave(ctx, u, [s for s, _ in us], fresh, [e for _, e in us])
    ctx.outcome("two tunnels")


def monitor_user(ctx, log, style, i):
    def script():
        M = Monitor(ctx, ctx.loop, log)

        def obs():
            return M.m.counter_read, M.m.counter_write, list(M.inner.out), len(M.log.lines) if M.log else 0
        yield obs()
        for op in ("w%d" % (i + 1), "read", "failwrite", "flush", "last"):
            M.do(op, style)
            yield obs()
        M.end()
        M.verify("end")
        yield obs()
    return script


def run_monturns(ctx, u):
    """Two monitors with channels and logs of their own, in every interleaving of their operations."""
    def fresh():
        ctx.loop = sess.new_loop()
    solo.interleave(ctx, u, [monitor_user(ctx, l, u["style"], i) for i, l in enumerate(u["logs"])], fresh)
    ctx.outcome("two monitors")


def run_unit(u, ctx):
    {"mitm": run_mitm, "cancel": run_cancel, "toggle": run_toggle, "real": run_real, "session": run_session, "tunnel": run_tunnel, "contents": run_contents,
     "tunsess": run_tunsess, "tunturns": run_tunturns, "monturns": run_monturns,
     "tunlong": run_tunlong, "tunbig": run_tunbig, "monlong": run_monlong, "monsize": run_monsize}[u["kind"]](ctx, u)
    ctx.sample(ctx.case)
