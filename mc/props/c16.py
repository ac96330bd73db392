"""C16: interleavings of sessions (tasks and threads), of concurrent writers and a reader, and cancelled reads."""
import asyncio
import itertools
import os
import pickle
import struct

from .. import explore, ref, sess, solo
from ..env import S
from ..loop import Net
from ..streams import StreamEnd, frame
from ..threads import Threads

BOUNDS = {
    "quick": "2 client/server pairs in one loop: all 3432 orders of I/O completions for 4 configuration pairs, with suspending writes all orders "
             "with <= 2 deviations from FIFO; 3 pairs with <= 2 deviations; 2-3 writer tasks and a reader on one session: all completion orders (with "
             "deviation bound 4 for the largest); cancelled reads: cancellation at each of up to 2 points among single-byte arrivals and message "
             "completions, also up to 6 turns of the event loop after an arrival; every pair of 10 kinds of sessions (completing, refused, misled, fed junk, queried) in all interleavings of their calls; 2 threads x 6 session pairs: every preemption point at source-line granularity, warm and with uninitialised singletons",
    "thorough": "as quick with suspending writes and 3 pairs up to 4 deviations, 3 cancellations, and all pairs of preemption points of 2 threads on a grid of 3 lines"
}
CFG = [dict(buf2=False, buf4=False), dict(buf2=True, buf4=True), dict(buf2=True, buf4=False), dict(buf2=False, buf4=True)]


def setup():
    sess.setup()


def units(tier):
    q = tier == "quick"
    us = [dict(kind="pairs", cfg=[0, 0], drain=False, bound=None), dict(kind="pairs", cfg=[0, 1], drain=False, bound=None),
          dict(kind="pairs", cfg=[1, 1], drain=False, bound=None), dict(kind="pairs", cfg=[2, 3], drain=False, bound=None)]
    us += [dict(kind="pairs", cfg=c, drain=True, bound=2 if q else 4) for c in ([0, 0], [0, 1], [1, 1], [2, 3])]
    us += [dict(kind="pairs", cfg=c, drain=False, bound=2 if q else 4) for c in ([0, 1, 2], [1, 1, 1], [0, 0, 0])]
    for role in ("client", "server"):
        for buf in (False, True):
            for shape in range(len(SHAPES)):
                us.append(dict(kind="writers", role=role, buf=buf, shape=shape, transport="msg"))
                us.append(dict(kind="writers", role=role, buf=buf, shape=shape, transport="stream"))
            us.append(dict(kind="cancel", role=role, buf=buf, transport="stream", cancels=1 if q else 2, first=None))
            us.append(dict(kind="cancel", role=role, buf=buf, transport="msg", cancels=3 if q else 5, first=None))
            us += [dict(kind="cancel", role=role, buf=buf, transport=tr, cancels=c, first=None, late=6) for tr, c in (("stream", 1), ("short", 1), ("msg", 2))]
    us += [dict(kind="cancel", role=r, buf=False, transport="short", cancels=2 if q else 3) for r in ("client", "server")]
    us += [dict(kind="cancelraw", s=i, cancels=3 if q else 4) for i in range(4)]
    us += [dict(kind="cancelraw", s=i, cancels=2, late=6) for i in range(4)]
    us += [dict(kind="turns", users=list(p)) for p in itertools.combinations_with_replacement(sorted(USERS), 2)]
    for a, b in itertools.combinations_with_replacement(range(len(BODIES)), 2):
        for start in (0, 1):
            for part in range(2):
                us.append(dict(kind="threads", a=a, b=b, start=start, part=part, of=2, cold=False))
    us += [dict(kind="threads", a=a, b=b, start=0, part=p, of=4, cold=True) for a, b in ((0, 0), (0, 1), (1, 1)) for p in range(4)]
    if not q:
        us += [dict(kind="threads2", a=a, b=b, part=p, of=16) for a, b in ((0, 0), (0, 1), (1, 1)) for p in range(16)]
    return us


# ------------------------------------------------------------------------------------------------ several sessions, one loop
KEYS = [dict(csig=sess.A_SIG, cenc=sess.A_ENC, ssig=sess.B_SIG, senc=sess.B_ENC), dict(csig=sess.C_SIG, cenc=sess.A2_ENC, ssig=sess.B_SIG, senc=sess.B2_ENC),
        dict(csig=sess.A_SIG, cenc=sess.C_ENC, ssig=sess.E_SIG, senc=sess.E_ENC)]


async def pair_script(p, i):
    """What the two ends of pair i do; -> everything they observe."""
    async def cl():
        await p.c.handshake()
        a = p.c.app_channel
        await a.write(b"c1-%d" % i)
        x = [await a.read(), a.last, await a.read(), a.last]
        await a.write(b"c2-%d" % i, b"", b"c3", is_last=i != 1)
        return x, bytes(p.c.session_key)

    async def sv():
        await p.s.handshake()
        a = p.s.app_channel
        x = [await a.read(), a.last]
        await a.write(b"s1-%d" % i, b"s2", is_last=i == 1)
        x += [await a.read(), await a.read(), await a.read(), a.last]
        return x, bytes(p.s.session_key), bytes(p.s.client_sig_key)
    return await asyncio.gather(cl(), sv())


def pairs_obs(p, r):
    c, s = p.c.app_channel, p.s.app_channel
    return r, p.cch.out, p.sch.out, c.last, s.last, bytes(p.c.session_key), bytes(p.s.session_key), bytes(p.s.client_sig_key), bytes(p.c.m3.ServerSigKey)


def run_pairs(ctx, u):
    n = len(u["cfg"])

    def make(i, net, loop):
        return sess.Pair(**CFG[u["cfg"][i]], **KEYS[i], drain=u["drain"], net=net, loop=loop, tag=str(i), wanted=KEYS[i]["ssig"].pub if i == 1 else None)
    alone = []
    for i in range(n):
        ctx.begin(dict(u, alone=i))
        net, loop = Net(), sess.new_loop()
        loop.idle = net.scheduler(explore.Chooser())
        p = make(i, net, loop)
        r = loop.call(pair_script(p, i))
        ctx.check(r[0] == "ok", "pair alone: %s", sess.show(r))
        alone.append(pairs_obs(p, r[1]))
        loop.drop()
        ctx.check(r[1][0][0][:3:2] == [b"s1-%d" % i, b"s2"] and r[1][0][0][3] is (i == 1) and
                  r[1][1][0] == [b"c1-%d" % i, False, b"c2-%d" % i, b"", b"c3", i != 1], "pair alone: %r", r[1])

    def run(chooser):
        ctx.begin(dict(u, choices=[c[0] for c in chooser.prefix]))
        net, loop = Net(), sess.new_loop()
        loop.idle = net.scheduler(chooser, ctx)
        ps = [make(i, net, loop) for i in range(n)]

        async def every():
            return await asyncio.gather(*(pair_script(p, i) for i, p in enumerate(ps)))
        r = loop.call(every())
        ctx.check(r[0] == "ok", "interleaved sessions: %s", sess.show(r))
        for i, p in enumerate(ps):
            o = pairs_obs(p, r[1][i])
            ctx.check(o == alone[i], "session %d behaves differently among others: %r instead of %r", i, o, alone[i])
        loop.drop()
        ctx.state(u, tuple(chooser.choices))
        ctx.outcome("%d pairs" % n)
    explore.explore(run, bound=u["bound"])


# ------------------------------------------------------------------------------------------------ users of one session
SHAPES = [
    [[(b"a1",), (b"a2", b"a3")], [(b"b1", b"b2", b"b3")]],
    [[(b"a1", b"", b"a3")], [(b"b1",)], [(b"c1", b"c2")]],
    [[(b"A" * 65536, b"a2")], [(b"b1", b"B" * 65536)]],
    [[(b"a1",), (b"a2",), (b"a3",)], [(b"b1",), (b"b2",)]],
]
PUSH = [(b"p1",), (b"p2", b"", b"p4"), (b"p5",)]


def open_session(u, ch_of, loop):
    """A real session handshaken with a reference peer; -> (session, peer, errors)."""
    peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if u["role"] == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
    errs = []

    def feed(msgs):
        out = []
        for m in msgs:
            try:
                out += peer.feed(m)
            except ValueError as e:
                errs.append(str(e))
        return out
    ch = ch_of(feed, peer.start() if u["role"] == "server" else [])
    s = sess.client(ch, buf4=u["buf"]) if u["role"] == "client" else sess.server(ch, buf2=u["buf"])
    return s, peer, errs, ch


class MsgEnd:
    """Message transport with explicit completions, suspending after the hand-over."""

    def __init__(self, net, feed, first):
        self.ch = sess.MCChannel(net, "x", drain=True)
        self.ch.inbox.extend(first)
        end = self

        class Sink:
            class inbox:
                @staticmethod
                def extend(msgs):
                    end.ch.inbox.extend(feed(msgs))
        self.ch.peer = Sink


def valid_order(got, writers):
    """Is `got` an interleaving of whole writes that keeps each writer's order?"""
    seqs = [[w for w in ws] for ws in writers]
    states = {tuple(0 for _ in seqs): 0}
    frontier = {(tuple(0 for _ in seqs), 0)}
    while frontier:
        new = set()
        for pos, off in frontier:
            if off == len(got) and all(p == len(s) for p, s in zip(pos, seqs)):
                return True
            for i, s in enumerate(seqs):
                if pos[i] < len(s):
                    w = s[pos[i]]
                    if tuple(got[off:off + len(w)]) == tuple(w):
                        new.add((pos[:i] + (pos[i] + 1,) + pos[i + 1:], off + len(w)))
        frontier = new
    return False


def run_writers(ctx, u):
    writers = SHAPES[u["shape"]]
    nread = sum(len(p) for p in PUSH)
    want = [m for p in PUSH for m in p]

    def run(chooser):
        ctx.begin(dict(u, choices=[c[0] for c in chooser.prefix]))
        loop = sess.new_loop()
        net = Net()
        st = dict(explore=False)
        if u["transport"] == "msg":
            s, peer, errs, ch = open_session(u, lambda feed, first: MsgEnd(net, feed, first).ch, loop)
            auto = explore.Chooser()

            def idle():
                return net.scheduler(chooser if st["explore"] else auto, ctx)()

            def push(m):
                ch.inbox.append(m)
        else:
            box = []

            def ch_of(feed, first):
                E = StreamEnd(loop, b"".join(map(frame, first)), feed=feed)
                box.append(E)
                E.on_write = lambda n: E.protocol.pause_writing() if st["explore"] and not E.protocol._paused else None
                return E.channel()
            s, peer, errs, ch = open_session(u, ch_of, loop)
            E = box[0]

            def idle():
                acts = []
                if E.protocol._paused:
                    acts.append(("resume", E.protocol.resume_writing))
                if E.inc:
                    if st["explore"]:
                        # one message per arrival
                        n = 4 + struct.unpack("<i", E.inc[:4])[0]
                        acts.append(("arrive", lambda: E.give(n)))
                    else:
                        acts.append(("all", E.give))
                if not acts:
                    return False
                c = chooser.choose(len(acts), ",".join(a[0] for a in acts)) if len(acts) > 1 and st["explore"] else 0
                ctx.step()
                acts[c][1]()
                return True

            def push(m):
                E.inc += frame(m)
        loop.idle = idle
        r = loop.call(s.handshake())
        ctx.check(r[0] == "ok" and not errs, "handshake: %s %r", sess.show(r), errs)
        for p in PUSH:
            push(peer.app(*p))
        st["explore"] = True
        a = s.app_channel

        async def writer(batches):
            for b in batches:
                await a.write(*b)

        async def reader():
            return [await a.read() for _ in range(nread)]

        async def every():
            return await asyncio.gather(reader(), *(writer(w) for w in writers))
        r = loop.call(every())
        ctx.check(r[0] == "ok", "concurrent users: %s", sess.show(r))
        ctx.check([bytes(m) for m in r[1][0]] == want, "reader got %r", r[1][0])
        ctx.check(not errs, "the peer refuses what the session sent: %r", errs)
        ctx.check(valid_order(peer.got, writers), "the peer received %r", [m[:8] for m in peer.got])
        loop.drop()
        ctx.state(u, tuple(chooser.choices))
        ctx.outcome("received %r" % ([m[:2] for m in peer.got],))
    explore.explore(run, bound=4 if not ctx.thorough else 6)


# ------------------------------------------------------------------------------------------------ cancelled reads
def cancel_driver(ctx, loop, read, total, actions, chooser, ncancel, late=0):
    """Reads `total` messages; at each idle point the explorer picks an arrival or cancels the pending read, also together with
    an arrival before the reader has run, or up to `late` turns of the event loop after it. -> messages read"""
    got, st = [], dict(task=None, left=ncancel)

    async def main():
        while len(got) < total:
            t = st["task"] = loop.create_task(read())
            try:
                got.append(await asyncio.shield(asyncio.wait([t])) and t.result())
            except asyncio.CancelledError:
                pass

    def idle():
        acts = list(actions())
        t = st["task"]
        if st["left"] and t is not None and not t.done():
            def cancel():
                st["left"] -= 1
                t.cancel()

            def after(f, k):
                def turn(k):
                    if k == 0:
                        if st["task"] is t and not t.done():
                            cancel()
                    else:
                        loop.call_soon(turn, k - 1)
                f()
                turn(k)
            both = [(n + "+cancel%d" % k, lambda f=f, k=k: after(f, k)) for n, f in acts for k in range(late + 1)]
            acts = acts + [("cancel", cancel)] + both
        if not acts:
            return False
        c = chooser.choose(len(acts), ",".join(a[0] for a in acts)) if len(acts) > 1 else 0
        ctx.step()
        acts[c][1]()
        return True
    loop.idle = idle
    r = loop.call(main())
    ctx.check(r[0] == "ok", "reads with cancellations end with %s after %r", sess.show(r), got)
    return [bytes(m) for m in got]


def run_cancel(ctx, u):
    push = [(b"p1",), (b"p2", b""), (b"p4",)] if u["transport"] != "short" else [(b"",), (b"", b"z")]
    want = [m for p in push for m in p]

    def run(chooser):
        ctx.begin(dict(u, choices=[c[0] for c in chooser.prefix]))
        loop = sess.new_loop()
        if u["transport"] == "msg":
            net = Net()

            def ch_of(feed, first):
                e = MsgEnd(net, feed, first)
                e.ch.drain = False
                return e.ch
            s, peer, errs, ch = open_session(u, ch_of, loop)
            loop.idle = net.scheduler(explore.Chooser())

            def push_msg(m):
                ch.inbox.append(m)

            def actions():
                return [("msg", lambda o=o: net.complete(o)) for o in net.enabled()[:1]]
        else:
            box = []

            def ch_of(feed, first):
                box.append(StreamEnd(loop, b"".join(map(frame, first)), feed=feed))
                return box[0].channel()
            s, peer, errs, ch = open_session(u, ch_of, loop)
            E = box[0]

            def idle():
                if E.inc:
                    E.give()
                    return True
                return False
            loop.idle = idle

            def push_msg(m):
                E.inc += frame(m)

            def actions():
                return [("byte", lambda: E.give(1))] if E.inc else []
        r = loop.call(s.handshake())
        ctx.check(r[0] == "ok" and not errs, "handshake: %s %r", sess.show(r), errs)
        for p in push:
            push_msg(peer.app(*p))
        got = cancel_driver(ctx, loop, s.app_channel.read, len(want), actions, chooser, u["cancels"], u.get("late", 0))
        ctx.check(got == want, "with cancelled reads the messages are %r", got)
        loop.drop()
        ctx.state(u, tuple(chooser.choices))
        ctx.outcome("%s %d choices" % (u["transport"], sum(1 for c in chooser.choices if c)))
    explore.explore(run)


def run_cancelraw(ctx, u):
    msgs = [[b"a", b""], [b"", b"xy"], [b"\1\0\0\0", b"q"], [b"abc"]][u["s"]]

    def run(chooser):
        ctx.begin(dict(u, choices=[c[0] for c in chooser.prefix]))
        loop = sess.new_loop()
        E = StreamEnd(loop, b"".join(map(frame, msgs)))
        ch = E.channel()
        got = cancel_driver(ctx, loop, ch.read, len(msgs), lambda: [("byte", lambda: E.give(1))] if E.inc else [], chooser, u["cancels"], u.get("late", 0))
        ctx.check(got == msgs, "with cancelled reads the messages are %r", got)
        loop.drop()
        ctx.state(u, tuple(chooser.choices))
        ctx.outcome("raw stream %d choices" % sum(1 for c in chooser.choices if c))
    explore.explore(run)


# ------------------------------------------------------------------------------------------------ sessions in turns
def looks(s, ch, peer):
    """Everything a user can see of a session."""
    def k(x):
        return bytes(x) if isinstance(x, (bytes, bytearray)) else x
    a = s.app_channel
    return (k(getattr(s, "session_key", None)), k(getattr(s, "client_sig_key", None)), getattr(s, "is_done", None), a is None or a.last,
            k(s.m3.ServerSigKey) if hasattr(s, "wanted_server_sig_key") and getattr(s, "m3", None) is not None else None,
            list(ch.out), list(peer.got), list(ch.errors))


def user(role, i, buf=False, how="ok", last=False):
    """A session of its own in five steps: make, handshake, write, read, write; with what can be seen after each."""
    def script(ctx):
        K = KEYS[i * 2]
        if role == "client":
            peer = ref.RefServer(K["ssig"] if how != "imposter" else sess.C_SIG, K["senc"])
        else:
            peer = ref.RefClient(K["csig"], K["cenc"], wanted=sess.C_SIG.pub if how == "nosuch" else K["ssig"].pub)
        ch = sess.RefPeerChannel.make(peer, inbox=peer.start() if role == "server" else ())
        if how == "nosuch" and role == "client":
            ch.feed = lambda msgs: [ref.m2(0, bytes(32), nosuch=True, last=True)]
        if how == "query":
            ch.inbox.clear()
            ch.inbox.append(ref.a1())
        s = (sess.client(ch, K["csig"], K["cenc"], buf4=buf, wanted=K["ssig"].pub if last or how == "imposter" else None) if role == "client" else
             sess.server(ch, K["ssig"], K["senc"], buf2=buf))

        def call(coro):
            r = ctx.loop.call(coro)
            return (r[0], type(r[1]).__name__ if r[0] == "exc" else r[1]), looks(s, ch, peer)
        yield looks(s, ch, peer)
        yield call(s.handshake())
        if how in ("nosuch", "imposter", "query"):
            yield looks(s, ch, peer)
            return
        a = s.app_channel
        yield call(a.write(b"w%d" % i, b"", is_last=last))
        ch.inbox.append(peer.app(b"r%d" % i, b"more", last=not last) if how == "ok" else b"\x06\x00" + bytes(40))
        yield call(a.read()), call(a.read()) if how == "ok" else None
        yield call(a.write(b"v%d" % i))
    return script


USERS = {"client": lambda i: user("client", i), "client buffered": lambda i: user("client", i, True, last=True), "server": lambda i: user("server", i, last=True),
         "server buffered": lambda i: user("server", i, True), "client junk": lambda i: user("client", i, how="junk"), "server junk": lambda i: user("server", i, how="junk"),
         "client refused": lambda i: user("client", i, how="nosuch"), "client misled": lambda i: user("client", i, how="imposter"),
         "server refuses": lambda i: user("server", i, how="nosuch"), "server asked": lambda i: user("server", i, how="query")}


def run_turns(ctx, u):
    def fresh():
        ctx.loop = sess.new_loop()
    solo.interleave(ctx, u, [lambda s=USERS[x](i): s(ctx) for i, x in enumerate(u["users"])], fresh)
    ctx.outcome("turns of %s" % " and ".join(u["users"]))


# ------------------------------------------------------------------------------------------------ threads
def body_client(keys, buf, tag):
    def f():
        try:
            peer = ref.RefServer(keys["ssig"], keys["senc"])
            ch = sess.RefPeerChannel.make(peer)
            s = sess.client(ch, keys["csig"], keys["cenc"], buf4=buf, wanted=keys["ssig"].pub)
            s.handshake_sync()
            ch.inbox.append(peer.app(b"in1" + tag, b"in2"))
            s.app_channel.write_sync(b"out1" + tag)
            x = [bytes(s.app_channel.read_sync()), bytes(s.app_channel.read_sync())]
            s.app_channel.write_sync(b"out2" + tag, b"", is_last=True)
            return x, ch.out, peer.got, ch.errors, bytes(s.session_key)
        finally:
            close_loop()
    return f


def body_server(keys, buf, tag):
    def f():
        try:
            peer = ref.RefClient(keys["csig"], keys["cenc"], wanted=keys["ssig"].pub)
            ch = sess.RefPeerChannel.make(peer, inbox=peer.start())
            s = sess.server(ch, keys["ssig"], keys["senc"], buf2=buf)
            s.handshake_sync()
            ch.inbox.append(peer.app(b"in1" + tag, b"in2"))
            x = [bytes(s.app_channel.read_sync()), bytes(s.app_channel.read_sync())]
            s.app_channel.write_sync(b"out1" + tag, b"more")
            return x, ch.out, peer.got, ch.errors, bytes(s.client_sig_key)
        finally:
            close_loop()
    return f


def body_a1(keys, buf, tag):
    def f():
        try:
            ps = tuple((b"A" * 9 + bytes([65 + i]), tag * 10) for i in range(3))
            ch = sess.ScriptChannel(feed=lambda m: [ref.a2(ps)])
            c = S.A1Client(ch)
            c.a1.data.AddressType, c.a1.data.AddressSize = 1, 32
            c.a1.Address = keys["ssig"].pub
            c.do_a1a2_sync()
            ch2 = sess.ScriptChannel([ref.a1(1, keys["ssig"].pub)])
            s = sess.server(ch2, keys["ssig"], keys["senc"], a2=c.a2)
            s.handshake_sync()
            return ch.out, bytes(c.a2), ch2.out, s.is_done
        finally:
            close_loop()
    return f


def close_loop():
    try:
        asyncio.get_event_loop_policy().get_event_loop().close()
    except RuntimeError:
        pass


BODIES = [body_client, body_server, body_a1]


def thread_case(ctx, u, preempt, start, solo):
    funcs = [BODIES[u["a"]](KEYS[0], False, b"x"), BODIES[u["b"]](KEYS[2], True, b"y")]
    T = Threads(funcs, preempt, start=start, stall_s=0.3)
    res = T.run()
    ctx.step(T.switches + 1)
    ctx.check(res is not None, "threads do not finish")
    for i in (0, 1):
        ctx.check(res[i] is not None and res[i][0] == "ok", "session in thread %d fails: %s", i, sess.show(res[i]) if res[i] else None)
        ctx.check(res[i][1] == solo[i], "session in thread %d behaves differently: %r instead of %r", i, res[i][1], solo[i])
    return T


def solo_of(ctx, u):
    funcs = [BODIES[u["a"]](KEYS[0], False, b"x"), BODIES[u["b"]](KEYS[2], True, b"y")]
    out, ev = [], []
    for i, f in enumerate(funcs):
        T = Threads([f], [])
        r = T.run()
        ctx.check(r and r[0][0] == "ok", "session alone in a thread: %s", sess.show(r[0]) if r else None)
        out.append(r[0][1])
        ev.append(T.events[0])
    return out, ev


def forked(ctx, f):
    """Run f() in a forked child (fresh module state); violations come back."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                v = ("ok", f())
            except explore.Violation as e:
                v = ("violation", e.msg)
            except BaseException as e:
                v = ("violation", "unexpected %s: %s" % (type(e).__name__, e))
            os.write(w, pickle.dumps(v))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    os.waitpid(pid, 0)
    ctx.check(data, "process with the threads died")
    v = pickle.loads(data)
    if v[0] != "ok":
        ctx.fail(v[1])
    return v[1]


def run_threads(ctx, u):
    ctx.begin(dict(u, preempt="none"))
    if u["cold"]:
        solo, ev = forked(ctx, lambda: solo_of(ctx, u))
    else:
        solo, ev = solo_of(ctx, u)
        solo, ev = solo_of(ctx, u)      # the second time everything lazily built exists
    s = u["start"]
    for k in range(ev[s] + 1):
        if k % u["of"] != u["part"]:
            continue
        ctx.begin(dict(u, preempt=[(s, k)]))
        if u["cold"]:
            forked(ctx, lambda: thread_case(ctx, u, [(s, k)], s, solo) and None)
            ctx.step(2)
        else:
            thread_case(ctx, u, [(s, k)], s, solo)
        ctx.state(u, k)
    ctx.outcome("threads %d %d %s" % (u["a"], u["b"], u["cold"]))


def run_threads2(ctx, u):
    ctx.begin(dict(u, preempt="none"))
    solo_of(ctx, u)
    solo, ev = solo_of(ctx, u)
    for n, (k, j) in enumerate(itertools.product(range(0, ev[0] + 1, 3), range(0, ev[1] + 1, 3))):
        if n % u["of"] != u["part"]:
            continue
        ctx.begin(dict(u, preempt=[(0, k), (1, j)]))
        thread_case(ctx, u, [(0, k), (1, j)], 0, solo)
        ctx.state(u, k, j)
    ctx.outcome("two preemptions %d %d" % (u["a"], u["b"]))


def run_unit(u, ctx):
    {"pairs": run_pairs, "writers": run_writers, "cancel": run_cancel, "cancelraw": run_cancelraw, "threads": run_threads, "threads2": run_threads2,
     "turns": run_turns}[u["kind"]](ctx, u)
    ctx.sample(ctx.case)
