"""C15: the blocking API against the coroutine API on identical histories, in the main thread, in worker threads and mixed."""
import asyncio
import inspect
import itertools
import threading

from .. import pk, ref, sess
from ..env import S
from ..explore import Violation
from ..streams import Blocked, FakeSocket, StreamEnd, frame, frames
from . import c10, c11

BOUNDS = {
    "quick": "handshakes of both roles x buffering x wanted key with each incoming message replaced by each of ~120 hostile or valid messages or by a "
             "transport error; all operation sequences of length <= 4 over 6 operations on application, encrypted, stream, socket, "
             "monitor and tunnel channels with valid, corrupt and missing input; all 32 style mixes of a 5-call session; "
             "each run as coroutines, as blocking calls, and as blocking calls in a fresh thread without event loop; channels and sessions given an explicit loop that is not the current one",
    "thorough": "operation sequences of length 5; 300 hostile messages"
}
STYLES = ("async", "sync", "thread")
APPOPS = ["w1", "w3", "wl", "wbig", "we", "r"]
CHANS = ["enc-client", "enc-server", "sock", "mitm", "tunnel", "stream"]


def setup():
    sess.setup()


def units(tier):
    us = [dict(kind="hs", role=r, buf=b, wanted=w, part=p) for r in ("client", "server") for b in (False, True) for w in (False, True) for p in range(2)]
    us += [dict(kind="app", role=r, buf=b, first=op, depth=4 if tier == "quick" else 5) for r in ("client", "server") for b in (False, True) for op in APPOPS]
    us += [dict(kind="chan", ch=c, depth=4 if tier == "quick" else 5) for c in CHANS]
    us += [dict(kind="mix", role=r, buf=b) for r in ("client", "server") for b in (False, True)]
    us += [dict(kind="a1"), dict(kind="names"), dict(kind="cross"), dict(kind="misuse"), dict(kind="other")]
    us += [dict(kind="slow", role=r, buf=b) for r in ("client", "server", "stream") for b in (False, True)]
    us += [dict(kind="args", ch=c) for c in ["app-client", "app-server"] + CHANS]
    return us


def norm(r):
    if r[0] == "exc":
        return ("exc", type(r[1]).__module__ + "." + type(r[1]).__name__, str(r[1]))
    return (r[0], bytes(r[1]) if isinstance(r[1], (bytes, bytearray)) else r[1])


def in_thread(f):
    """Run f in a fresh thread that has no event loop."""
    box = []

    def body():
        try:
            box.append(("ok", f()))
        except BaseException as e:
            box.append(("exc", e))
        finally:
            try:
                asyncio.get_event_loop_policy().get_event_loop().close()
            except RuntimeError:
                pass
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(60)
    if not box:
        return ("pending", None)
    return box[0]


def do(loop, style, obj, name, *args, **kw):
    try:
        if style == "async":
            try:
                coro = getattr(obj, name)(*args, **kw)
            except TypeError as e:              # wrong number of arguments
                return norm(("exc", e))
            return norm(loop.call(coro))
        return norm(sess.call_sync(getattr(obj, name + "_sync"), *args, **kw))
    except Blocked:
        return ("pending", None)


def three(ctx, run, what):
    """run(style) -> observation; all styles have to agree."""
    obs = {}
    for style in STYLES:
        if style == "thread":
            r = in_thread(lambda: run("sync", None))
            if r[0] == "exc":
                ctx.fail("%s: blocking calls in a fresh thread fail: %s: %s" % (what, type(r[1]).__name__, r[1]))
            ctx.check(r[0] == "ok", "%s: blocking calls in a fresh thread do not return", what)
            obs[style] = r[1]
        else:
            loop = sess.new_loop()
            obs[style] = run(style, loop)
            loop.drop()
        ctx.step(len(obs[style][0]))
    for style in STYLES[1:]:
        for i, (a, b) in enumerate(itertools.zip_longest(obs["async"], obs[style])):
            ctx.check(a == b, "%s: %s gives %s where the coroutines give %s", what, "blocking calls in a fresh thread" if style == "thread" else "blocking calls", str(b)[:300], str(a)[:300])
    return obs["async"]


# ------------------------------------------------------------------------------------------------ handshakes
def alphabet(thorough):
    mm1, mm2 = ref.m1(0, sess.A_ENC.pub), ref.m2(0, sess.B_ENC.pub)
    h12 = (ref.h(mm1), ref.h(mm2))
    key = ref.shared(sess.A_ENC.sec, sess.B_ENC.pub)
    out = list(c10.foreign(key, h12))
    out += [("empty", b""), ("garbage", b"\xff" * 50), ("low order M1", ref.m1(0, bytes(32))), ("low order M2", ref.m2(0, bytes(32))),
            ("late M1", ref.m1(5, sess.A_ENC.pub)), ("late M2", ref.m2(5, sess.B_ENC.pub)), ("A1 bad", ref.a1(1, b"xyz")), ("A1 type", ref.a1(7)),
            ("A2 bad", ref.a2(((b"##########", b"----------"),)))]
    more = []
    for n, m in out:
        if len(m) > 2:
            more += [(n + " short", m[:-1]), (n + " long", m + b"\0"), (n + " flipped", sess.flip(m, len(m) * 8 - 3))]
            if thorough:
                more += [(n + " half", m[:len(m) // 2]), (n + " typed", bytes([m[0] ^ 1]) + m[1:])]
    return out + more


def run_hs(ctx, u):
    role, buf = u["role"], u["buf"]
    al = [(None, None), ("fault", "fault")] + alphabet(ctx.thorough)
    al = al[:2] + [a for i, a in enumerate(al[2:]) if i % 2 == u["part"]]
    for k in (0, 1):
        for name, x in al:
            ctx.begin(dict(role=role, buf=buf, wanted=u["wanted"], replaced=k, by=name))

            def run(style, loop):
                n = [0]

                def sub(msgs):
                    out = []
                    for m in msgs:
                        if n[0] == k and x is not None and x != "fault":
                            m = x
                        n[0] += 1
                        out.append(m)
                    return out
                if role == "client":
                    peer = ref.RefServer(sess.B_SIG, sess.B_ENC)
                    first = []
                else:
                    peer = ref.RefClient(sess.A_SIG, sess.A_ENC, wanted=sess.B_SIG.pub if u["wanted"] else None)
                    first = sub(peer.start())
                errs = []

                def feed(msgs):
                    r = []
                    for m in msgs:
                        try:
                            r += peer.feed(m)
                        except ValueError as e:
                            errs.append(str(e))
                    return sub(r)
                reads = [0]

                def hook(op, i):
                    if op == "read":
                        reads[0] += 1
                        if x == "fault" and reads[0] - 1 == k:
                            raise S.ComException("fault")
                ch = sess.ScriptChannel(first, mode="eof", feed=feed, hook=hook)
                if role == "client":
                    s = sess.client(ch, buf4=buf, wanted=sess.B_SIG.pub if u["wanted"] else None)
                else:
                    s = sess.server(ch, buf2=buf)
                res = [do(loop, style, s, "handshake")]
                if res[0][0] == "ok" and s.app_channel is not None:
                    ch.inbox.append(peer.app(b"in1", b"in2"))
                    for op, a in (("write", (b"out",)), ("read", ()), ("read", ()), ("read", ())):
                        res.append(do(loop, style, s.app_channel, op, *a))
                attrs = [bytes(getattr(s, "session_key", b"") or b""), bytes(s.client_sig_key or b"") if role == "server" else None,
                         s.is_done if role == "server" else None, s.app_channel is None, s.app_channel is not None and s.app_channel.last]
                return res, ch.out, attrs, errs, ch.ops
            o = three(ctx, run, "handshake")
            ctx.outcome("%s %s" % (role, o[0][0][1] if o[0][0][0] == "exc" else o[0][0][0]))
            ctx.state(u, k, name)


# ------------------------------------------------------------------------------------------------ established channels
def app_op(loop, style, a, op):
    args = {"w1": (b"one",), "w3": (b"a", b"", b"c"), "wl": (b"bye",), "wbig": (b"B" * 65536, b"x"), "we": (b"",)}.get(op)
    if op == "r":
        return do(loop, style, a, "read")
    if op == "wl":
        return do(loop, style, a, "write", *args, is_last=True)
    return do(loop, style, a, "write", *args)


def run_app(ctx, u):
    role, buf = u["role"], u["buf"]
    for d in range(1, u["depth"] + 1):
        for rest in itertools.product(APPOPS, repeat=d - 1):
            ops = (u["first"],) + rest
            ctx.begin(dict(role=role, buf=buf, ops=ops))

            def run(style, loop):
                peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
                errs = []

                def feed(msgs):
                    r = []
                    for m in msgs:
                        try:
                            r += peer.feed(m)
                        except ValueError as e:
                            errs.append(str(e))
                    return r
                ch = sess.ScriptChannel(peer.start() if role == "server" else [], mode="eof", feed=feed)
                s = sess.client(ch, buf4=buf) if role == "client" else sess.server(ch, buf2=buf)
                res = [do(loop, style, s, "handshake")]
                if res[0][0] != "ok":
                    return res, ch.out
                ch.inbox.extend([peer.app(b"m1", b"m2", b""), ref.seal(peer.key, peer.wr, b"\x63\0"), b"junk"])
                peer.wr += 2
                ch.inbox.append(peer.app(b"tail", last=True))
                for op in ops:
                    res.append(app_op(loop, style, s.app_channel, op))
                    res.append(s.app_channel.last)
                return res, ch.out, errs, peer.got, ch.ops
            o = three(ctx, run, "ops")
            ctx.check(o[0][0][0] == "ok", "handshake: %r", o[0][0])
            for r in o[0][1:]:
                if isinstance(r, tuple):
                    ctx.outcome("%s" % (r[1] if r[0] == "exc" else r[0]))
            ctx.state(u, ops)


def make_chan(kind, loop):
    """-> (channel, observer)"""
    key = ref.shared(sess.A_ENC.sec, sess.B_ENC.pub)
    if kind in ("enc-client", "enc-server"):
        c = 2 if kind == "enc-client" else 1
        inbox = [ref.seal(key, c, b"first"), b"\6\0" + b"bad" * 9, ref.seal(key, c + 2, b"", last=True), ref.seal(key, c, b"first")]
        ch = sess.ScriptChannel(inbox, mode="eof")
        return S.EncChannel(ch, key, S.Role.CLIENT if kind == "enc-client" else S.Role.SERVER), lambda: (ch.out, ch.ops)
    if kind == "sock":
        sk = FakeSocket(frame(b"one") + frame(b"") + frame(b"two")[:5], eof=True)
        return S.SocketChannel(sk), lambda: (bytes(sk.sent), sk.pos)
    if kind == "mitm":
        ch = sess.ScriptChannel([b"one", b"", b"three"], mode="eof")
        m = S.Mitm(ch)
        return m, lambda: (ch.out, ch.ops, m.counter_read, m.counter_write)
    if kind == "tunnel":
        t = S.tunnel.Tunnel()
        def drain():
            got = []
            while True:
                r = sess.call_sync(t.channel2.read_sync)
                if r[0] != "ok":
                    return got
                got.append(r[1])
        sess.call_sync(t.channel2.write_sync, b"one", b"", b"three")
        return t.channel1, drain
    loop = loop or sess.MCLoop()
    E = StreamEnd(loop, frame(b"one") + frame(b"") + frame(b"two")[:5])
    E.give()
    E.end()
    return S.AsyncioChannel(E.reader, E.writer, loop=loop), lambda: bytes(E.sent)


def run_chan(ctx, u):
    for d in range(1, u["depth"] + 1):
        for ops in itertools.product(APPOPS, repeat=d):
            if d == u["depth"] and "wbig" in ops and u["ch"] != "tunnel":
                continue
            ctx.begin(dict(channel=u["ch"], ops=ops))

            def run(style, loop):
                ch, obs = make_chan(u["ch"], loop)
                res = []
                for op in ops:
                    res.append(app_op(loop, style, ch, op))
                    if u["ch"].startswith("enc"):
                        res.append(ch.last_flag)
                return res, obs()
            o = three(ctx, run, "channel " + u["ch"])
            for r in o[0]:
                if isinstance(r, tuple):
                    ctx.outcome("%s %s" % (u["ch"], r[1] if r[0] == "exc" else r[0]))
            ctx.state(u["ch"], ops)


def run_mix(ctx, u):
    """Every mix of the two styles within one session."""
    role, buf = u["role"], u["buf"]
    base = None
    for styles in itertools.product(("async", "sync"), repeat=6):
        ctx.begin(dict(role=role, buf=buf, styles=styles))
        loop = sess.new_loop()
        peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
        ch = sess.RefPeerChannel.make(peer, inbox=peer.start() if role == "server" else [])
        s = sess.client(ch, buf4=buf) if role == "client" else sess.server(ch, buf2=buf)
        res = [do(loop, styles[0], s, "handshake")]
        ctx.check(res[0][0] == "ok", "handshake: %r", res[0])
        ch.inbox.append(peer.app(b"m1", b"m2"))
        for st, op in zip(styles[1:], ("w1", "r", "w3", "r", "wl")):
            res.append(app_op(loop, st, s.app_channel, op))
        o = (res, ch.out, peer.got, peer.last, ch.errors)
        base = base or o
        ctx.check(o == base, "styles %r give %r instead of %r", styles, o, base)
        ctx.step(6)
        ctx.state(u, styles)
        loop.drop()
    ctx.check(not base[4] and base[2] == [b"one", b"a", b"", b"c", b"bye"], "session: %r", base)
    ctx.outcome("mixed %s" % role)


def run_a1(ctx, u):
    answers = [("none", None)] + [(n, m) for n, m in alphabet(True)] + [("A2 %d" % n, ref.a2(ref.DEFAULT_PROTS * n)) for n in (0, 1, 2, 64, 127)]
    for name, x in answers:
        for named in (None, sess.B_SIG.pub):
            for wfail in (False, True):
                ctx.begin(dict(answer=name, query=named, write_fails=wfail))

                def run(style, loop):
                    def hook(op, i):
                        if op == "write" and wfail:
                            raise S.ComException("write")
                    ch = sess.ScriptChannel(mode="eof", feed=lambda msgs: [] if x is None else [x], hook=hook)
                    c = S.A1Client(ch)
                    if named:
                        c.a1.data.AddressType, c.a1.data.AddressSize = 1, 32
                        c.a1.Address = named
                    r = do(loop, style, c, "do_a1a2")
                    return [r], ch.out, bytes(c.a2) if r[0] == "ok" and c.a2 is not None else None
                o = three(ctx, run, "address query")
                ctx.outcome("a1 %s" % (o[0][0][1] if o[0][0][0] == "exc" else o[0][0][0]))
                ctx.state(name, named, wfail)


PAUSES = (0, 0.001, 1, 5.5, 11, 31, 61, 301, 3601, 90000, None)


def run_slow(ctx, u):
    """Transports that take their time (virtual), up to a day or for ever, in both styles: time passing changes nothing."""
    role, buf = u["role"], u["buf"]
    base = None

    class Slow(sess.ScriptChannel):
        pause_read = pause_write = 0

        async def nap(self, d):
            if d is None:
                await asyncio.get_running_loop().create_future()
            elif d:
                await asyncio.sleep(d)

        async def read(self):
            await self.nap(self.pause_read)
            return await super().read()

        async def write(self, *a, **k):
            await self.nap(self.pause_write)
            return await super().write(*a, **k)

    def one(style, loop, pr, pw):
        if role == "stream":
            E = StreamEnd(loop, frame(b"one") + frame(b"") + frame(b"two" * 50) + frame(b"x"))
            a = S.AsyncioChannel(E.reader, E.writer, loop=loop)
            cuts = [3, 9, 20, len(E.inc)] if not buf else list(range(1, len(E.inc) + 1, 7)) + [len(E.inc)]

            def piece(i=0):
                E.give(cuts[i] - (cuts[i - 1] if i else 0))
                if i + 1 < len(cuts):
                    loop.call_later(pr or 0.0, piece, i + 1)
            if pr is not None:
                loop.call_later(pr, piece)
            res = []
            for op in ("r", "r", "w1", "r", "wl", "r", "w3"):
                res.append(app_op(loop, style, a, op))
            return res, bytes(E.sent)
        peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
        ch = Slow(peer.start() if role == "server" else [], feed=lambda ms: [x for m in ms for x in peer.feed(m)])
        s = sess.client(ch, buf4=buf) if role == "client" else sess.server(ch, buf2=buf)
        ch.pause_read, ch.pause_write = pr, pw
        res = [do(loop, style, s, "handshake")]
        if res[0][0] == "ok":
            ch.inbox.append(peer.app(b"m1", b"m2"))
            for op in ("w1", "r", "w3", "r", "wl"):
                res.append(app_op(loop, style, s.app_channel, op))
        return res, list(ch.out), list(peer.got), peer.last
    for pr in PAUSES:
        for pw in PAUSES if role != "stream" else (0,):
            got = {}
            for style in ("async", "sync"):
                ctx.begin(dict(role=role, buf=buf, pause_before_read=pr, pause_before_write=pw, style=style))
                loop = sess.new_loop()
                got[style] = one(style, loop, pr, pw)
                ctx.step(len(got[style][0]))
                if base is None:
                    base = got[style]
                    ctx.check(all(r[0] == "ok" for r in base[0]), "without pauses: %r", base[0])
                if pr is None or pw is None:
                    ctx.check(any(r[0] == "pending" for r in got[style][0]) and all(r[0] != "exc" for r in got[style][0]),
                              "a transport that never completes: %r", got[style][0])
                else:
                    ctx.check(got[style] == base, "with pauses: %r instead of %r", got[style], base)
                loop.drop()
            ctx.check(got["sync"] == got["async"], "blocking calls give %r where the coroutines give %r", got["sync"], got["async"])
            ctx.state(u, pr, pw)
            ctx.outcome("slow %s" % ("for ever" if pr is None or pw is None else "finite"))


def kinds(r):
    return (r[0], r[1]) if r[0] == "exc" else r


ARGS = [((None,), {}), (("text",), {}), ((5,), {}), ((-1,), {}), ((b"a", None), {}), ((b"a", "text"), {}), ((b"a", 7), {}), ((None, b"a"), {}), ((), {}),
        (([1, 2],), {}), (([300],), {}), ((bytearray(b"ba"),), {}), ((memoryview(b"mv"),), {}), ((b"a", bytearray(b"ba")), {}), ((b"a",), {"is_last": 1}),
        ((b"a",), {"is_last": None}), ((b"a", b"b"), {"is_last": "yes"}), ((b"a",), {"last": True}), ((object,), {}), ((1.5,), {}), ((True,), {})]


def run_args(ctx, u):
    """Arguments of other types and shapes: same results and kinds of errors in both styles, and the channel goes on alike."""
    for args, kw in ARGS:
        for after in ((), ("w1",), ("r", "w3"), ("wl", "r")):
            ctx.begin(dict(channel=u["ch"], args=repr(args), kw=repr(kw), after=after))

            def run(style, loop):
                if u["ch"].startswith("app"):
                    role = u["ch"][4:]
                    peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
                    ch = sess.ScriptChannel(peer.start() if role == "server" else [], mode="eof", feed=lambda ms: [x for m in ms for x in peer.feed(m)])
                    s = sess.client(ch) if role == "client" else sess.server(ch)
                    res = [do(loop, style, s, "handshake")]
                    ch.inbox.append(peer.app(b"m1", b"m2"))
                    ch, obs = s.app_channel, (lambda c=ch: (c.out, c.ops, peer.got))
                else:
                    res = []
                    ch, obs = make_chan(u["ch"], loop)
                res.append(kinds(do(loop, style, ch, "write", *args, **kw)))
                for op in after:
                    res.append(kinds(app_op(loop, style, ch, op)))
                return res, repr(obs()) if u["ch"] == "tunnel" else obs()
            three(ctx, run, "write" + repr(args))
            ctx.state(u["ch"], repr(args), repr(kw), after)
    ctx.outcome("argument shapes " + u["ch"])


def run_misuse(ctx, u):
    """Sessions set up wrongly fail alike in both styles."""
    K = sess.kp
    A, B = K(sess.A_SIG), K(sess.A_ENC)
    cases = [("no key", dict(enc=None)), ("short enc", dict(enc=S.KeyPair(sec=B.sec[:31], pub=B.pub))), ("short pub", dict(enc=S.KeyPair(sec=B.sec, pub=B.pub[:31]))),
             ("short sig", dict(sig=S.KeyPair(sec=A.sec[:63], pub=A.pub))), ("short sigpub", dict(sig=S.KeyPair(sec=A.sec, pub=A.pub[:31]))),
             ("short wanted", dict(wanted=bytes(31))), ("long wanted", dict(wanted=bytes(33))), ("text wanted", dict(wanted="x" * 32)),
             ("no sig", dict(sig=None)), ("no channel", dict(ch=None)), ("no clock", dict(tk=5)), ("no checker", dict(tc=5))]
    for role in ("client", "server"):
        for name, c in cases:
            ctx.begin(dict(role=role, misuse=name))

            def run(style, loop):
                peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.B_SIG, sess.B_ENC)
                ch = sess.RefPeerChannel.make(peer, inbox=peer.start() if role == "server" else [])
                ch.mode = "eof"
                s = (S.Client if role == "client" else S.Server)(c.get("sig", A), c.get("ch", ch))
                s.enc_keypair = c.get("enc", B)
                if "wanted" in c:
                    s.wanted_server_sig_key = c["wanted"]
                if "tk" in c:
                    s.time_keeper = c["tk"]
                if "tc" in c:
                    s.time_checker = c["tc"]
                return [kinds(do(loop, style, s, "handshake"))], ch.out
            o = three(ctx, run, name)
            ctx.outcome("misuse %s" % o[0][0][0])
            ctx.state(role, name)


def run_names(ctx, u):
    """Every public coroutine has its blocking counterpart."""
    t, mp = S.tunnel.Tunnel(), S.tunnel.TunnelMP()
    classes = [S.Client, S.Server, S.AppChannel, S.EncChannel, S.AsyncioChannel, S.SocketChannel, S.Mitm, S.A1Client,
               type(t.channel1), type(t.channel2), type(mp.channel1)]
    for c in classes:
        for name, f in inspect.getmembers(c, inspect.iscoroutinefunction):
            if name.startswith("_"):
                continue
            ctx.begin(dict(cls=c.__name__, coroutine=name))
            ctx.step()
            g = getattr(c, name + "_sync", None)
            ctx.check(callable(g) and not inspect.iscoroutinefunction(g), "%s.%s has no blocking counterpart", c.__name__, name)
            ctx.check(g is not getattr(S.ByteChannel, name + "_sync", None), "%s.%s_sync does nothing", c.__name__, name)
            ctx.state(c.__name__, name)
            ctx.outcome(c.__name__)


def run_cross(ctx, u):
    """Made in one thread, used in another; several sessions in a row in one thread; explicit loops."""
    def session(role, buf, loop=None):
        peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
        ch = sess.RefPeerChannel.make(peer, inbox=peer.start() if role == "server" else [])
        s = sess.client(ch, buf4=buf, loop=loop) if role == "client" else sess.server(ch, buf2=buf, loop=loop)
        return peer, ch, s

    def use(peer, ch, s):
        res = [norm(sess.call_sync(s.handshake_sync))]
        if res[0][0] != "ok":
            return res
        ch.inbox.append(peer.app(b"m1", b"m2"))
        for op in ("w1", "r", "w3", "r", "wl"):
            res.append(app_op(None, "sync", s.app_channel, op))
        return res, list(ch.out), list(peer.got)

    for role in ("client", "server"):
        for buf in (False, True):
            loop = sess.new_loop()
            base = use(*session(role, buf))
            ctx.check(isinstance(base, tuple), "session: %r", base)
            loop.drop()

            def same(o, what):
                ctx.check(o[0] == "ok", "%s: %r", what, o)
                ctx.check(o[1] == base, "%s: %r instead of %r", what, o[1], base)
                ctx.step(6)
                ctx.outcome(what)
            what = "made in the main thread, used in a thread without loop"
            ctx.begin(dict(role=role, buf=buf, what=what))
            loop = sess.new_loop()
            x = session(role, buf)
            same(in_thread(lambda: use(*x)), what)
            loop.drop()
            what = "made in a thread without loop, used in the main thread"
            ctx.begin(dict(role=role, buf=buf, what=what))
            box, hold, go = [], threading.Event(), threading.Event()

            def maker():
                box.append(session(role, buf))
                go.set()
                hold.wait(60)
                asyncio.get_event_loop_policy().get_event_loop().close()
            t = threading.Thread(target=maker, daemon=True)
            t.start()
            ctx.check(go.wait(30), "%s: not made", what)
            sess.new_loop()
            same(("ok", use(*box[0])), what)
            hold.set()
            t.join()
            for n in (2, 3):
                what = "several sessions in a row in one thread without loop"
                ctx.begin(dict(role=role, buf=buf, what=what, n=n))

                def many():
                    return [use(*session(role, buf)) for _ in range(n)]
                r = in_thread(many)
                ctx.check(r[0] == "ok", "%s: %r", what, r)
                for o in r[1]:
                    same(("ok", o), what)
                what = "threads without loop one after the other"
                ctx.begin(dict(role=role, buf=buf, what=what, n=n))
                for _ in range(n):
                    same(in_thread(lambda: use(*session(role, buf))), what)
            what = "explicit loop in a thread without loop"
            ctx.begin(dict(role=role, buf=buf, what=what))

            def explicit():
                lp = asyncio.new_event_loop()
                try:
                    peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
                    ch = sess.RefPeerChannel.make(peer, inbox=peer.start() if role == "server" else [], loop=lp)
                    s = sess.client(ch, buf4=buf, loop=lp) if role == "client" else sess.server(ch, buf2=buf, loop=lp)
                    ctx.check(s.loop is lp, "explicit loop not used")
                    return use(peer, ch, s)
                finally:
                    lp.close()
            same(in_thread(explicit), what)
            what = "channel made in the main thread, session in a thread without loop"
            ctx.begin(dict(role=role, buf=buf, what=what))
            loop = sess.new_loop()
            peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
            ch = sess.RefPeerChannel.make(peer, inbox=peer.start() if role == "server" else [])

            def late():
                return use(peer, ch, sess.client(ch, buf4=buf) if role == "client" else sess.server(ch, buf2=buf))
            same(in_thread(late), what)
            loop.drop()
            ctx.state(role, buf)
    what = "channel made in the main thread, address query in a thread without loop"
    ctx.begin(dict(what=what))
    loop = sess.new_loop()
    ch = sess.ScriptChannel(feed=lambda m: [ref.a2(ref.DEFAULT_PROTS)])

    def query():
        c = S.A1Client(ch)
        c.do_a1a2_sync()
        return bytes(c.a2)
    r = in_thread(query)
    ctx.check(r == ("ok", ref.a2(ref.DEFAULT_PROTS)) and ch.out == [((ref.a1(),), False)], "%s: %r %r", what, r, ch.out)
    loop.drop()
    for role in ("client", "server"):
        what = "transport made in the main thread, encrypted and application channels in a thread without loop"
        ctx.begin(dict(role=role, what=what))
        loop = sess.new_loop()
        ch = sess.ScriptChannel()

        def layers():
            e = S.EncChannel(ch, bytes(range(32)), S.Role.CLIENT if role == "client" else S.Role.SERVER, bytes(8))
            e.write_sync(ref.app(0, b"clear"))
            a = S.AppChannel(e, S.NullTimeKeeper(), S.NullTimeChecker())
            a.write_sync(b"m")
            return True
        r = in_thread(layers)
        ctx.check(r == ("ok", True) and len(ch.out) == 2, "%s: %r", what, r)
        loop.drop()


def run_other(ctx, u):
    """Objects given an explicit loop that is not the current one: blocking calls run on the given one."""
    for layer in ("stream", "enc", "client", "server"):
        for buf in (False, True):
            for thread in (False, True):
                ctx.begin(dict(kind="other", layer=layer, buf=buf, thread=thread))

                def go():
                    cur = None if thread else sess.new_loop()
                    L = sess.MCLoop()
                    E = StreamEnd(L)
                    n = [0]

                    def deliver(*msgs):
                        for m in msgs:
                            n[0] += 1
                            L.call_later(0.5 * n[0], E.reader.feed_data, frame(m))
                    ch = S.AsyncioChannel(E.reader, E.writer, loop=L)
                    key = ref.shared(sess.A_ENC.sec, sess.B_ENC.pub)
                    if layer == "stream":
                        deliver(b"one", b"", b"two")
                        r = [ch.read_sync() for _ in range(3)] + [ch.write_sync(b"a", b"b")]
                        want, sent = [b"one", b"", b"two", None], [b"a", b"b"]
                    elif layer == "enc":
                        e = S.EncChannel(ch, key, S.Role.SERVER if buf else S.Role.CLIENT, loop=L)
                        c = 1 if buf else 2
                        deliver(ref.seal(key, c, b"x"), ref.seal(key, c + 2, b"y"))
                        r = [e.read_sync(), e.write_sync(b"z"), e.read_sync()]
                        want, sent = [b"x", None, b"y"], [ref.seal(key, 3 - c, b"z")]
                    else:
                        if layer == "client":
                            peer = ref.RefServer(sess.B_SIG, sess.B_ENC)
                            deliver(*peer.feed(ref.m1(0, sess.A_ENC.pub)))
                            s = sess.client(ch, buf4=buf, loop=L)
                        else:
                            peer = ref.RefClient(sess.A_SIG, sess.A_ENC)
                            mm2 = ref.m2(0, sess.B_ENC.pub)
                            deliver(*peer.start())
                            mm3 = ref.seal(key, 2, ref.m3(0, sess.B_SIG.pub, ref.sign(ref.SIG1, ref.h(peer.m1), ref.h(mm2), sess.B_SIG.sec)))
                            peer.feed(mm2)
                            deliver(*peer.feed(mm3))
                            s = sess.server(ch, buf2=buf, loop=L)
                        deliver(peer.app(b"p", b"q"))
                        r = [s.handshake_sync(), s.app_channel.write_sync(b"a"), s.app_channel.read_sync(), s.app_channel.read_sync(), s.app_channel.write_sync(b"b", b"c")]
                        for m in frames(bytes(E.sent))[0][1 if layer == "client" else 2:]:
                            peer.feed(m)
                        r.append(list(peer.got))
                        want, sent = [None, None, b"p", b"q", None, [b"a", b"b", b"c"]], frames(bytes(E.sent))[0]
                    got = frames(bytes(E.sent))[0]
                    if cur is not None:
                        cur.drop()
                    L.close()
                    return r, want, got, sent
                if thread:
                    o = in_thread(go)
                else:
                    try:
                        o = ("ok", go())
                    except Violation:
                        raise
                    except Exception as e:
                        o = ("exc", e)
                ctx.step(6)
                ctx.check(o[0] == "ok", "%s on an explicit loop: %r", layer, o[1])
                ctx.check(o[1][0] == o[1][1] and o[1][2] == o[1][3], "%s on an explicit loop: %r", layer, o[1])
                ctx.state("other", layer, buf, thread)
    ctx.outcome("explicit loop that is not the current one")


def run_unit(u, ctx):
    {"hs": run_hs, "app": run_app, "chan": run_chan, "mix": run_mix, "a1": run_a1, "names": run_names, "cross": run_cross,
     "slow": run_slow, "args": run_args, "misuse": run_misuse, "other": run_other}[u["kind"]](ctx, u)
    ctx.sample(ctx.case)
