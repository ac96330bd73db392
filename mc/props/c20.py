"""C20: the bundled example sessions exchange exactly the traffic they describe.

 sync    both halves of the blocking examples as lock-stepped threads over message channels: 1-2 pairs at once on one session
         object, every interleaving of the deliveries, the connection of one pair cut before every delivery
 async   the asyncio examples on the repository's stream classes and a controlled loop: 1-2 clients at once, every
         interleaving, every chunking of the bytes, a connection lost before every delivery
 peer    the server halves against an independent client: other keys, several sessions on one connection, other messages
 echo    the echo servers over all sequences of messages
 main    every example's own main program, with what it prints
"""
import asyncio
import importlib
import io
import itertools
import logging
import os
import re
import signal
import struct
import subprocess
import sys
import threading
import time
import contextlib

from .. import explore, ref, sess
from ..env import S
from ..streams import frame, frames
from . import c19

BOUNDS = {
    "quick": "blocking examples: 2 pairs at once, all interleavings of their deliveries (at most 3 switches away from the first "
             "ready session for example 3 and the echo), every cut point; asyncio examples: the same with 2 clients, chunk sizes 1, 2, 3, 5, 7 and whole, "
             "every cut point; servers against an independent client: all sequences of up to 3 sessions on a connection; echo servers: all "
             "sequences of up to 4 of 5 messages; the comparing clients against 10 sets of answers; all 8 main programs",
    "thorough": "as quick with at most 4 such switches, and echo sequences of up to 6 messages",
}
ASSUMPTIONS = ["the main programs run once each, under the scheduling the operating system gives them"]
LEVEL = "model_checking"
SYNC = ["example_session1", "example_session2", "example_session3", "simple_echo_session"]
NAMES = SYNC + [n + "_a" for n in SYNC]
REQ1, REQ21, REQ22 = bytes([1, 5, 5, 5, 5, 5]), bytes([1, 4, 4, 4, 4]), bytes([3, 3, 3, 3])
# the keys of the specification's appendix, independent of the repository's copy
_hex = bytes.fromhex
A_SIG = ref.sig_keys(_hex("55f4d1d198093c84de9ee9a6299e0f6891c2e1d0b369efb592a9e3f169fb0f79"))
B_SIG = ref.sig_keys(_hex("7a772fa9014b423300076a2ff646463952f141e2aa8d98263c690c0d72eed52d"))
A_ENC = ref.enc_keys(_hex("77076d0a7318a57d3c16c17251b26645df4c2f87ebc0992ab177fba51db92c2a"))
B_ENC = ref.enc_keys(_hex("5dab087e624a8a4b79e17f8b83800ee66f3bb1292618b6fd1c2f8b27ff88e0eb"))


def setup():
    sess.setup()


def units(tier):
    q = tier == "quick"
    us = []
    for n in SYNC:
        big = "3" in n or "simple" in n
        us.append(dict(kind="sync", name=n, n=1))
        us.append(dict(kind="sync", name=n, n=2, bound=(3 if q else 4) if big else None))
        us.append(dict(kind="cut", name=n))
    for n in SYNC:
        big = "3" in n or "simple" in n
        us.append(dict(kind="async", name=n + "_a", n=1))
        us.append(dict(kind="async", name=n + "_a", n=2, bound=(3 if q else 4) if big else None))
        us.append(dict(kind="acut", name=n + "_a"))
    for n in ("example_session1", "example_session2", "example_session3"):
        us.append(dict(kind="peer", name=n))
        us.append(dict(kind="peer", name=n + "_a"))
    us += [dict(kind="wrong", name=n) for n in ("example_session3", "example_session3_a")]
    for first in range(len(ECHO)):
        us.append(dict(kind="echo", first=first, depth=4 if q else 6))
    for n in NAMES:
        us.append(dict(kind="main", name=n))
    return us


# ------------------------------------------------------------------------------------------------ what the traffic must be
class Want:
    """Expected messages of one session, from the keys the example uses, computed by the reference."""

    def __init__(self, name):
        a_sig, a_enc, b_sig, b_enc = A_SIG, A_ENC, B_SIG, B_ENC
        self.key = None
        if "2" in name:
            self.up = [ref.a1(1, b"\x08" * 32)]
            self.down = [ref.a2([(b"SCv2------", b"ECHO------")])]
            return
        three = "3" in name
        t = (lambda k: k) if three else (lambda k: 0)
        self.key = k = ref.shared(a_enc.sec, b_enc.pub)
        m1, m2 = ref.m1(t(1), a_enc.pub), ref.m2(t(1), b_enc.pub)
        h1, h2 = ref.h(m1), ref.h(m2)
        self.up = [m1, ref.seal(k, 1, ref.m4(t(2), a_sig.pub, ref.sign(ref.SIG2, h1, h2, a_sig.sec)))]
        self.down = [m2, ref.seal(k, 2, ref.m3(t(2), b_sig.pub, ref.sign(ref.SIG1, h1, h2, b_sig.sec)))]
        self.hs = (len(self.up[0]) + len(self.up[1]), sum(map(len, self.down)))
        if three:
            self.up += [ref.seal(k, 3, ref.app(3, REQ1)), ref.seal(k, 5, ref.multi(4, [REQ21, REQ22]))]
            self.down += [ref.seal(k, 4, ref.app(3, REQ1)), ref.seal(k, 6, ref.multi(4, [REQ21, REQ22]), last=True)]
        else:
            self.up += [ref.seal(k, 3, ref.app(0, REQ1), last=True)]
            self.down += [ref.seal(k, 4, ref.app(0, REQ1))]


def traffic(ctx, name, up, down, whole=True):
    """One pair's messages are those of a complete session (whole=False: of the beginning of one)."""
    if name.startswith("simple"):
        body = up[:-1] if name.endswith("_a") and whole else [m for m in up if m]
        if whole:
            ctx.check(len(body) == 10 and (not name.endswith("_a") or up[-1] == b""), "the echo client sent %r", up)
        ctx.check(len(set(body)) <= 1 and all(len(m) == 6 for m in body), "the echo client sent %r", up)
        ctx.check(down == body if whole else down == body[:len(down)], "%r was echoed as %r", body, down)
        return
    w = Want(name)
    for what, got, want in (("client", up, w.up), ("server", down, w.down)):
        ctx.check(got == want if whole else got == want[:len(got)], "%s sent %r, to be sent %r", what, [m.hex() for m in got],
                  [m.hex() for m in want])


NUM = r"%s\s*:\s*(\d+)"


def printed(ctx, name, out, up, down):
    """What the client of one pair printed agrees with what crossed the wire."""
    if name.startswith("simple"):
        return

    def num(label):
        m = re.findall(NUM % re.escape(label), out)
        ctx.check(len(m) == 1, "%r printed %d times in %r", label, len(m), out)
        return int(m[0])

    def hexed(label):
        m = re.findall(r"%s: ([0-9a-f]*)" % label, out)
        ctx.check(len(m) == 1, "%r printed %d times in %r", label, len(m), out)
        return bytes.fromhex(m[0])
    w = Want(name)
    cu, cd = sum(map(len, w.up)), sum(map(len, w.down))
    ctx.check((num("client --> server total bytes"), num("client <-- server total bytes"), num("TOTAL BYTES")) == (cu, cd, cu + cd),
              "byte counts printed in %r, %d and %d crossed the wire", out, cu, cd)
    if "2" in name:
        ctx.check("P1='%r' and P2='%r'" % (b"SCv2------", b"ECHO------") in out, "protocols printed: %r", out)
        return
    hu, hd = w.hs
    if name == "example_session1":
        hu = len(w.up[0])           # M4 waits for the first application message
    ctx.check((num("client --> server handshake bytes"), num("client <-- server handshake bytes"), num("HANDSHAKE BYTES")) == (hu, hd, hu + hd),
              "handshake byte counts printed in %r, %d and %d crossed the wire", out, hu, hd)
    for k in (A_SIG, A_ENC, B_SIG, B_ENC):
        ctx.check(k.sec.hex() in out and k.pub.hex() in out, "a key pair of the session is not printed in %r", out)
    ctx.check(hexed("session key") == w.key, "session key printed in %r is not %s", out, w.key.hex())
    if "1" in name:
        ctx.check(hexed("app request") == REQ1 and hexed("app response") == REQ1, "messages printed in %r", out)
    else:
        for l, m in (("app_request1", REQ1), ("app_response1", REQ1), ("app_request2_1", REQ21), ("app_response2", REQ21),
                     ("app_request2_2", REQ22), ("app_response3", REQ22)):
            ctx.check(hexed(l) == m, "%s printed in %r is not %s", l, out, m.hex())


def logged(ctx, name, lines, up, down):
    """The log of an echo client tells what it sent and received."""
    if not name.startswith("simple"):
        if name.endswith("_a"):             # the asyncio examples monitor their client's channel
            got = [m for l in lines for m in re.findall(r"msg: b'([0-9a-f]*)'", l)]
            ctx.check(sorted(got) == sorted(m.hex() for m in up + down), "messages logged: %r", got)
        return
    own = [l for l in lines if "CLIENT" in l]
    got = [re.findall(r"(Send(?:ing)?|Received):\s*b?'([0-9a-f]+)'", l) for l in own]
    got = [x[0] for x in got if x]
    m = up[0].hex()
    ctx.check([(k[:4], v) for k, v in got] == [("Send", m), ("Rece", m)] * 10, "the echo client logged %r, sent and received %s", own[:4], m)


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def load(ctx, name):
    with contextlib.redirect_stdout(io.StringIO()):
        mod = importlib.import_module("saltchannel.dev." + name)
    lg = logging.getLogger()
    h = Lines()
    lg.handlers[:] = [h]
    lg.setLevel(logging.INFO)
    cls = [c for c in vars(mod).values() if isinstance(c, type) and c.__module__ == mod.__name__ and hasattr(c, "client_session")]
    ctx.check(len(cls) == 1, "session class of %s: %r", name, cls)
    return cls[0], h


# ------------------------------------------------------------------------------------------------ blocking examples
class Wires:
    """Lock-stepped threads; each blocks in a channel read until the explorer delivers a message or the end."""

    def __init__(self):
        self.lock = threading.Condition()
        self.ends, self.running = [], 0

    def pair(self):
        a, b = End(self), End(self)
        a.peer, b.peer = b, a
        self.ends += [a, b]
        return a, b

    def start(self, end, f):
        def body():
            asyncio.set_event_loop(asyncio.new_event_loop())
            try:
                r = ("ok", f(end.channel))
            except BaseException as e:
                r = ("exc", e)
            loop = asyncio.get_event_loop()
            loop.close()
            with self.lock:
                end.result = r
                end.finished = True
                end.peer.eof = True
                self.running -= 1
                self.lock.notify_all()
        with self.lock:
            self.running += 1
        threading.Thread(target=body, daemon=True).start()

    def settled(self, ctx):
        with self.lock:
            if not self.lock.wait_for(lambda: self.running == 0, 30):
                ctx.fail("a session neither finishes nor reads within 30 s")

    def ready(self):
        return [e for e in self.ends if e.waiting and (e.inbox or e.eof)]

    def deliver(self, e):
        with self.lock:
            e.waiting = False
            e.item = e.inbox.pop(0) if e.inbox else None
            self.running += 1
            e.go.release()

    def cut(self, e):
        for x in (e, e.peer):
            x.inbox.clear()
            x.eof = x.dead = True


class End:
    def __init__(self, wires):
        self.w, self.inbox, self.eof, self.dead = wires, [], False, False
        self.waiting = self.finished = False
        self.go, self.item, self.sent, self.writes, self.result = threading.Semaphore(0), None, [], [], None
        self.closed = False
        end = self

        class Ch(S.ByteChannel):
            def read_sync(self):
                return end.read()

            def write_sync(self, msg, *args, is_last=False):
                end.write((msg,) + args)

            async def read(self):
                return end.read()

            async def write(self, msg, *args, is_last=False):
                end.write((msg,) + args)

            def close(self):
                end.closed = True
        self.channel = Ch()

    def read(self):
        with self.w.lock:
            self.waiting = True
            self.w.running -= 1
            self.w.lock.notify_all()
        self.go.acquire()
        if self.item is None:
            raise S.ComException("end of stream")
        return self.item

    def write(self, msgs):
        msgs = [bytes(m) for m in msgs]
        if self.dead:
            raise S.ComException("connection lost")
        self.sent += msgs
        self.writes.append(msgs)
        if not self.peer.finished:
            self.peer.inbox += msgs


def run_sync(u, ctx):
    name, n = u["name"], u["n"]
    cls, log = load(ctx, name)

    def run(chooser):
        ctx.begin(dict(unit="sync", name=name, n=n, path=[]))
        one_sync(ctx, name, cls(), n, chooser, log)
    ctx.outcome("sync")
    explore.explore(run, bound=u.get("bound") if n > 1 else None)


def one_sync(ctx, name, session, n, chooser, log, cut=None):
    w = Wires()
    pairs = [w.pair() for _ in range(n)]
    out = io.StringIO()
    log.lines.clear()
    with contextlib.redirect_stdout(out):
        for a, b in pairs:
            w.start(b, session.server_session)
            w.settled(ctx)
            w.start(a, lambda ch: session.client_session(S.Mitm(ch, log=logging.getLogger("x"))))
            w.settled(ctx)
        count = [0] * n
        while True:
            ready = w.ready()
            live = sorted({w.ends.index(e) // 2 for e in ready})
            if not live:
                break
            i = live[chooser.choose(len(live), ",".join(map(str, live))) if len(live) > 1 else 0]
            ctx.case["path"].append(i)
            if cut and cut == (i, count[i]):
                w.cut(pairs[i][0])
                cut = None
                count[i] += 1
                continue
            count[i] += 1
            mine = [e for e in ready if e in pairs[i]]
            w.deliver(mine[chooser.choose(len(mine), "end") if len(mine) > 1 else 0])
            w.settled(ctx)
            ctx.step()
    faulty = ctx.case.get("cut", [None])[0]
    for i, (a, b) in enumerate(pairs):
        ctx.check(a.finished and b.finished, "pair %d of %s never ends: client %s, server %s", i, name, a.finished, b.finished)
        ctx.check(b.result == ("ok", None), "server session %d of %s: %s", i, name, sess.show(b.result))
        if i != faulty:
            ctx.check(a.result == ("ok", None), "client session %d of %s: %s", i, name, sess.show(a.result))
        traffic(ctx, name, a.sent, b.sent, whole=i != faulty)
        if name == "example_session1" and i != faulty:
            ctx.check([len(x) for x in a.writes] == [1, 2] and [len(x) for x in b.writes] == [2, 1],
                      "writes of %r and %r messages", [len(x) for x in a.writes], [len(x) for x in b.writes])
    if n == 1 and faulty is None:
        printed(ctx, name, out.getvalue(), pairs[0][0].sent, pairs[0][1].sent)
        logged(ctx, name, log.lines, pairs[0][0].sent, pairs[0][1].sent)
    ctx.state(name, n, tuple(ctx.case["path"]), faulty)
    return count, pairs


def run_cut(u, ctx):
    """Pair 1 loses its connection before each of its deliveries, in the middle of the other pair's session or not."""
    name = u["name"]
    cls, log = load(ctx, name)
    ctx.begin(dict(unit="cut", name=name, path=[]))
    count, _ = one_sync(ctx, name, cls(), 1, explore.Chooser(), log)
    for k in range(count[0]):
        def run(chooser):
            ctx.begin(dict(unit="cut", name=name, cut=(1, k), path=[]))
            count, pairs = one_sync(ctx, name, cls(), 2, chooser, log, cut=(1, k))
            a = pairs[1][0].result
            if not (a == ("ok", None) and pairs[1][0].sent):
                ctx.check(a[0] == "exc" and isinstance(a[1], S.ComException), "client whose connection broke: %s", sess.show(a))
        explore.explore(run, bound=1)
    ctx.outcome("cut")


# ------------------------------------------------------------------------------------------------ asyncio examples
class Net:
    """n clients of an asyncio example and its server on one controlled loop; bytes move when the explorer says so."""

    def __init__(self, ctx, name, session, n):
        self.ctx, self.n = ctx, n
        self.loop = sess.new_loop()
        self.factory = c19.served(ctx, self.loop, session.server_session)
        self.s, self.c, self.tasks = [], [], []
        self.pos = []

        async def create_connection(factory, host=None, port=None, **kw):
            c = c19.Conn(factory(), "c")
            s = c19.Conn(self.factory(), "s")
            self.c.append(c.make())
            self.s.append(s.make())
            self.pos += [0, 0]
            return c.t, c.p
        self.loop.create_connection = create_connection

        async def client():
            rd, wr = await S.client_server_a.open_saltchannel_connection("h", 1, loop=self.loop)
            await session.client_session(rd, wr)
        for _ in range(n):
            self.tasks.append(self.loop.create_task(client()))
            c19.settle(self.loop)

    def waiting(self):
        """Directions (pair, 0 up / 1 down) with undelivered bytes."""
        return [(i, d) for i in range(len(self.c)) for d in (0, 1) if self.src(i, d).up and len(self.src(i, d).sent) > self.pos[2 * i + d]]

    def src(self, i, d):
        return (self.c, self.s)[d][i]

    def move(self, i, d, size=None):
        """Delivers `size` bytes, or everything up to the end of the next message."""
        a, p = self.src(i, d).sent, self.pos[2 * i + d]
        if size is None:
            size = 4 + struct.unpack("<i", bytes(a[p:p + 4]))[0]
        data = bytes(a[p:p + size])
        self.pos[2 * i + d] += len(data)
        self.src(i, 1 - d).data(data)
        c19.settle(self.loop)
        self.ctx.step()

    def finish(self, name, faulty=None):
        ctx = self.ctx
        for _ in range(3):
            c19.settle(self.loop)
        for i, t in enumerate(self.tasks):
            ctx.check(t.done(), "client session %d of %s never ends", i, name)
            e = t.exception()
            if i == faulty:
                ctx.check(e is None or isinstance(e, (S.ComException, EOFError, OSError)), "client whose connection broke: %r", e)
            else:
                ctx.check(e is None, "client session %d of %s: %r", i, name, e)
                ctx.check(self.c[i].t.closing and self.s[i].t.closing, "pair %d of %s leaves its connection open", i, name)
            up, r1 = frames(self.c[i].sent)
            down, r2 = frames(self.s[i].sent)
            ctx.check(i == faulty or not (r1 or r2), "partial message on the wire")
            traffic(ctx, name, up, down, whole=i != faulty)
        if faulty is None:
            ctx.check(not self.loop.leaked, "server session of %s failed: %r", name, self.loop.leaked)
        res = frames(self.c[0].sent)[0], frames(self.s[0].sent)[0]
        self.loop.drop()
        return res


def run_async(u, ctx):
    name, n = u["name"], u["n"]
    cls, log = load(ctx, name)
    if n == 1:
        for size in (1, 2, 3, 5, 7, 10 ** 6):
            ctx.begin(dict(unit="async", name=name, chunk=size))
            log.lines.clear()
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                net = Net(ctx, name, cls(), 1)
                while net.waiting():
                    net.move(*net.waiting()[0], size)
                up, down = net.finish(name)
            printed(ctx, name, out.getvalue(), up, down)
            logged(ctx, name, log.lines, up, down)
            ctx.state(name, 1, size)
        ctx.outcome("async chunks")
        return

    def run(chooser):
        ctx.begin(dict(unit="async", name=name, n=n, path=[]))
        with contextlib.redirect_stdout(io.StringIO()):
            net = Net(ctx, name, cls(), n)
            while net.waiting():
                en = net.waiting()
                e = en[chooser.choose(len(en), repr(en)) if len(en) > 1 else 0]
                ctx.case["path"].append(e)
                net.move(*e)
            net.finish(name)
        ctx.state(name, n, tuple(ctx.case["path"]))
    explore.explore(run, bound=u.get("bound"))
    ctx.outcome("async")


def run_acut(u, ctx):
    name = u["name"]
    cls, log = load(ctx, name)
    for how in ("lost", "error", "half"):
        k = 0
        while True:
            hit = []

            def run(chooser):
                ctx.begin(dict(unit="acut", name=name, how=how, cut=k, path=[]))
                log.lines.clear()
                with contextlib.redirect_stdout(io.StringIO()):
                    net = Net(ctx, name, cls(), 2)
                    seen = 0
                    while net.waiting():
                        en = net.waiting()
                        e = en[chooser.choose(len(en), repr(en)) if len(en) > 1 else 0]
                        ctx.case["path"].append(e)
                        if e[0] == 1:
                            if seen == k and not hit[-1:] == [id(net)]:
                                hit.append(id(net))
                                if how == "half":
                                    net.move(*e, 3)     # the message ends in the middle of its length or body
                                for x in (net.c[1], net.s[1]):
                                    if not x.t.closing:
                                        x.lose(OSError("gone") if how == "error" else None)
                                    x.up = False
                                c19.settle(net.loop)
                                continue
                            seen += 1
                        net.move(*e)
                    net.finish(name, faulty=1)
                ctx.state(name, how, k, tuple(ctx.case["path"]))
            explore.explore(run, bound=1)
            if not hit:
                break
            k += 1
        ctx.check(k >= 2, "only %d deliveries", k)
    ctx.outcome("async cut")


# ------------------------------------------------------------------------------------------------ servers, independent client
def run_peer(u, ctx):
    """The server half against the reference client: other keys, named server, sessions in sequence, arbitrary messages."""
    name = u["name"]
    cls, log = load(ctx, name)
    a = name.endswith("_a")
    if "2" in name:
        for atype, addr in ((0, b""), (1, b"\x08" * 32), (1, b"\x08" * 31 + b"\x09"), (1, B_SIG.pub)):
            ctx.begin(dict(unit="peer", name=name, atype=atype, addr=addr))
            known = atype == 0 or addr == b"\x08" * 32
            want = [ref.a2([(b"SCv2------", b"ECHO------")])] if known else [ref.a2([], nosuch=True)]
            got, res, end = serve(ctx, cls(), a, [ref.a1(atype, addr)], lambda m: [])
            ctx.check(got == want, "answer to the query: %r instead of %r", [m.hex() for m in got], [m.hex() for m in want])
            if known:
                ctx.check(res == ("ok", None), "server session: %s", sess.show(res))
            ctx.state(name, atype, addr)
        ctx.outcome("peer a1")
        return
    three = "3" in name
    msgs = [b"", b"\0", REQ1, b"x" * 1000]
    for n in ((1,) if a else (1, 2, 3)):
        for lasts in itertools.product((False, True), repeat=n):
            if any(lasts[:-1]):
                continue
            for wanted in (None, B_SIG.pub):
                for first in range(len(msgs)):
                    ctx.begin(dict(unit="peer", name=name, lasts=lasts, wanted=wanted, first=first))
                    clients = []

                    def begin():
                        i = len(clients)
                        c = ref.RefClient((sess.A_SIG, sess.C_SIG, sess.E_SIG)[i], (sess.A_ENC, sess.C_ENC, sess.E_ENC)[i], wanted=wanted)
                        c.round = 0
                        clients.append(c)
                        return c.start()

                    def feed(m):
                        c = clients[-1]
                        i = len(clients) - 1
                        out = c.feed(m)
                        req = [msgs[(first + i) % 4]], [msgs[(first + i + 1) % 4], msgs[(first + i + 2) % 4]]
                        if c.state == "open" and (out or c.got):
                            if c.round == 0:
                                out.append(c.app(*req[0], last=lasts[i] and not three))
                            elif three and c.round == 1:
                                out.append(c.app(*req[1], last=lasts[i]))
                            else:
                                ctx.check(c.got == req[0] + (req[1] if three else []), "session %d got %r", i, c.got)
                                ctx.check(c.last == three, "last flag of the final answer of session %d is %r", i, c.last)
                                ctx.check(c.server_sig_key == B_SIG.pub, "session %d saw another server", i)
                                c.done = True
                                if len(clients) < n:
                                    out += begin()
                            c.round += 1
                        return out
                    got, res, end = serve(ctx, cls(), a, begin(), feed)
                    ctx.check(len(clients) == n and all(getattr(c, "done", False) for c in clients), "only %d of %d sessions were served (%s)",
                              len([c for c in clients if getattr(c, "done", False)]), n, sess.show(res))
                    ctx.check(res == ("ok", None), "server session: %s", sess.show(res))
                    ctx.check(end == ("returned" if a or lasts[-1] else "at end of stream"), "server session %s after last=%r", end, lasts)
                    ctx.state(name, lasts, wanted, first)
    ctx.outcome("peer")


def serve(ctx, session, a, first, feed):
    """Runs a server half against a message-driven peer. -> messages it sent, result, when it ended."""
    if not a:
        w = Wires()
        c, s = w.pair()
        w.start(s, session.server_session)
        w.settled(ctx)
        s.inbox += first
        seen = 0
        while True:
            while seen < len(c.inbox):
                s.inbox += feed(c.inbox[seen])
                seen += 1
            if s.finished or not s.inbox:
                break
            w.deliver(s)
            w.settled(ctx)
            ctx.step()
        end = "returned" if s.finished else "at end of stream"
        if not s.finished:
            s.eof = True
            w.deliver(s)
            w.settled(ctx)
        ctx.check(s.finished, "the server session goes on after the end of the stream")
        return s.sent, s.result, end
    loop = sess.new_loop()
    done = []

    async def cb(rd, wr):
        try:
            done.append(("ok", await session.server_session(rd, wr)))
        except Exception as e:
            done.append(("exc", e))
    conn = c19.Conn(c19.served(ctx, loop, cb)(), "s").make()
    todo, seen = list(first), 0
    while todo and not done:
        conn.data(frame(todo.pop(0)))
        c19.settle(loop)
        ctx.step()
        ms = frames(conn.sent)[0]
        for m in ms[seen:]:
            todo += feed(m)
        seen = len(ms)
    end = "returned" if done else "at end of stream"
    if not done:
        conn.eof()
        c19.settle(loop)
    ctx.check(len(done) == 1, "the server session goes on after the end of the stream")
    ctx.check(done[0][0] != "ok" or conn.t.closing, "the connection is left open")
    got = frames(conn.sent)[0]
    loop.drop()
    return got, done[0], end


def run_wrong(u, ctx):
    """The third example's client compares: against a server that answers something else it must not end normally."""
    name = u["name"]
    cls, log = load(ctx, name)
    good = [[REQ1], [REQ21, REQ22]]
    cases = [good] + [[[REQ1 + b"x"], good[1]], [[b""], good[1]], [[REQ21], good[1]], [[REQ1], [REQ22, REQ21]], [[REQ1], [REQ21, REQ22 + b"\3"]],
                      [[REQ1], [REQ21[:-1], REQ22]], [[REQ1], [REQ21, b""]], [[REQ1], [REQ1, REQ22]], [[REQ1], [REQ21, REQ21]]]
    for answers in cases:
        ctx.begin(dict(unit="wrong", name=name, answers=answers))
        srv = ref.RefServer(B_SIG, B_ENC, first_time=1, t3=2)

        def feed(m):
            n = len(srv.got)
            out = srv.feed(m)
            if len(srv.got) == 1 and n == 0:
                out.append(srv.app(*answers[0], time=3))
            elif len(srv.got) == 3:
                out.append(srv.app(*answers[1], time=4, last=True))
            return out
        with contextlib.redirect_stdout(io.StringIO()):
            if name.endswith("_a"):
                loop = sess.new_loop()
                conn = []

                async def create_connection(factory, host=None, port=None, **kw):
                    conn.append(c19.Conn(factory(), "c").make())
                    return conn[0].t, conn[0].p
                loop.create_connection = create_connection

                async def client():
                    rd, wr = await S.client_server_a.open_saltchannel_connection("h", 1, loop=loop)
                    await cls().client_session(rd, wr)
                t = loop.create_task(client())
                c19.settle(loop)
                seen = 0
                while not t.done() and seen < len(frames(conn[0].sent)[0]):
                    m = frames(conn[0].sent)[0][seen]
                    seen += 1
                    for x in feed(m):
                        conn[0].data(frame(x))
                        c19.settle(loop)
                ok = t.done() and t.exception() is None
                loop.drop()
            else:
                w = Wires()
                c, s = w.pair()
                w.start(c, lambda ch: cls().client_session(S.Mitm(ch)))
                w.settled(ctx)
                seen = 0
                while not c.finished and (seen < len(c.sent) or c.inbox):
                    if c.inbox:
                        w.deliver(c)
                        w.settled(ctx)
                    else:
                        c.inbox += feed(c.sent[seen])
                        seen += 1
                ok = c.finished and c.result[0] == "ok"
                if not c.finished:
                    w.deliver(c)
                    w.settled(ctx)
        ctx.check(ok == (answers is good), "the client of %s, answered %r, ended %s", name, answers, "normally" if ok else "with an error")
        ctx.step()
        ctx.state("wrong", name, repr(answers))
    ctx.outcome("wrong answers")


# ------------------------------------------------------------------------------------------------ echo servers
ECHO = [b"", b"\0", b"ab", b"\0\0\0\0", bytes(range(256)) * 300]


def run_echo(u, ctx):
    for name in ("simple_echo_session", "simple_echo_session_a"):
        cls, log = load(ctx, name)
        a = name.endswith("_a")
        for n in range(1, u["depth"] + 1):
            for rest in itertools.product(range(len(ECHO)), repeat=n - 1):
                seq = [ECHO[k] for k in (u["first"],) + rest]
                ctx.begin(dict(unit="echo", name=name, seq=(u["first"],) + rest))
                want = list(itertools.takewhile(bool, seq))
                got, res, end = serve(ctx, cls(), a, seq, lambda m: [])
                ctx.check(got == want, "%r was echoed as %r", [m[:8] for m in seq], [m[:8] for m in got])
                if b"" in seq or not a:
                    ctx.check(res == ("ok", None), "echo server: %s", sess.show(res))
                ctx.check(end == ("returned" if b"" in seq else "at end of stream"), "echo server %s", end)
                ctx.state(name, u["first"], rest)
    ctx.outcome("echo")


# ------------------------------------------------------------------------------------------------ main programs
def run_main(u, ctx):
    """The program a user starts: main() of the module, its output read back."""
    name = u["name"]
    c19.own_network(True)
    mod_name = {"simple_echo_session": "run_session", "simple_echo_session_a": "run_session_a"}.get(name, name)
    ctx.begin(dict(unit="main", name=mod_name))
    if name.endswith("_a") and not c19.port_free():
        ctx.outcome("port of the asyncio pair is in use by another process")
        return
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.dup2(w, 1)
            os.dup2(w, 2)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.alarm(0)
            sys.stdout = os.fdopen(1, "w", 1)
            sys.stderr = sys.stdout
            asyncio.set_event_loop(asyncio.new_event_loop())
            logging.getLogger().handlers[:] = []
            import runpy
            runpy.run_module("saltchannel.dev." + mod_name, run_name="__main__", alter_sys=True)
            sys.stdout.flush()
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc(file=sys.stdout)
            sys.stdout.flush()
            os._exit(1)
    os.close(w)
    chunks, t0 = [], time.time()
    rc = None
    import select
    while time.time() - t0 < 60:
        if select.select([r], [], [], 0.05)[0]:
            d = os.read(r, 65536)
            if d:
                chunks.append(d)
                continue
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            rc = st
            break
    out = b"".join(chunks).decode(errors="replace")
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    ctx.check(rc is not None, "%s does not end within 60 s; it printed %r", mod_name, out[-800:])
    ctx.check(rc == 0 and "Traceback" not in out, "%s ended with %r and printed %r", mod_name, rc, out[-1500:])
    if name.startswith("simple"):
        n = 10 if not name.endswith("_a") else 3
        got = re.findall(r"CLIENT.*?Received:\s*b?'([0-9a-f]+)'", out)
        sent = re.findall(r"CLIENT.*?Send(?:ing)?:\s*b?'([0-9a-f]+)'", out)
        ctx.check(len(got) == 10 * n and sorted(got) == sorted(sent), "%s logged %d answers, %d requests", mod_name, len(got), len(sent))
    else:
        printed(ctx, name, out, None, None)
    ctx.step()
    ctx.state("main", mod_name)
    ctx.outcome("main")


def run_unit(u, ctx):
    ctx.loop = sess.new_loop()
    {"sync": run_sync, "cut": run_cut, "async": run_async, "acut": run_acut, "peer": run_peer, "echo": run_echo, "main": run_main, "wrong": run_wrong}[u["kind"]](u, ctx)
    ctx.sample(ctx.case)
