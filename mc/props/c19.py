"""C19: connections of a stream server and sessions of a client-server pair are independent of each other and all complete.

 conn    fake event loop, real server helper: every interleaving of connect / data / end events of 2-3 connections, one of
         them misbehaving, echo handlers (coroutine and plain callbacks, reader/writer and channel) and full Salt handlers
 open    several openings through the client helper completing (or failing) in every order, then traffic in every interleaving
 mp      the threaded pair over loopback sockets: every pattern of client and server side faults, every order of ends
 async   the multi-process asyncio pair: every subset of failing clients
"""
import asyncio
import concurrent.futures.process
import ctypes
import fcntl
import gc
import itertools
import logging
import os
import shutil
import socket
import struct
import tempfile
import threading
import time

from .. import explore, ref, sess
from ..env import S
from ..explore import Violation
from ..streams import FakeTransport, frame, frames

LEVEL = "model_checking"
BOUNDS = {
    "quick": "server helper: 2 connections x 5 events and 3 connections x 3 events, all interleavings, 4 kinds of handlers x 7 ways one "
             "connection misbehaves; Salt handlers: 2 connections with complete sessions, all interleavings of message "
             "deliveries; 3 openings in all orders x all failing subsets; threaded pair: 2 sessions x (3 client x 4 server "
             "behaviours)^2 patterns, 3 sessions x all end orders, each of 1-9 sessions the last to end, the server stopped with all subsets of 3 clients still busy, all subsets of 4 accepted connections failing, one pair started and stopped 9 times, up to 33 "
             "clients; asyncio pair: 0-3 clients, all failing subsets, and 20 clients",
    "thorough": "as quick, with 3 connections x 4 events, 3 Salt connections, 3 sessions x all behaviour patterns, end orders of "
                "4 sessions and asyncio pairs of up to 4 and of 40 clients, threaded pairs of up to 65",
}
ASSUMPTIONS = ["the operating system's scheduling of the threads and processes of a pair is not controlled; behaviour patterns "
               "and end orders are"]
PORT_A = 8888


def setup():
    sess.setup()


BAD = ("ok", "cut", "negative", "lost", "raise", "slow", "empty")


def units(tier):
    us = []
    for h in ("channel", "msg", "plain", "handoff"):
        for bad in BAD:
            us.append(dict(kind="conn", handler=h, bad=bad, n=2, ev=5))
            us.append(dict(kind="conn", handler=h, bad=bad, n=3, ev=4 if tier == "thorough" else 3))
    for bad in ("ok", "garbage", "lost", "nosuch", "a1"):
        us.append(dict(kind="salt", n=2, bad=bad))
        if tier == "thorough":
            us.append(dict(kind="salt", n=3, bad=bad))
    us.append(dict(kind="open", n=2))
    us.append(dict(kind="open", n=3))
    n = 3 if tier == "thorough" else 2
    pats = list(itertools.product(range(len(CLIENT_KINDS) * len(SERVER_KINDS)), repeat=n))
    step = 36
    for i in range(0, len(pats), step):
        us.append(dict(kind="mp", pats=pats[i:i + step]))
    us.append(dict(kind="mporder", n=4 if tier == "thorough" else 3))
    us += [dict(kind="mporder", n=k, last=True) for k in ((1, 2, 4, 5, 6, 7, 8, 9) if tier == "quick" else range(1, 10))]
    us.append(dict(kind="mpaccept", n=4))
    us.append(dict(kind="mprestart"))
    us.append(dict(kind="mpchain", ns=[1, 2, 3] + ([4] if tier == "thorough" else [])))
    us.append(dict(kind="mpmany", ns=[0, 1, 2, 3, 5, 8, 17, 33] + ([65] if tier == "thorough" else [])))
    us.append(dict(kind="mplong"))
    us.append(dict(kind="mpstop"))
    us.append(dict(kind="asynclong"))
    for how in ("after", "together", "open", "cut"):
        us.append(dict(kind="crowd", how=how, n=1500 if tier == "thorough" else 300))
    us.append(dict(kind="mpcrowd", runs=300 if tier == "thorough" else 80, n=5))
    us.append(dict(kind="async", ns=[20] + ([40] if tier == "thorough" else []), ks=[0, 1]))
    us.append(dict(kind="async", ns=[0, 1, 2, 3] + ([4] if tier == "thorough" else [])))
    return us


# ------------------------------------------------------------------------------------------- stream server, fake loop
class Conn:
    """The network end of one accepted or opened connection."""

    def __init__(self, protocol, tag):
        self.p, self.tag, self.sent = protocol, tag, bytearray()
        self.t = FakeTransport(self)
        self.up = True

    def _written(self, data):
        if self.up:
            self.sent += data

    def make(self):
        self.p.connection_made(self.t)
        return self

    def data(self, d):
        self.p.data_received(d)

    def eof(self):
        self.p.eof_received()

    def lose(self, exc):
        self.up = False
        self.t.closing = True
        self.p.connection_lost(exc)


def served(ctx, loop, cb, **kw):
    """-> the protocol factory the server helper registers."""
    made = []

    async def create_server(factory, host=None, port=None, **k):
        made.append((factory, host, port, k))
        return "server"
    loop.create_server = create_server
    r = loop.call(S.client_server_a.start_saltchannel_server(cb, "h", 4321, loop=loop, backlog=77, **kw))
    ctx.check(r == ("ok", "server") and len(made) == 1 and made[0][1:3] == ("h", 4321), "server helper: %s %r", sess.show(r), made)
    ctx.check(made[0][3] == {"backlog": 77}, "server helper listens with options %r instead of backlog 77", made[0][3])
    return made[0][0]


def settle(loop, n=12):
    async def f():
        for _ in range(n):
            await asyncio.sleep(0)
    loop.call(f())
    loop.vtime += 1e6       # a long silence
    loop.call(f())


def run_conn(u, ctx):
    n, ev, bad, handler = u["n"], u["ev"], u["bad"], u["handler"]
    msgs = [[bytes([65 + i]) * (3 + i), bytes([97 + i]) * 2] for i in range(n)]

    def script(i):
        """Events of connection i: the last connection misbehaves."""
        a, b = frame(msgs[i][0]), frame(msgs[i][1])
        chunks = [a[:5], a[5:] + b] if ev >= 4 else [a + b]
        if ev >= 5 and i != n - 1:
            chunks = [a[:2], a[2:] + b[:3], b[3:]]
        end = ["eof"]
        if i == n - 1:
            if bad == "cut":
                chunks = [a[:6]] if len(chunks) == 1 else [a[:5], a[5:] + b[:6]]
            elif bad == "negative":
                chunks = [struct.pack("<i", -1) + b"xxxx"] + chunks[1:]
            elif bad == "lost":
                end = ["lost"]
            elif bad == "slow":
                chunks, end = chunks[:1], []
            elif bad == "empty":
                chunks = [frame(b"")] + chunks[1:]
        return ["connect"] + chunks + end

    scripts = [script(i) for i in range(n)]

    def run(chooser):
        loop = sess.new_loop()
        calls, seen = [], {}

        async def serve(rd, wr):
            k = len(calls)
            calls.append((rd, wr))
            got = seen.setdefault(k, [])
            if bad == "raise" and order[k] == n - 1:
                got.append("raised")
                raise RuntimeError("handler fails")
            try:
                if handler == "msg":
                    while True:
                        m = await rd.read_msg()
                        got.append(bytes(m))
                        wr.write_msg(m)
                else:
                    ch = S.AsyncioChannel(rd, wr)
                    while True:
                        m = await ch.read()
                        got.append(bytes(m))
                        await ch.write(m)
            except Exception as e:
                got.append("end")

        if handler == "plain":
            def cb(rd, wr):
                loop.create_task(serve(rd, wr))
        elif handler == "handoff":
            async def cb(rd, wr):
                loop.create_task(serve(rd, wr))
        else:
            cb = serve
        factory = served(ctx, loop, cb)
        conns, pos, order = [None] * n, [0] * n, []
        path = []
        while True:
            en = [i for i in range(n) if pos[i] < len(scripts[i])]
            if not en:
                break
            c = en[chooser.choose(len(en), ",".join("%d.%d" % (i, pos[i]) for i in en)) if len(en) > 1 else 0]
            path.append(c)
            e = scripts[c][pos[c]]
            pos[c] += 1
            if e == "connect":
                order.append(c)
                conns[c] = Conn(factory(), c).make()
            elif e == "eof":
                conns[c].eof()
            elif e == "lost":
                conns[c].lose(ConnectionResetError("reset"))
            else:
                conns[c].data(e)
            settle(loop)
            ctx.step()
            # after every event, every well-behaved connection has exactly what its own bytes so far entitle it to
            ctx.case["path"] = path
            for i in range(n):
                if conns[i] is None:
                    continue
                k = order.index(i)
                ctx.check(len(calls) > k, "connection %d was not handed to the callback", i)
                rd, wr = calls[k]
                ctx.check(wr.transport is conns[i].t, "writer of connection %d belongs to another connection", i)
                if i == n - 1 and bad in ("raise", "negative", "lost", "empty"):
                    continue
                fed = b"".join(x for x in scripts[i][1:pos[i]] if isinstance(x, bytes))
                want = frames(fed)[0]
                over = pos[i] == len(scripts[i]) and scripts[i][-1] == "eof"
                ctx.check(over or not conns[i].t.closing, "connection %d is closed while its handler uses it", i)
                ctx.check(seen.get(k, []) == want + (["end"] if over else []),
                          "connection %d delivered %r instead of %r", i, seen.get(k), want)
                ctx.check(bytes(conns[i].sent) == b"".join(map(frame, want)), "connection %d sent %s", i, bytes(conns[i].sent).hex())
            ctx.check(len(calls) == len(order), "%d callbacks for %d connections", len(calls), len(order))
            ctx.check(len({id(r) for r, _ in calls}) == len(calls), "a reader is shared by connections")
        if bad in ("lost", "empty"):
            got = [x for x in seen[order.index(n - 1)] if x != "end"]
            want = [m for m in frames(b"".join(x for x in scripts[n - 1] if isinstance(x, bytes)))[0]]
            ctx.check(got == want[:len(got)], "misbehaving connection delivered %r", got)
        ctx.state(u["handler"], bad, n, tuple(path))
        ctx.outcome("%s %s" % (handler, bad))
        loop.drop()

    def wrap(chooser):
        ctx.begin(dict(unit=u))
        run(chooser)
    explore.explore(wrap)


def run_salt(u, ctx):
    """Complete server sessions on the connections of one server, deliveries interleaved in every way."""
    n, bad = u["n"], u["bad"]
    sigs = [sess.A_SIG, sess.C_SIG, sess.E_SIG][:n]
    encs = [sess.A_ENC, sess.C_ENC, sess.E_ENC][:n]

    def run(chooser):
        ctx.begin(dict(unit=u))
        loop = sess.new_loop()
        results = {}
        order = []

        async def cb(rd, wr):
            i = order[len(results)]
            results[i] = None
            s = sess.server(S.AsyncioChannel(rd, wr), buf2=True)
            s.a2 = a2()
            try:
                await s.handshake()
                m = await s.app_channel.read()
                await s.app_channel.write(m, bytes([i]))
                results[i] = ("ok", bytes(s.client_sig_key), bytes(m))
            except Exception as e:
                results[i] = ("exc", type(e).__name__)
                raise

        def a2():
            p = S.A2Packet(case=S.A2Packet.Case.A2_DEFAUT)
            return p
        factory = served(ctx, loop, cb)
        peers, todo, conns, parsed = [], [], [None] * n, [0] * n
        for i in range(n):
            p = ref.RefClient(sigs[i], encs[i], wanted=(b"\x07" * 32 if bad == "nosuch" and i == n - 1 else None))
            first = p.start()[0]
            if i == n - 1 and bad == "garbage":
                first = b"\x01garbage"
            if i == n - 1 and bad == "a1":
                first = ref.a1(0, b"") if hasattr(ref, "a1") else bytes([8, 0, 0, 0, 0])
            peers.append(p)
            todo.append(["connect", first] + (["lost"] if bad == "lost" and i == n - 1 else []))
        asked = [False] * n
        path = []
        while True:
            en = [i for i in range(n) if todo[i]]
            if not en:
                break
            c = en[chooser.choose(len(en), ",".join(map(str, en))) if len(en) > 1 else 0]
            path.append(c)
            ctx.case["path"] = path
            e = todo[c].pop(0)
            if e == "connect":
                order.append(c)
                conns[c] = Conn(factory(), c).make()
            elif e == "lost":
                conns[c].lose(None)
                todo[c] = []
            else:
                conns[c].data(frame(e))
            settle(loop)
            ctx.step()
            for i in range(n):          # answers come only on the connection that was asked
                if conns[i] is None:
                    continue
                new, rest = frames(conns[i].sent[parsed[i]:])
                ctx.check(not rest, "partial message on connection %d", i)
                if new:
                    ctx.check(i == c, "connection %d got an answer to a message of connection %d", i, c)
                    parsed[i] += sum(4 + len(m) for m in new)
                    if i == n - 1 and bad in ("nosuch", "a1", "garbage", "lost"):
                        continue
                    for m in new:
                        todo[i].extend(peers[i].feed(m))
                    if peers[i].state == "open" and not asked[i]:
                        asked[i] = True
                        todo[i].append(peers[i].app(b"hello%d" % i))
        for i in range(n):
            if i == n - 1 and bad != "ok":
                continue
            ctx.check(peers[i].got == [b"hello%d" % i, bytes([i])], "client %d got %r", i, peers[i].got)
            ctx.check(results.get(i) == ("ok", sigs[i].pub, b"hello%d" % i), "server session %d: %r", i, results.get(i))
            ctx.check(peers[i].server_sig_key == sess.B_SIG.pub, "client %d saw another server", i)
        ctx.check(len(results) == n, "%d sessions for %d connections", len(results), n)
        ctx.state("salt", bad, n, tuple(path))
        ctx.outcome("salt " + bad)
        loop.drop()
    explore.explore(run)


def run_open(u, ctx):
    n = u["n"]
    for fails in itertools.product((False, True), repeat=n):
        for perm in itertools.permutations(range(n)):
            def run(chooser, fails=fails, perm=perm):
                ctx.begin(dict(unit=u, fails=fails, order=perm))
                loop = sess.new_loop()
                waits, conns = {}, {}

                async def create_connection(factory, host=None, port=None, **kw):
                    i = port - 1000
                    f = waits[i] = loop.create_future()
                    await f
                    if fails[i]:
                        raise ConnectionRefusedError("no")
                    conns[i] = (Conn(factory(), i).make(), host, kw)
                    return conns[i][0].t, conns[i][0].p
                loop.create_connection = create_connection
                ts = [loop.create_task(S.client_server_a.open_saltchannel_connection("host%d" % i, 1000 + i, loop=loop, family=i))
                      for i in range(n)]
                settle(loop)
                for i in perm:
                    waits[i].set_result(None)
                    settle(loop)
                    ctx.step()
                chans = {}
                for i, t in enumerate(ts):
                    ctx.check(t.done(), "opening %d does not finish", i)
                    if fails[i]:
                        ctx.check(isinstance(t.exception(), ConnectionRefusedError), "failing opening %d: %r", i, t)
                    else:
                        ctx.check(t.exception() is None, "opening %d: %r", i, t.exception())
                        ctx.check(conns[i][1] == "host%d" % i and conns[i][2].get("family") == i, "opening %d connected to %r", i, conns[i][1:])
                        rd, wr = t.result()
                        ctx.check(wr.transport is conns[i][0].t, "writer of opening %d belongs to another connection", i)
                        chans[i] = S.AsyncioChannel(rd, wr)
                live = sorted(chans)
                done = {i: 0 for i in live}
                while True:     # request and answer of the connections interleave in every way
                    en = [i for i in live if done[i] < 3]
                    if not en:
                        break
                    c = en[chooser.choose(len(en), ",".join("%d.%d" % (i, done[i]) for i in en)) if len(en) > 1 else 0]
                    if done[c] == 0:
                        r = loop.call(chans[c].write(b"req%d" % c))
                        ctx.check(r[0] == "ok", "write: %s", sess.show(r))
                    elif done[c] == 1:
                        conns[c][0].data(frame(b"ans%d" % c))
                    else:
                        r = loop.call(chans[c].read())
                        ctx.check(r == ("ok", b"ans%d" % c), "connection %d read %s", c, sess.show(r))
                    done[c] += 1
                    ctx.step()
                for i in live:
                    ctx.check(bytes(conns[i][0].sent) == frame(b"req%d" % i), "connection %d sent %s", i, bytes(conns[i][0].sent).hex())
                ctx.state("open", fails, perm, tuple(chooser.choices))
                ctx.outcome("open %d of %d fail" % (sum(fails), n))
                loop.drop()
            explore.explore(run)


def run_crowd(u, ctx):
    """Hundreds of connections, one after the other or all at once: the last is served like the first."""
    n, how = u["n"], u["how"]
    ctx.begin(dict(unit=u))
    loop = sess.new_loop()
    ended = []

    async def serve(rd, wr):
        ch = S.AsyncioChannel(rd, wr)
        try:
            while True:
                await ch.write(await ch.read())
        except S.ComException:
            ended.append(1)
            ch.close()
    live = []
    if how == "open":
        made = []

        async def create_connection(factory, host=None, port=None, **kw):
            made.append(Conn(factory(), port).make())
            return made[-1].t, made[-1].p
        loop.create_connection = create_connection
        for i in range(n):
            r = loop.call(S.client_server_a.open_saltchannel_connection("h", i, loop=loop))
            ctx.check(r[0] == "ok" and len(made) == i + 1, "opening %d: %s", i, sess.show(r))
            live.append(S.AsyncioChannel(*r[1]))
            ctx.step()
        for i in range(n):
            r = loop.call(live[i].write(b"req%d" % i))
            ctx.check(r[0] == "ok" and bytes(made[i].sent) == frame(b"req%d" % i), "connection %d: %s", i, sess.show(r))
            made[i].data(frame(b"ans%d" % i))
        for i in reversed(range(n)):
            r = loop.call(live[i].read())
            ctx.check(r == ("ok", b"ans%d" % i), "connection %d read %s", i, sess.show(r))
            ctx.state("crowd", how, i)
        ctx.outcome("crowd")
        loop.drop()
        return
    factory = served(ctx, loop, serve)
    for i in range(n):
        try:
            c = Conn(factory(), i).make()
        except Exception as e:
            ctx.fail("connection %d is not accepted: %r", i, e)
        msg = frame(b"hello%d" % i)
        if how == "cut" and i % 2:              # every other connection ends within a message
            c.data(msg[:6])
            c.eof()
            settle(loop, 4)
            ctx.step()
            continue
        c.data(msg[:3])
        live.append((i, c, msg))
        if how != "together":
            c.data(msg[3:])
            settle(loop, 4)
            ctx.check(bytes(c.sent) == msg, "connection %d got %s", i, bytes(c.sent).hex())
            c.eof()
            settle(loop, 4)
            ctx.check(len(ended) == i + 1, "connection %d is not ended", i)
        ctx.step()
        ctx.state("crowd", how, i)
    if how == "together":
        for i, c, msg in live:
            c.data(msg[3:])
        settle(loop)
        for i, c, msg in live:
            ctx.check(bytes(c.sent) == msg, "connection %d got %s", i, bytes(c.sent).hex())
    ctx.outcome("crowd")
    loop.drop()


# ------------------------------------------------------------------------------------------------- threaded pair
CLIENT_KINDS = ("ok", "early", "mid")
SERVER_KINDS = ("ok", "raise", "mid", "return")
WATCHDOG_S = 60


def base_session():
    class Recorded(S.client_server.Session):
        """Client i greets with its number and behaviour, then two echo rounds."""

        def __init__(self, kinds, turns=None, accept_fail=(), chain=False):
            self.chain, self.gate = chain, threading.Barrier(len(kinds)) if chain else None
            self.kinds, self.turns, self.accept_fail = kinds, turns, accept_fail
            self.lock = threading.Lock()
            self.clients = self.accepted = 0
            self.client_res, self.server_res, self.ended = {}, {}, []
            self.turn = {i: threading.Event() for i in range(len(kinds))}
            if turns:
                self.turn[turns[0]].set()

        def client_session(self, channel):
            with self.lock:
                i = self.clients
                self.clients += 1
            if self.chain:              # every connection exists before the first session goes on
                try:
                    self.gate.wait(2.0)
                except threading.BrokenBarrierError:
                    pass
            try:
                ck, sk = self.kinds[i]
                if ck == "early":
                    raise RuntimeError("client fails early")
                channel.write_sync(b"%03d%s" % (i, sk.encode()))
                if ck == "mid":
                    raise RuntimeError("client fails")
                got = []
                for k in range(2):
                    channel.write_sync(b"%d.%d" % (i, k))
                    got.append(bytes(channel.read_sync()))
                self.client_res[i] = got
            except S.ComException as e:
                self.client_res[i] = "com"
            finally:
                if self.turns:
                    self.turn[i].wait(2.0)
                    time.sleep(0.03 if i == self.turns[-1] else 0.003)
                with self.lock:
                    self.ended.append(i)
                if self.turns:
                    k = self.turns.index(i)
                    if k + 1 < len(self.turns):
                        self.turn[self.turns[k + 1]].set()

        def server_session(self, channel):
            with self.lock:
                k = self.accepted
                self.accepted += 1
                seen = self.server_res[k] = []
            if k in self.accept_fail:
                raise RuntimeError("server fails on accept")
            try:
                first = bytes(channel.read_sync())
                seen.append(first)
                if self.chain:          # ... and each session goes on after the previous client is gone
                    t0 = time.time()
                    while len(self.ended) < k and time.time() - t0 < 2:
                        time.sleep(0.002)
                    time.sleep(0.02)
                sk = first[3:].decode()
                if sk == "raise":
                    raise RuntimeError("server fails")
                if sk == "return":
                    return
                for r in range(2):
                    m = bytes(channel.read_sync())
                    seen.append(m)
                    channel.write_sync(m)
                    if sk == "mid":
                        raise RuntimeError("server fails in the middle")
            except S.ComException:
                seen.append("end")
    return Recorded




def guarded(ctx, f, what):
    """f() in a thread with a watchdog -> result triple."""
    out = []

    def body():
        try:
            asyncio.set_event_loop(asyncio.new_event_loop())
            out.append(("ok", f()))
        except BaseException as e:
            out.append(("exc", e))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(WATCHDOG_S)
    ctx.check(not t.is_alive(), "%s does not return within %d s", what, WATCHDOG_S)
    return out[0]


def quiet(fixed_port=False):
    own_network(fixed_port)
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    logging.getLogger().setLevel(logging.CRITICAL)
    try:
        import socketserver
        socketserver.BaseServer.handle_error = lambda self, request, client_address: None
    except Exception:
        pass




def check_mp(ctx, s, n, r):
    ctx.check(r[0] == "ok", "run_sessions: %s", sess.show(r))
    ctx.check(s.clients == n, "%d client sessions ran instead of %d", s.clients, n)
    ctx.check(sorted(s.ended) == list(range(n)), "returned when only %r of %d sessions had ended", s.ended, n)
    for i in range(n):
        ck, sk = s.kinds[i]
        res = s.client_res.get(i)
        if ck == "ok" and sk == "ok":
            ctx.check(res == [b"%d.0" % i, b"%d.1" % i], "client %d got %r", i, res)
        elif ck == "ok":
            ctx.check(res == "com", "client %d of a failing server session: %r", i, res)
    t0 = time.time()
    while s.accepted < n and time.time() - t0 < 20:       # a session of a client that left early may still be due
        time.sleep(0.005)
    ctx.check(s.accepted == n, "%d server sessions for %d clients", s.accepted, n)
    t0 = time.time()

    def firsts():
        return sorted(int(v[0][:3]) for v in list(s.server_res.values()) if v and v[0] != "end")
    want = [i for i in range(n) if s.kinds[i][0] != "early"]
    while firsts() != want and time.time() - t0 < 20:
        time.sleep(0.005)
    ctx.check(firsts() == want, "server sessions saw clients %r", firsts())
    for k, v in s.server_res.items():
        ms = [x for x in v if x != "end"]
        if ms:
            i = int(ms[0][:3])
            ctx.check(ms[1:] == [b"%d.%d" % (i, j) for j in range(len(ms) - 1)], "server session %d read %r", k, ms)


class Holder:
    """Session handed to the pair once; forwards to the session of the current pattern."""

    def __init__(self):
        self.cur = None

    def client_session(self, channel):
        self.cur.client_session(channel)

    def server_session(self, channel):
        self.cur.server_session(channel)


def with_pair(ctx, body, pair=None, h=None):
    if pair is None:
        h = Holder()
        pair = S.client_server.MpClientServerPair(h)
    r = guarded(ctx, pair.start_server, "start_server")
    ctx.check(r[0] == "ok" and pair.is_alive, "start_server: %s", sess.show(r))
    addr = pair.server.server_address
    body(h, pair)
    r = guarded(ctx, pair.stop_server, "stop_server")
    ctx.check(r[0] == "ok", "stop_server: %s", sess.show(r))
    c = socket.socket()
    c.settimeout(5)
    try:
        ctx.check(c.connect_ex(tuple(addr)) != 0 or c.getsockname() == c.getpeername(), "the stopped server still accepts connections")
    finally:
        c.close()


def run_mp(u, ctx):
    quiet()
    Rec = base_session()

    def body(h, pair):
        for p in u["pats"]:
            kinds = [(CLIENT_KINDS[x % 3], SERVER_KINDS[x // 3]) for x in p]
            ctx.begin(dict(unit="mp", kinds=kinds))
            h.cur = Rec(kinds)
            check_mp(ctx, h.cur, len(kinds), guarded(ctx, lambda: pair.run_sessions(len(kinds), jitter=False), "run_sessions"))
            ctx.step(2 * len(kinds))
            ctx.state("mp", p)
            ctx.outcome("mp %d faults" % sum(k != ("ok", "ok") for k in kinds))
    with_pair(ctx, body)


def run_mporder(u, ctx):
    quiet()
    Rec = base_session()
    n = u["n"]

    def body(h, pair):
        for perm in itertools.permutations(range(n)) if "last" not in u else [tuple(x for x in range(n) if x != i) + (i,) for i in range(n)]:
            ctx.begin(dict(unit="mporder", ends=perm))
            h.cur = Rec([("ok", "ok")] * n, turns=list(perm))
            check_mp(ctx, h.cur, n, guarded(ctx, lambda: pair.run_sessions(n, jitter=False), "run_sessions"))
            ctx.step(n)
            ctx.state("mporder", perm)
            ctx.outcome("end order")
    with_pair(ctx, body)


def run_mpchain(u, ctx):
    quiet()
    Rec = base_session()

    def body(h, pair):
        for n in u["ns"]:
            for p in itertools.product(("ok", "mid"), repeat=n):
                kinds = [(x, "ok") for x in p]
                ctx.begin(dict(unit="mpchain", kinds=kinds))
                h.cur = Rec(kinds, chain=True)
                check_mp(ctx, h.cur, n, guarded(ctx, lambda: pair.run_sessions(n, jitter=False), "run_sessions"))
                ctx.step(n)
                ctx.state("mpchain", p)
                ctx.outcome("chain")
    with_pair(ctx, body)


def run_mprestart(u, ctx):
    """One pair object started and stopped again and again, with failing sessions in between."""
    quiet()
    Rec = base_session()
    h = Holder()
    pair = S.client_server.MpClientServerPair(h)
    for n, ck in itertools.product((0, 1, 2), CLIENT_KINDS):
        kinds = [(ck, "ok")] * n

        def body(h, pair):
            ctx.begin(dict(unit="mprestart", kinds=kinds))
            for _ in range(2):
                h.cur = Rec(kinds)
                check_mp(ctx, h.cur, n, guarded(ctx, lambda: pair.run_sessions(n, jitter=False), "run_sessions"))
            ctx.step(2 * n)
            ctx.state("mprestart", n, ck)
        with_pair(ctx, body, pair, h)
    ctx.outcome("restart")


def run_mpaccept(u, ctx):
    quiet()
    Rec = base_session()
    n = u["n"]

    def body(h, pair):
        for k in range(n + 1):
            for sub in itertools.combinations(range(n), k):
                ctx.begin(dict(unit="mpaccept", failing=sub))
                s = h.cur = Rec([("ok", "ok")] * n, accept_fail=sub)
                r = guarded(ctx, lambda: pair.run_sessions(n, jitter=False), "run_sessions")
                ctx.check(r[0] == "ok" and s.clients == n and len(s.ended) == n, "run_sessions: %s, %d ended", sess.show(r), len(s.ended))
                good = [i for i in range(n) if s.client_res.get(i) == [b"%d.0" % i, b"%d.1" % i]]
                com = [i for i in range(n) if s.client_res.get(i) == "com"]
                ctx.check(len(good) == n - k and len(com) == k, "with %d failing server sessions %d clients complete: %r", k, len(good), s.client_res)
                ctx.step(n)
                ctx.state("mpaccept", sub)
                ctx.outcome("accept faults")
    with_pair(ctx, body)


def run_mpmany(u, ctx):
    quiet()
    Rec = base_session()

    def body(h, pair):
        for n in u["ns"]:
            ctx.begin(dict(unit="mpmany", n=n))
            h.cur = Rec([("ok", "ok")] * n)
            check_mp(ctx, h.cur, n, guarded(ctx, lambda: pair.run_sessions(n, jitter=False), "run_sessions"))
            ctx.step(n)
            ctx.state("mpmany", n)
            ctx.outcome("many")
    with_pair(ctx, body)
    ctx.begin(dict(unit="jitter"))

    def jit(h, pair):
        h.cur = Rec([("ok", "ok")] * 2)
        check_mp(ctx, h.cur, 2, guarded(ctx, lambda: pair.run_sessions(2), "run_sessions"))
    with_pair(ctx, jit)


def run_mpcrowd(u, ctx):
    """One server, session after session."""
    quiet()
    Rec = base_session()

    def body(h, pair):
        for k in range(u["runs"]):
            ctx.begin(dict(unit="mpcrowd", run=k, n=u["n"]))
            h.cur = Rec([("ok", "ok")] * u["n"])
            check_mp(ctx, h.cur, u["n"], guarded(ctx, lambda: pair.run_sessions(u["n"], jitter=False), "run_sessions"))
            ctx.step(u["n"])
            ctx.state("mpcrowd", k)
            ctx.outcome("one server, many sessions")
    with_pair(ctx, body)


SCALE = 100


class Hasty:
    """Limits on waiting run out SCALE times sooner: a session that takes 0.8 s stands for one of 80 s."""

    def __enter__(self):
        s = [(threading.Thread, "join"), (threading.Condition, "wait"), (socket.socket, "settimeout"), (socket, "setdefaulttimeout")]
        self.old = [(o, k, o.__dict__.get(k), getattr(o, k)) for o, k in s]
        for o, k, _, f in self.old:
            if o is socket:
                setattr(o, k, lambda t, f=f: f(t / SCALE if t else t))
            elif k == "settimeout":
                setattr(o, k, lambda self, t, f=f: f(self, t / SCALE if t else t))
            else:
                setattr(o, k, lambda self, timeout=None, f=f: f(self, timeout / SCALE if timeout else timeout))
        return self

    def __exit__(self, *a):
        for o, k, own, f in self.old:
            if own is None:
                delattr(o, k)
            else:
                setattr(o, k, own)
        socket.setdefaulttimeout(None)


def run_mplong(u, ctx):
    """Sessions that outlast any limit on waiting of up to a minute; each of two sessions is the long one, or both."""
    quiet()

    class Long(S.client_server.Session):
        def __init__(self, long, side):
            self.long, self.side, self.lock, self.i, self.res = long, side, threading.Lock(), 0, {}
            self.ended = []

        def client_session(self, channel):
            with self.lock:
                i = self.i
                self.i += 1
            try:
                got = []
                for k in range(2):
                    if i in self.long and self.side == "client":
                        time.sleep(0.4)
                    channel.write_sync(b"L" if i in self.long else b"S")
                    got.append(bytes(channel.read_sync()))
                if i in self.long and self.side == "client":
                    time.sleep(0.4)
                self.res[i] = got
            finally:
                self.ended.append(i)

        def server_session(self, channel):
            try:
                while True:
                    m = bytes(channel.read_sync())
                    if m == b"L" and self.side == "server":
                        time.sleep(0.6)
                    channel.write_sync(m)
            except S.ComException:
                pass

    def body(h, pair):
        for long in ((0,), (1,), (0, 1)):
            for side in ("client", "server"):
                ctx.begin(dict(unit="mplong", long=long, slow=side))
                s = h.cur = Long(long, side)
                join, t = threading.Thread.join, None
                out = []

                def call():
                    try:
                        asyncio.set_event_loop(asyncio.new_event_loop())
                        out.append(("ok", pair.run_sessions(2, jitter=False), sorted(s.ended)))
                    except BaseException as e:
                        out.append(("exc", e, None))
                with Hasty():
                    t = threading.Thread(target=call, daemon=True)
                    t.start()
                    join(t, WATCHDOG_S)
                ctx.check(not t.is_alive(), "run_sessions does not return")
                ctx.check(out[0][0] == "ok", "run_sessions: %s", sess.show(out[0][:2]))
                ctx.check(out[0][2] == [0, 1], "returned when only sessions %r of 2 had ended", out[0][2])
                want = {i: [b"L" if i in long else b"S"] * 2 for i in range(2)}
                ctx.check(s.res == want, "clients read %r", s.res)
                ctx.step(2)
                ctx.state("mplong", long, side)
                ctx.outcome("long sessions")
    with_pair(ctx, body)


def run_mpstop(u, ctx):
    """The server is stopped while any subset of the client sessions still runs; pairs are started again and again."""
    quiet()

    class Busy(S.client_server.Session):
        def __init__(self, busy):
            self.busy, self.lock, self.i, self.got, self.go = busy, threading.Lock(), 0, [], threading.Event()

        def client_session(self, channel):
            with self.lock:
                i = self.i
                self.i += 1
            channel.write_sync(b"%d" % i)
            self.got.append(bytes(channel.read_sync()))
            if i in self.busy:
                self.go.wait(30)

        def server_session(self, channel):
            channel.write_sync(channel.read_sync())

    h = Holder()
    pair = S.client_server.MpClientServerPair(h)
    for n in range(1, 4):
        for k in range(n + 1):
            for busy in itertools.combinations(range(n), k):
                for same in (False, True):
                    ctx.begin(dict(unit="mpstop", n=n, busy=busy, same_pair=same))
                    s = h.cur = Busy(busy)
                    if not same:
                        pair = S.client_server.MpClientServerPair(h)
                    r = guarded(ctx, pair.start_server, "start_server")
                    ctx.check(r[0] == "ok" and pair.is_alive, "start_server: %s", sess.show(r))
                    addr = tuple(pair.server.server_address)
                    t = threading.Thread(target=lambda: pair.run_sessions(n, jitter=False), daemon=True)
                    t.start()
                    t0 = time.time()
                    while len(s.got) < n and time.time() - t0 < 20:
                        time.sleep(0.001)
                    if not busy:
                        t.join(20)
                    ctx.check(sorted(s.got) == [b"%d" % i for i in range(n)], "clients read %r", s.got)
                    ctx.check(t.is_alive() == bool(busy), "run_sessions %s", "returned early" if busy else "does not return")
                    r = guarded(ctx, pair.stop_server, "stop_server")
                    ctx.check(r[0] == "ok", "stop_server: %s", sess.show(r))
                    c = socket.socket()
                    c.settimeout(5)
                    try:
                        ctx.check(c.connect_ex(addr) != 0 or c.getsockname() == c.getpeername(), "the stopped server still accepts connections")
                    finally:
                        c.close()
                    s.go.set()
                    t.join(20)
                    ctx.check(not t.is_alive(), "run_sessions does not return")
                    ctx.step(n + 2)
                    ctx.state("mpstop", n, busy, same)
    ctx.outcome("stopped pairs")


# --------------------------------------------------------------------------------------------------- asyncio pair
class FileSession:
    """Client and server coroutines that note what they did in a scratch directory (clients are other processes)."""

    def __init__(self, where, fails):
        self.where, self.fails = where, fails

    def claim(self):
        i = 0
        while True:
            try:
                os.close(os.open(os.path.join(self.where, "client%d" % i), os.O_CREAT | os.O_EXCL | os.O_WRONLY))
                return i
            except FileExistsError:
                i += 1

    def note(self, name, text):
        with open(os.path.join(self.where, name), "w") as f:
            f.write(text)

    async def server_session(self, reader, writer):
        ch = S.AsyncioChannel(reader, writer)
        got = []
        try:
            while True:
                m = await ch.read()
                got.append(bytes(m).decode())
                await ch.write(m)
        except S.ComException:
            pass
        k = len([x for x in os.listdir(self.where) if x.startswith("server")])
        self.note("server%d" % k, ",".join(got))
        ch.close()

    async def client_session(self, reader, writer):
        i = self.claim()
        ch = S.AsyncioChannel(reader, writer)
        ok = True
        for r in range(3):
            await ch.write(b"%d.%d" % (i, r))
            ok = ok and bytes(await ch.read()) == b"%d.%d" % (i, r)
            if i in self.fails and r == 1:
                self.note("end%d" % i, "failed")
                ch.close()
                raise RuntimeError("client fails")
        await asyncio.sleep(0.01 * i)
        self.note("end%d" % i, "ok" if ok else "wrong answers")
        ch.close()


def own_network(fixed_port=False):
    """Gives the unit a network of its own; failing that, a fixed port is used by one check at a time."""
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        if libc.unshare(0x10000000 | 0x40000000) == 0:      # CLONE_NEWUSER | CLONE_NEWNET
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            fcntl.ioctl(s, 0x8914, struct.pack("16sh14x", b"lo", 0x41))     # SIOCSIFFLAGS: UP | RUNNING
            s.close()
            return
    except (OSError, AttributeError):
        pass
    if not fixed_port:
        return
    own_network.lock = open(os.path.join(tempfile.gettempdir(), "c19-port.lock"), "w")
    fcntl.flock(own_network.lock, fcntl.LOCK_EX)


def port_free():
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    try:
        s.bind(("127.0.0.1", PORT_A))
        return True
    except OSError:
        return False
    finally:
        s.close()


class Slow(FileSession):
    async def client_session(self, reader, writer):
        i = self.claim()
        ch = S.AsyncioChannel(reader, writer)
        ok = True
        for r in range(3):
            await ch.write(b"%d.%d" % (i, r))
            ok = ok and bytes(await ch.read()) == b"%d.%d" % (i, r)
            if i in self.fails:
                time.sleep(0.3)
        self.note("end%d" % i, "ok" if ok else "wrong answers")
        ch.close()


def run_asynclong(u, ctx):
    quiet(True)
    for n, slow in ((1, (0,)), (2, (0,)), (2, (1,)), (2, (0, 1))):
        ctx.begin(dict(unit="asynclong", n=n, slow=slow))
        if not port_free():
            ctx.outcome("port of the asyncio pair is in use by another process")
            continue
        where = tempfile.mkdtemp(prefix="c19-")
        try:
            with Hasty():
                one_async(ctx, where, n, slow, Slow, SCALE)
        finally:
            shutil.rmtree(where, ignore_errors=True)
        ctx.step(n)
        ctx.state("asynclong", n, slow)
        ctx.outcome("long async sessions")


class FewProcesses:
    """With many clients, process pools get at most 2 workers each: the pair asks for n pools of n + 1."""

    def __init__(self, n):
        self.on = n > 4

    def __enter__(self):
        cls = concurrent.futures.process.ProcessPoolExecutor
        self.init = init = cls.__init__
        if self.on:
            def __init__(self, max_workers=None, *a, **k):
                init(self, min(max_workers or 2, 2), *a, **k)
            cls.__init__ = __init__

    def __exit__(self, *a):
        concurrent.futures.process.ProcessPoolExecutor.__init__ = self.init


def run_async(u, ctx):
    quiet(True)
    for n in u["ns"]:
        for k in u.get("ks") or range(n + 1):
            for fails in itertools.combinations(range(n), k) if n < 10 else [tuple(range(k))]:
                ctx.begin(dict(unit="async", n=n, fails=fails))
                if not port_free():
                    ctx.outcome("port of the asyncio pair is in use by another process")
                    continue
                where = tempfile.mkdtemp(prefix="c19-")
                try:
                    with FewProcesses(n):
                        one_async(ctx, where, n, fails)
                finally:
                    shutil.rmtree(where, ignore_errors=True)
                ctx.step(n)
                ctx.state("async", n, fails)
                ctx.outcome("async %d clients" % n)


def one_async(ctx, where, n, fails, Session=FileSession, scale=None):
    s = Session(where, fails)
    loop = asyncio.new_event_loop()
    if scale:
        at, fails = loop.call_at, ()
        loop.call_at = lambda when, *a, **k: at(loop.time() + (when - loop.time()) / (loop.scale or 1), *a, **k)
        loop.scale = scale
    asyncio.set_event_loop(loop)
    loop.set_exception_handler(lambda *a: None)
    pair = S.client_server_a.ClientServerPairA(s, n)
    pair.start_server()
    raised = None
    try:
        pair.run_sessions()
    except RuntimeError as e:
        raised = repr(e)                    # not the exception: its frames would keep worker processes alive
    loop.scale = None
    names = sorted(os.listdir(where))
    ends = {x: open(os.path.join(where, x)).read() for x in names if x.startswith("end")}
    ctx.check(ends == {"end%d" % i: "failed" if i in fails else "ok" for i in range(n)},
              "when run_sessions returned the clients had ended like this: %r (%s)", ends, raised)
    ctx.check(len([x for x in names if x.startswith("client")]) == n, "%r clients", names)
    want = sorted(",".join("%d.%d" % (i, r) for r in range(2 if i in fails else 3)) for i in range(n))
    for tick in range(200):
        loop.run_until_complete(asyncio.sleep(0.02))
        served = sorted(open(os.path.join(where, x)).read() for x in os.listdir(where) if x.startswith("server"))
        if served == want:
            break
    pair.stop_server()
    ctx.check(served == want, "server sessions read %r", served)
    del pair
    gc.collect()
    for tick in range(100):                 # worker processes on their way out may hold the listening socket for a moment
        c = socket.socket()
        c.settimeout(5)
        try:
            if c.connect_ex(("127.0.0.1", PORT_A)) != 0 or c.getsockname() == c.getpeername():
                break
        finally:
            c.close()
        time.sleep(0.05)
    else:
        ctx.fail("the stopped server still accepts connections")


def run_unit(u, ctx):
    ctx.loop = sess.new_loop()
    {"conn": run_conn, "salt": run_salt, "open": run_open, "mp": run_mp, "mporder": run_mporder, "mpaccept": run_mpaccept, "mprestart": run_mprestart,
     "mpchain": run_mpchain, "crowd": run_crowd, "mpcrowd": run_mpcrowd, "mplong": run_mplong, "mpstop": run_mpstop, "asynclong": run_asynclong,
     "mpmany": run_mpmany, "async": run_async}[u["kind"]](u, ctx)
    ctx.sample(ctx.case)
