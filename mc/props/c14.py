"""C14: times on sent messages and checks of received times, with recording and rejecting time sources."""
import itertools

from .. import ref, sess
from ..env import S

BOUNDS = {
    "quick": "both roles x buffering x all operation sequences of length <= 4 over {write 1, write 3, write big+small, read single, read multi packet of one, read multi} with "
             "distinct times per call, also with received times that stay the same or go back; 44 32-bit values (all single bits and boundaries) at every sent and received position; 4 kinds of checker objection "
             "at every received position followed by further reads; 4000+ first times for the default checker; all 70 interleavings of two sessions with own time "
             "sources; received packets of 22 shapes (1 to 65535 messages, empty to large) x times x places x objection; 44 x 4 sent and received times of no-such-server answers; sessions of 600 "
             "writes and reads",
    "thorough": "sequences of length 6"
}
VALUES = sorted(set([0, 1, 2, 3, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff] + [1 << k for k in range(32)]))
OPS = ["w1", "w3", "wbig", "r1", "rm1", "r3"]


def setup():
    sess.setup()


def keeper(times, first=1):
    class Keeper(S.TimeKeeper):
        def __init__(self):
            self.log, self.i, self.at = [], 0, []

        def get_first_time(self):
            v = first() if callable(first) else first
            self.log.append(("first", v))
            self.at.append(self.ch.reads)
            return v

        def get_time(self):
            v = times(self.i)
            self.i += 1
            self.log.append(("time", v))
            self.at.append(self.ch.reads)
            return v
    return Keeper()


def checker(reject_at=None, error=None):
    class Checker(S.TimeChecker):
        def __init__(self):
            self.log = []

        def _see(self, kind, v):
            self.log.append((kind, v))
            if reject_at is not None and len(self.log) - 1 == reject_at:
                raise error

        def report_first_time(self, time):
            self._see("first", time)

        def check_time(self, time):
            self._see("time", time)
    return Checker()


ROLES = [("client", False), ("client", True), ("server", False), ("server", True)]


def units(tier):
    us = []
    for role, buf in ROLES:
        for op in OPS:
            us.append(dict(kind="ops", role=role, buf=buf, first=op, depth=4 if tier == "quick" else 6))
            us.append(dict(kind="ops", role=role, buf=buf, first=op, depth=3 if tier == "quick" else 4, dt=0))
            us.append(dict(kind="ops", role=role, buf=buf, first=op, depth=3 if tier == "quick" else 4, dt=-150))
        us += [dict(kind="values", role=role, buf=buf), dict(kind="reject", role=role, buf=buf), dict(kind="default", role=role, buf=buf)]
    us += [dict(kind="long", role=role, buf=buf, n=600 if tier == "quick" else 6000) for role, buf in ROLES]
    us += [dict(kind="nosuch", role=role, buf=buf) for role, buf in ROLES]
    us += [dict(kind="shapes", role=role, buf=buf) for role, buf in ROLES]
    us += [dict(kind="two", a=a, b=b) for a in range(4) for b in range(4)]
    return us


class Peer:
    """Reference peer with chosen times; records the time of everything it receives."""

    def __init__(self, role, first=0, hs=0):
        if role == "client":
            self.p = ref.RefServer(sess.B_SIG, sess.B_ENC, first_time=first, t3=hs)
        else:
            self.p = ref.RefClient(sess.A_SIG, sess.A_ENC, first_time=first, t4=hs)
        self.role, self.errors = role, []
        self.times, self.at = [], []      # (name, time) in the order received; reads the session had done before
        self.rd = 1 if role == "client" else 2

    def start(self):
        return self.p.start() if self.role == "server" else []

    def feed(self, msgs):
        out = []
        for m in msgs:
            st = self.p.state
            if st == "m1":
                self.times.append(("M1", ref.p_m1(m)["time"]))
            elif st == "m2":
                self.times.append(("M2", ref.p_m2(m)["time"]))
            elif st in ("m3", "m4", "open"):
                c = ref.unseal(self.p.key, self.p.rd, m)
                if c is not None:
                    t = ref.p_m34(c, c[0])["time"] if st != "open" else ref.p_app_any(c)[0]
                    self.times.append(({"m3": "M3", "m4": "M4"}.get(st, "app"), t))
            self.at.append(self.ch.reads)
            try:
                out += self.p.feed(m)
            except ValueError as e:
                self.errors.append(str(e))
        return out


def give(p, msgs, t, multi=False):
    """A packet with these messages; `multi`: a single one in a packet of several, as a peer may send it."""
    return p._seal(ref.multi(t, msgs), False) if multi else p.app(*msgs, time=t)


def build(role, buf, peer, tk, tc):
    ch = sess.ScriptChannel(peer.start(), feed=peer.feed)
    s = sess.client(ch, buf4=buf, tk=tk, tc=tc) if role == "client" else sess.server(ch, buf2=buf, tk=tk, tc=tc)
    peer.ch = ch
    if tk is not None:
        tk.ch = ch
    return ch, s


def check_sent(ctx, names, peer, tk, at, seen, what):
    """Times the peer got since `seen` against what the keeper handed out since `at`."""
    got = peer.times[seen:]
    ctx.check([n for n, _ in got] == names, "%s: messages sent are %r", what, got)
    log = tk.log[at:]
    firsts, times = [v for k, v in log if k == "first"], [v for k, v in log if k == "time"]
    for n, t in got:
        if n in ("M1", "M2"):
            ctx.check(t in firsts, "%s: %s carries %r, first times obtained: %r", what, n, t, firsts)
        else:
            ctx.check(t in times or (n == "M3" and t in firsts and "M2" in names and ctx.case.get("buf")), "%s: %s carries %r, times obtained for this send: %r", what, n, t, log)
    for (n, t), reads in zip(got, peer.at[seen:]):
        ctx.check(any(v == t and r == reads for (_, v), r in zip(log, tk.at[at:])), "%s: the time of %s was obtained before the session waited for input", what, n)
    order = [log.index(next(e for e in log if e[1] == t)) for n, t in got]
    ctx.check(order == sorted(order), "%s: times go back: %r of %r", what, got, log)


def handshake(ctx, loop, s, role, buf, peer, tk):
    at, seen = len(tk.log), len(peer.times)
    r = loop.call(s.handshake())
    ctx.check(r[0] == "ok" and not peer.errors, "handshake: %s %r", sess.show(r), peer.errors)
    # "for that send": M1 belongs to one send, M4 (M2, M3) to later ones, all within this call
    names = (["M1"] if buf else ["M1", "M4"]) if role == "client" else ["M2", "M3"]
    check_sent(ctx, names, peer, tk, at, seen, "handshake")
    if role == "server" and buf:
        ctx.check(peer.times[seen][1] == peer.times[seen + 1][1], "a buffered M2 and M3 carry different times: %r", peer.times[seen:])
    ctx.check(tk.log[0][0] == "first", "the first call to the time source is %r", tk.log[0])


def write(ctx, loop, s, op, peer, tk, pend4):
    msgs = {"w1": (b"x",), "w3": (b"a", b"", b"c"), "wbig": (b"B" * 65536, b"s")}[op]
    at, seen = len(tk.log), len(peer.times)
    r = loop.call(s.app_channel.write(*msgs))
    ctx.check(r[0] == "ok" and not peer.errors, "write: %s %r", sess.show(r), peer.errors)
    check_sent(ctx, (["M4"] if pend4 else []) + ["app"] * (2 if op == "wbig" else 1), peer, tk, at, seen, op)
    ctx.check(len({v for _, v in peer.times[seen:]}) == 1, "the packets of one write carry different times: %r", peer.times[seen:])


def run_ops(ctx, u):
    role, buf = u["role"], u["buf"]
    for rest in itertools.product(OPS, repeat=u["depth"] - 1):
        ctx.begin(dict(role=role, buf=buf, ops=(u["first"],) + rest))
        peer = Peer(role, first=1, hs=77)
        base = 1000
        tk, tc = keeper(lambda i: base + 10 * i), checker()
        loop = sess.new_loop()
        ch, s = build(role, buf, peer, tk, tc)
        handshake(ctx, loop, s, role, buf, peer, tk)
        ctx.check(tc.log == [("first", 1), ("time", 77)], "checker was given %r", tc.log)
        pend4, t, seen = role == "client" and buf, 5000, 2
        for op in (u["first"],) + rest:
            ctx.step()
            if op[0] == "w":
                write(ctx, loop, s, op, peer, tk, pend4)
                pend4 = False
                ctx.check(len(tc.log) == seen, "a write calls the checker: %r", tc.log)
            else:
                msgs = (b"q", b"", b"r") if op == "r3" else (b"p",)
                t += u.get("dt", 3)
                ch.inbox.append(give(peer.p, msgs, t, op == "rm1"))
                n = len(tk.log)
                for i, m in enumerate(msgs):
                    r = loop.call(s.app_channel.read())
                    ctx.check(r == ("ok", m), "read: %s", sess.show(r))
                    ctx.check(tc.log[seen:] == [("time", t)], "checker was given %r instead of %d", tc.log[seen:], t)
                seen += 1
                ctx.check(len(tk.log) == n, "a read asks the time source")
            ctx.state(role, buf, ctx.case["ops"], seen, len(tk.log))
        ctx.outcome("%s %d sent times, %d checked times" % (role, len(peer.times), len(tc.log)))
        loop.drop()


def run_values(ctx, u):
    role, buf = u["role"], u["buf"]
    for v in VALUES:
        for pos in ("first", "time0", "time1", "time2"):
            ctx.begin(dict(role=role, buf=buf, send=v, at=pos))
            peer = Peer(role)
            k = None if pos == "first" else int(pos[4])
            tk = keeper(lambda i: v if i == k else 7000 + i, first=v if pos == "first" else 5)
            loop = sess.new_loop()
            ch, s = build(role, buf, peer, tk, checker())
            handshake(ctx, loop, s, role, buf, peer, tk)
            write(ctx, loop, s, "w1", peer, tk, role == "client" and buf)
            write(ctx, loop, s, "w3", peer, tk, False)
            write(ctx, loop, s, "wbig", peer, tk, False)
            sent = [t for _, t in peer.times]
            ctx.check(v in sent or (buf and k is not None), "time %d never sent: %r", v, peer.times)
            ctx.state("send", role, buf, v, pos)
            loop.drop()
        for pos in range(4):
            ctx.begin(dict(role=role, buf=buf, receive=v, at=pos))
            tv = [v if pos == i else 9000 + i for i in range(4)]
            peer = Peer(role, first=tv[0], hs=tv[1])
            tc = checker()
            loop = sess.new_loop()
            ch, s = build(role, buf, peer, keeper(lambda i: i), tc)
            r = loop.call(s.handshake())
            ctx.check(r[0] == "ok", "handshake: %s", sess.show(r))
            for t, msgs, m in ((tv[2], (b"x",), False), (tv[3], (b"y", b"z"), True), (tv[2], (b"x",), True)):
                ch.inbox.append(give(peer.p, msgs, t, m))
                for m in msgs:
                    r = loop.call(s.app_channel.read())
                    ctx.check(r == ("ok", m), "read: %s", sess.show(r))
            ctx.step(5)
            ctx.check(tc.log == [("first", tv[0])] + [("time", t) for t in tv[1:] + tv[2:3]], "checker was given %r for %r", tc.log, tv)
            ctx.state("recv", role, buf, v, pos)
            loop.drop()
    ctx.outcome("values %s %s" % (role, buf))


def run_reject(ctx, u):
    role, buf = u["role"], u["buf"]

    class Own(Exception):
        pass
    for mk in (lambda: S.TimeException("late"), lambda: S.BadPeer("time"), lambda: Own("own"), lambda: ValueError("value")):
        for at in range(8):
            for wanted in (None, "other") if role == "server" and at == 0 else (None,):
                err = mk()
                ctx.begin(dict(role=role, buf=buf, objection=type(err).__name__, at=at, wanted=wanted))
                peer = Peer(role, first=1, hs=70)
                if wanted:
                    peer.p.wanted = sess.C_SIG.pub
                tc = checker(at, err)
                loop = sess.new_loop()
                ch, s = build(role, buf, peer, keeper(lambda i: i), tc)
                r = loop.call(s.handshake())
                ctx.step()
                if at < 2:
                    ctx.check(r[0] == "exc" and r[1] is err, "handshake with objection at %d: %s", at, sess.show(r))
                    if role == "server":
                        ctx.check(len(ch.sent) == (0, 2)[at], "server sent %d messages", len(ch.sent))
                        ctx.check(s.client_sig_key is None, "server reports the client's key although the time of M4 was refused")
                    else:
                        ctx.check(len(ch.sent) == 1, "client sent %d messages", len(ch.sent))
                    ctx.check(tc.log == [("first", 1), ("time", 70)][:at + 1], "checker was given %r", tc.log)
                else:
                    ctx.check(r[0] == "ok", "handshake: %s", sess.show(r))
                    for i, msgs in enumerate([(b"a",), (b"b", b"c", b"d"), (b"e",), (b"", b"f"), (b"g",), (b"",)]):
                        ch.inbox.append(give(peer.p, msgs, 100 + i, i >= 4))
                        r = loop.call(s.app_channel.read())
                        ctx.step()
                        if i + 2 == at:
                            ctx.check(r[0] == "exc" and r[1] is err, "read with objection: %s", sess.show(r))
                            r = loop.call(s.app_channel.read())
                            ctx.check(r[0] == "pending", "after the objection a read gives %s", sess.show(r))
                        elif i + 2 < at or r[0] == "ok":
                            for j, m in enumerate(msgs):
                                r = r if j == 0 else loop.call(s.app_channel.read())
                                ctx.check(r == ("ok", m), "read: %s", sess.show(r))
                        else:
                            ctx.check(sess.is_com(r), "read after an objection: %s", sess.show(r))
                ctx.outcome("%s objection at %d" % (role, at))
                ctx.state(role, buf, type(err).__name__, at, wanted)
                loop.drop()


def run_default(ctx, u):
    role, buf = u["role"], u["buf"]
    firsts = sorted(set(VALUES + list(range(600)) + [v - 1 for v in VALUES if v] + [v + 1 for v in VALUES if v < 0xffffffff] +
                        [(1 << a) | (1 << b) for a in range(32) for b in range(a)]))
    for v in firsts:
        ctx.begin(dict(role=role, buf=buf, default=True, first=v))
        peer = Peer(role, first=v, hs=VALUES[v % len(VALUES)])
        loop = sess.new_loop()
        ch, s = build(role, buf, peer, None, None)
        r = loop.call(s.handshake())
        ctx.step()
        if v in (0, 1):
            ctx.check(r[0] == "ok", "first time %d: %s", v, sess.show(r))
        else:
            ctx.check(sess.is_badpeer(r), "first time %d: %s", v, sess.show(r))
            ctx.check(len(ch.sent) == (0 if role == "server" else 1), "sends on after a bad first time")
        ctx.outcome("%s first %s" % (role, v if v < 2 else "bad"))
        ctx.state(role, buf, v)
        loop.drop()
    for v in VALUES:
        ctx.begin(dict(role=role, buf=buf, default=True, later=v))
        peer = Peer(role, first=1, hs=v)
        loop = sess.new_loop()
        ch, s = build(role, buf, peer, None, None)
        r = loop.call(s.handshake())
        ctx.check(r[0] == "ok", "handshake with time %d: %s", v, sess.show(r))
        ch.inbox.append(peer.p.app(b"x", time=v))
        r = loop.call(s.app_channel.read())
        ctx.check(r == ("ok", b"x"), "message with time %d: %s", v, sess.show(r))
        r = loop.call(s.app_channel.write(b"x"))
        ctx.check(r[0] == "ok" and all(t == 0 for _, t in peer.times), "default times are %r", peer.times)
        ctx.state(role, buf, "later", v)
        loop.drop()


def run_long(ctx, u):
    """Long sessions: every one of many sends asks for its own time, every received time is checked."""
    role, buf = u["role"], u["buf"]
    for repeat in (1, 3):       # clocks that stand still for a while
        ctx.begin(dict(role=role, buf=buf, long=u["n"], repeat=repeat))
        peer = Peer(role, first=1, hs=77)
        tk, tc = keeper(lambda i: 1000 + i // repeat), checker()
        loop = sess.new_loop()
        ch, s = build(role, buf, peer, tk, tc)
        r = loop.call(s.handshake())
        ctx.check(r[0] == "ok", "handshake: %s", sess.show(r))
        for i in range(u["n"]):
            n, seen = len(tk.log), len(peer.times)
            r = loop.call(s.app_channel.write(*((b"x",) if i % 3 else (b"x", b"y"))))
            ctx.check(r[0] == "ok" and not peer.errors, "write %d: %s %r", i, sess.show(r), peer.errors)
            new = [v for k, v in tk.log[n:] if k == "time"]
            ctx.check(new and all(t in new for _, t in peer.times[seen:]), "write %d carries %r, times obtained for it: %r", i, peer.times[seen:], new)
            at = len(tc.log)
            t = (i // repeat * 0x01000193 + 5) & 0xffffffff
            ch.inbox.append(peer.p.app(*((b"p",) if i % 2 else (b"q", b"r")), time=t))
            for _ in range(1 if i % 2 else 2):
                r = loop.call(s.app_channel.read())
                ctx.check(r[0] == "ok", "read %d: %s", i, sess.show(r))
            ctx.check(tc.log[at:] == [("time", t)], "for message %d with time %d the checker was given %r", i, t, tc.log[at:])
            ctx.step(2)
        loop.drop()
        ctx.state("long", role, buf, repeat)
    ctx.outcome("long session")


SHAPES = [((b"",), False), ((b"",), True), ((b"\0" * 4,), False), ((b"x" * 65535,), True), ((b"x" * 65536,), False), ((b"y" * 200000,), False), ((b"", b""), True),
          ((b"", b"z"), True), ((b"x" * 65535, b""), True)] + [((b"k",) * n, True) for n in (2, 3, 16, 17, 127, 128, 129, 255, 256, 257, 1000, 32768, 65535)]


def run_shapes(ctx, u):
    """Packets of every shape at every place of a session: the one time each carries is checked, an objection keeps all of it back."""
    role, buf = u["role"], u["buf"]
    for i, (msgs, m) in enumerate(SHAPES):
        for t, before, between, obj in itertools.product((0, 1, 0xffffffff), (0, 1), (False, True), (False, True)):
            if len(msgs) > 1000 and (t or before or between):
                continue
            ctx.begin(dict(role=role, buf=buf, shape=[len(msgs), len(msgs[0])], multi=m, t=t, before=before, write_between=between, objection=obj))
            peer = Peer(role, first=1, hs=70)
            err = S.TimeException("late")
            tc = checker(2 + before if obj else None, err)
            loop = sess.new_loop()
            ch, s = build(role, buf, peer, keeper(lambda i: i), tc)
            r = loop.call(s.handshake())
            ctx.check(r[0] == "ok", "handshake: %s", sess.show(r))
            if before:
                ch.inbox.append(give(peer.p, (b"before",), 5))
                r = loop.call(s.app_channel.read())
                ctx.check(r == ("ok", b"before"), "read: %s", sess.show(r))
            if between:
                r = loop.call(s.app_channel.write(b"mine"))
                ctx.check(r[0] == "ok", "write: %s", sess.show(r))
            seen = len(tc.log)
            ch.inbox.append(give(peer.p, msgs, t, m))
            for j, want in enumerate(msgs):
                r = loop.call(s.app_channel.read())
                if obj:
                    ctx.check(r[0] == "exc" and r[1] is err, "read with objection: %s", sess.show(r))
                    r = loop.call(s.app_channel.read())
                    ctx.check(r[0] == "pending", "after the objection a read gives %s", sess.show(r))
                    break
                ctx.check(r == ("ok", want), "read: %s", sess.show(r))
            ctx.step(3)
            ctx.check(tc.log[seen:] == [("time", t)], "checker was given %r for one packet with time %d", tc.log[seen:][:5], t)
            ctx.state("shape", role, buf, i, t, before, between, obj)
            loop.drop()
    ctx.outcome("shapes")


def run_nosuch(ctx, u):
    """The no-such-server answer: sent with the server's first time, its time checked by the client."""
    role, buf = u["role"], u["buf"]
    for v in VALUES:
        for w in (0, 1, 5, v):
            ctx.begin(dict(role=role, buf=buf, send=v, receive=w, nosuch=True))
            loop = sess.new_loop()
            peer = Peer(role, first=w)
            tk, tc = keeper(lambda i: 7000 + i, first=v), checker()
            if role == "server":
                peer.p.wanted = sess.C_SIG.pub
            ch, s = build(role, buf, peer, tk, tc)
            if role == "client":
                s.wanted_server_sig_key = sess.C_SIG.pub
                ch.feed = lambda msgs: [ref.m2(w, bytes(32), nosuch=True, last=True)]
            r = loop.call(s.handshake())
            ctx.step(2)
            ctx.check(r[0] == "exc" and isinstance(r[1], S.NoSuchServerException), "handshake: %s", sess.show(r))
            ctx.check(tc.log == [("first", w)], "checker was given %r", tc.log)
            ctx.check(len(ch.sent) == 1, "%d messages sent", len(ch.sent))
            t = ref.p_m1(ch.sent[0])["time"] if role == "client" else int.from_bytes(ch.sent[0][2:6], "little")
            ctx.check(t == v and tk.log == [("first", v)], "message carries %d, times obtained: %r", t, tk.log)
            ctx.state("nosuch", role, buf, v, w)
            loop.drop()
    for mk in (lambda: S.TimeException("late"), lambda: ValueError("value")):
        err = mk()
        ctx.begin(dict(role=role, buf=buf, nosuch=True, objection=type(err).__name__))
        loop = sess.new_loop()
        peer = Peer(role, first=1)
        if role == "server":
            peer.p.wanted = sess.C_SIG.pub
        ch, s = build(role, buf, peer, keeper(lambda i: i), checker(0, err))
        if role == "client":
            ch.feed = lambda msgs: [ref.m2(1, bytes(32), nosuch=True, last=True)]
        r = loop.call(s.handshake())
        ctx.check(r[0] == "exc" and r[1] is err, "objection: %s", sess.show(r))
        ctx.check(len(ch.sent) == (role == "client"), "%d messages sent", len(ch.sent))
        ctx.state("nosuch objection", role, buf, type(err).__name__)
        loop.drop()
    ctx.outcome("no such server, %s" % role)


def run_two(ctx, u):
    """Two sessions with sources of the same classes but own values, in all interleavings of their operations."""
    ra, rb = ROLES[u["a"]], ROLES[u["b"]]

    class Clock(S.TimeKeeper):
        def __init__(self, base):
            self.base, self.log, self.at = base, [], []

        def get_first_time(self):
            self.log.append(("first", self.base))
            self.at.append(self.ch.reads)
            return self.base

        def get_time(self):
            self.log.append(("time", self.base + len(self.log)))
            self.at.append(self.ch.reads)
            return self.log[-1][1]

    class Check(S.TimeChecker):
        def __init__(self, base):
            self.base, self.log = base, []

        def report_first_time(self, time):
            self.log.append(("first", time))

        def check_time(self, time):
            self.log.append(("time", time))
    for own in ("both", "first"):
        for order in sorted(set(itertools.permutations([0] * 4 + [1] * 4))):
            ctx.begin(dict(sessions=(ra, rb), order=order, own_sources=own))
            loop = sess.new_loop()
            S2 = []
            for i, (role, buf) in enumerate((ra, rb)):
                mine = own == "both" or i == 0
                peer = Peer(role, first=1 if mine else 0, hs=300 * i)
                tk, tc = (Clock(5000 * (i + 1)), Check(i)) if mine else (None, None)
                ch, s = build(role, buf, peer, tk, tc)
                S2.append(dict(i=i, role=role, buf=buf, peer=peer, tk=tk, tc=tc, ch=ch, s=s, step=0, pend4=role == "client" and buf))
            for i in order:
                x = S2[i]
                ctx.case = dict(ctx.case, buf=x["buf"])
                st = x["step"]
                x["step"] += 1
                ctx.step()
                if st == 0:
                    if x["tk"]:
                        handshake(ctx, loop, x["s"], x["role"], x["buf"], x["peer"], x["tk"])
                    else:
                        r = loop.call(x["s"].handshake())
                        ctx.check(r[0] == "ok", "handshake: %s", sess.show(r))
                elif st in (1, 3):
                    if x["tk"]:
                        write(ctx, loop, x["s"], "w1" if st == 1 else "w3", x["peer"], x["tk"], x["pend4"])
                    else:
                        r = loop.call(x["s"].app_channel.write(b"x"))
                        ctx.check(r[0] == "ok", "write: %s", sess.show(r))
                    x["pend4"] = False
                else:
                    x["ch"].inbox.append(x["peer"].p.app(b"u", b"v", time=400 + i))
                    for m in (b"u", b"v"):
                        r = loop.call(x["s"].app_channel.read())
                        ctx.check(r == ("ok", m), "read: %s", sess.show(r))
            for i, x in enumerate(S2):
                if x["tc"]:
                    ctx.check(x["tc"].log == [("first", 1), ("time", 300 * i), ("time", 400 + i)], "checker of session %d was given %r", i, x["tc"].log)
                else:
                    ctx.check(all(t == 0 for _, t in x["peer"].times), "session with the default time source sends %r", x["peer"].times)
            ctx.state(u, own, order)
            ctx.outcome("two sessions")
            loop.drop()


def run_unit(u, ctx):
    {"ops": run_ops, "values": run_values, "reject": run_reject, "default": run_default, "two": run_two, "nosuch": run_nosuch, "shapes": run_shapes, "long": run_long}[u["kind"]](ctx, u)
    ctx.sample(ctx.case)
