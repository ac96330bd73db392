"""C13: address queries: every queried key near the server's, every list length, every order of queries, both API styles."""
import itertools

from .. import pk, ref, sess, solo
from ..env import S
from . import c03

BOUNDS = {
    "quick": "8 server keys x (any-address, own key, 256 one-bit neighbours and 9 near misses) x {default, injected} answer x buffering x API "
             "style; injected lists of 0..127 entries with every allowed character at every position; all sequences of <= 4 queries (3 kinds) on "
             "servers sharing one injected answer; all sequences of <= 4 queries and handshakes on one server session; client: all query forms x all answers of 0..127 entries and no-such-server; all sequences of 3 answers to one querying session; 7 kinds of askers and answerers, every pair in all "
             "70 interleavings of their steps",
    "thorough": "as quick with all 32640 two-bit neighbours and 4 injected lists, query sequences of length 6"
}
CH = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-./_"


def setup():
    sess.setup()


def prots(n, salt=0):
    return tuple((bytes(CH[(i * 7 + j + salt) % len(CH)] for j in range(10)), bytes(CH[(i * 3 + j * 5 + salt) % len(CH)] for j in range(10))) for i in range(n))


def keys():
    return [sess.B_SIG, sess.A_SIG] + sess.special()["sig"][:6]


def make_a2(ps, how):
    if how == "built":
        return pk.build("A2", dict(nosuch=0, prots=ps))
    return S.A2Packet(src_buf=ref.a2(ps))


def units(tier):
    us = [dict(kind="decide", key=k, sync=s) for k in range(len(keys())) for s in (False, True)]
    us += [dict(kind="lists", sync=s, how=h) for s in (False, True) for h in ("built", "parsed")]
    us += [dict(kind="flags", sync=s) for s in (False, True)]
    us += [dict(kind="orders", sync=s, depth=4 if tier == "quick" else 6) for s in (False, True)]
    us += [dict(kind="reuse", sync=s, depth=4 if tier == "quick" else 6) for s in (False, True)]
    us += [dict(kind="client", sync=s) for s in (False, True)]
    us += [dict(kind="again", sync=s) for s in (False, True)]
    us += [dict(kind="pair")]
    us += [dict(kind="turns", users=list(p), sync=s) for p in itertools.combinations_with_replacement(sorted(USERS), 2) for s in (False, True)]
    if tier == "thorough":
        us += [dict(kind="two", part=p) for p in range(16)]
    return us


def answer(ctx, sig, x, a2=None, buf2=False, sync=False, a2obj=None):
    """One query x to a fresh server -> the answer's bytes; checks everything but the answer."""
    loop = sess.new_loop()
    ch = sess.ScriptChannel([x, ref.m1(0, sess.A_ENC.pub)])
    s = sess.server(ch, sig, buf2=buf2, a2=a2obj)
    r = sess.call_sync(s.handshake_sync) if sync else loop.call(s.handshake())
    loop.drop()
    ctx.step(2)
    ctx.check(r[0] == "ok", "address query: %s", sess.show(r))
    ctx.check(len(ch.out) == 1 and len(ch.out[0][0]) == 1, "server sent %r", ch.out)
    ctx.check(ch.out[0][1] is True, "the transport is not told that the answer is the last message")
    ctx.check(ch.reads == 1, "server reads on after its answer")
    ctx.check(s.is_done is True, "session not done")
    ctx.check(s.app_channel is None and s.client_sig_key is None, "a secure channel or a client key is reported")
    m = ch.out[0][0][0]
    ctx.check(sig.pub not in m, "answer reveals the server key")
    return m


def expected(sig, named, ps):
    if named is not None and named != sig.pub:
        return ref.a2((), nosuch=True)
    return ref.a2(ref.DEFAULT_PROTS if ps is None else ps)


def query(named):
    return ref.a1() if named is None else ref.a1(1, named)


def run_decide(ctx, u, names):
    sig = keys()[u["key"]]
    for name, k in names(sig.pub):
        for ps in (None, prots(2), ()):
            for buf in ((False, True) if ps is None else (False,)):
                ctx.begin(dict(server=sig.pub, query=name, injected=ps is not None and len(ps), buffer_m2=buf, sync=u["sync"]))
                obj = None if ps is None else make_a2(ps, "built")
                m = answer(ctx, sig, query(k), buf2=buf, sync=u["sync"], a2obj=obj)
                ctx.check(m == expected(sig, k, ps), "query %s answered by %s", name, m.hex())
                ctx.outcome("no such server" if m[1] & 1 else "list of %d" % m[2])
                ctx.state(u["key"], u["sync"], name, ps is None, ps and len(ps), buf)


def run_lists(ctx, u):
    cases = [prots(n) for n in range(128)] + [prots(127, s) for s in (1, 2)]
    for c in CH:
        for pos in range(10):
            cases.append(((bytes(c if j == pos else 0x2d for j in range(10)), bytes(c if j == 9 - pos else 0x2d for j in range(10))),))
    for ps in cases:
        for k in (None, sess.B_SIG.pub):
            ctx.begin(dict(entries=len(ps), prots=ps[:1], own=k is not None, sync=u["sync"], how=u["how"]))
            m = answer(ctx, sess.B_SIG, query(k), sync=u["sync"], a2obj=make_a2(ps, u["how"]))
            ctx.check(m == ref.a2(ps), "configured list of %d sent as %s", len(ps), m.hex()[:300])
            ctx.state(ps, k is None, u["how"], u["sync"])
        ctx.outcome("list of %d" % len(ps))


def run_flags(ctx, u):
    """Reserved bits in a query: refused or ignored, but never a wrong answer."""
    for fl in range(256):
        for name, k in (("any", None), ("own", sess.B_SIG.pub), ("other", sess.C_SIG.pub), ("bit", sess.flip(sess.B_SIG.pub, 77))):
            for ps in (None, prots(2)):
                ctx.begin(dict(flags=fl, query=name, injected=ps is not None, sync=u["sync"]))
                x = ref.a1(flags=fl) if k is None else ref.a1(1, k, flags=fl)
                loop = sess.new_loop()
                ch = sess.ScriptChannel([x])
                s = sess.server(ch, sess.B_SIG, a2=None if ps is None else make_a2(ps, "built"))
                r = sess.call_sync(s.handshake_sync) if u["sync"] else loop.call(s.handshake())
                ctx.step(2)
                if r[0] == "ok" or fl == 0:
                    ctx.check(r[0] == "ok" and ch.out == [((expected(sess.B_SIG, k, ps),), True)], "query %s with flags %#x: %s %r", name, fl, sess.show(r), ch.out)
                else:
                    ctx.check(sess.is_com(r) and not ch.out, "query %s with flags %#x: %s %r", name, fl, sess.show(r), ch.out)
                ctx.state("flags", fl, name, ps is None, u["sync"])
                loop.drop()
    ctx.outcome("reserved bits")


class Relay:
    def __init__(self, peer):
        self.peer = peer

    def feed(self, m):
        return self.peer[0].feed(m) if self.peer[0] else []


def run_reuse(ctx, u):
    """All sequences of queries and handshakes on one server session object."""
    kinds = {"any": None, "own": sess.B_SIG.pub, "other": sess.C_SIG.pub, "hs": None}
    for d in range(1, u["depth"] + 1):
        for order in itertools.product(kinds, repeat=d):
            for ps in (None, prots(3)):
                ctx.begin(dict(reuse=order, injected=ps is not None, sync=u["sync"]))
                loop = sess.new_loop()
                peer = [None]
                ch = sess.RefPeerChannel.make(Relay(peer))
                s = sess.server(ch, sess.B_SIG, a2=None if ps is None else make_a2(ps, "built"))
                ctx.check(not s.is_done, "session done before anything arrived")
                for i, k in enumerate(order):
                    n = len(ch.out)
                    peer[0] = ref.RefClient(sess.A_SIG, sess.A_ENC) if k == "hs" else None
                    ch.inbox.clear()
                    ch.inbox.extend(peer[0].start() if k == "hs" else [query(kinds[k])])
                    r = sess.call_sync(s.handshake_sync) if u["sync"] else loop.call(s.handshake())
                    ctx.step(2)
                    ctx.check(r[0] == "ok", "%s after %r: %s", k, order[:i], sess.show(r))
                    if k == "hs":
                        ctx.check(s.client_sig_key == sess.A_SIG.pub and not ch.errors, "handshake after %r: %r", order[:i], ch.errors)
                        ctx.check(bool(s.is_done) is False or set(order[:i]) - {"hs"}, "session reported done after a handshake")
                    else:
                        ctx.check(s.is_done is True, "%s after %r: session not done", k, order[:i])
                        ctx.check(ch.out[n:] == [((expected(sess.B_SIG, kinds[k], ps),), True)], "%s after %r on the same session answered by %r", k, order[:i], ch.out[n:])
                ctx.state("reuse", order, ps is None, u["sync"])
                loop.drop()
        ctx.outcome("sequences of %d on one session" % d)


def run_orders(ctx, u):
    kinds = {"any": None, "own": sess.B_SIG.pub, "other": sess.C_SIG.pub}
    for d in range(1, u["depth"] + 1):
        for order in itertools.product(kinds, repeat=d):
            for ps in (None, prots(3)):
                ctx.begin(dict(order=order, injected=ps is not None, sync=u["sync"]))
                obj = None if ps is None else make_a2(ps, "built")
                for k in order:
                    m = answer(ctx, sess.B_SIG, query(kinds[k]), sync=u["sync"], a2obj=obj)
                    ctx.check(m == expected(sess.B_SIG, kinds[k], ps), "query %s in order %r answered by %s", k, order, m.hex())
                ctx.state(order, ps is None, u["sync"])
                ctx.outcome("orders of %d" % d)


def client(ch, named):
    c = S.A1Client(ch)
    if named is not None:
        c.a1.data.AddressType, c.a1.data.AddressSize = S.A1Packet.ADDRESS_TYPE_PUBKEY, 32
        c.a1.Address = named
    return c


def do(ctx, c, loop, sync):
    r = sess.call_sync(c.do_a1a2_sync) if sync else loop.call(c.do_a1a2())
    ctx.check(r[0] == "ok", "address query: %s", sess.show(r))
    return pk.fields("A2", c.a2)


def run_client(ctx, u):
    answers = [(prots(n), 0) for n in range(128)] + [((), 1)] + [(prots(1, s), 0) for s in range(66)]
    ks = [None, sess.B_SIG.pub] + [k.pub for k in sess.special()["sig"]]
    for named in ks:
        for ps, nosuch in answers if named in ks[:2] else answers[-3:] + answers[:3] + [((), 1)]:
            ctx.begin(dict(query=named, entries=len(ps), nosuch=nosuch, sync=u["sync"]))
            loop = sess.new_loop()
            ch = sess.ScriptChannel(feed=lambda msgs: [ref.a2(ps, nosuch=nosuch)])
            c = client(ch, named)
            f = do(ctx, c, loop, u["sync"])
            ctx.step(2)
            ctx.check(ch.out == [((query(named),), False)] or ch.out == [((query(named),), True)], "query sent as %r", ch.out)
            ctx.check(f["nosuch"] == nosuch and f["prots"] == ps and f["count"] == len(ps), "answer reported as %r", f)
            ctx.check(ch.reads == 1, "client reads on")
            ctx.state(named, ps, nosuch, u["sync"])
            ctx.outcome("client list of %d" % len(ps))
            loop.drop()


def run_again(ctx, u):
    """One querying session used for several queries: each time the newest answer is reported."""
    answers = [(prots(2), 0), (prots(1, 9), 0), ((), 0), ((), 1), (prots(127), 0)]
    for seq in itertools.product(range(len(answers)), repeat=3):
        for named in (None, sess.B_SIG.pub):
            ctx.begin(dict(query=named, answers=seq, sync=u["sync"]))
            loop, left = sess.new_loop(), [ref.a2(answers[i][0], nosuch=answers[i][1]) for i in seq]
            ch = sess.ScriptChannel(feed=lambda msgs: [left.pop(0)])
            c = client(ch, named)
            for i in seq:
                f = do(ctx, c, loop, u["sync"])
                ctx.step(2)
                ctx.check(f["nosuch"] == answers[i][1] and f["prots"] == answers[i][0], "answers %r: reported %r", seq, f)
            ctx.check([m for m, _ in ch.out] == [(query(named),)] * 3 and ch.reads == 3, "queries sent: %r", ch.out)
            ctx.state("again", seq, named, u["sync"])
            loop.drop()
    ctx.outcome("queries repeated")


def run_pair(ctx, u):
    """Real client against real server, all query forms, answers and styles; two client sessions on fresh servers in turn."""
    for sig in keys():
        for named in [None, sig.pub, sess.C_SIG.pub, sess.flip(sig.pub, 255), bytes(32)]:
            for ps in (None, (), prots(1), prots(2), prots(127)):
                for sync in (False, True):
                    ctx.begin(dict(server=sig.pub, query=named, injected=ps is not None and len(ps), sync=sync))
                    obj = None if ps is None else make_a2(ps, "built")
                    for _ in range(2):
                        ch = sess.ScriptChannel(feed=lambda msgs: [answer(ctx, sig, msgs[0], a2obj=obj)])
                        out = {}

                        def feed(msgs):
                            return [out["a"]]
                        ch.feed = feed
                        out["a"] = answer(ctx, sig, query(named), a2obj=obj)
                        loop = sess.new_loop()
                        f = do(ctx, client(ch, named), loop, sync)
                        exp = named is not None and named != sig.pub
                        ctx.check(f["nosuch"] == int(exp), "flag reported as %r", f["nosuch"])
                        ctx.check(f["prots"] == (() if exp else ref.DEFAULT_PROTS if ps is None else ps), "list reported as %r", f["prots"])
                        loop.drop()
                    ctx.state(sig.pub, named, ps, sync)
                    ctx.outcome("pair")


# ------------------------------------------------------------------------------------------------ several queries at once
def asker(named, ps, nosuch=0):
    """A querying client: created, configured, run, looked at; its answer is turned into another packet afterwards."""
    def script(ctx, i, sync):
        ch = sess.ScriptChannel(feed=lambda msgs: [ref.a2(ps, nosuch=nosuch)])
        c = S.A1Client(ch)
        yield "made"
        if named is not None:
            c.a1.data.AddressType, c.a1.data.AddressSize = S.A1Packet.ADDRESS_TYPE_PUBKEY, 32
            c.a1.Address = named
        yield bytes(c.a1)
        f = do(ctx, c, ctx.loop, sync)
        yield f, [m for m, _ in ch.out], ch.reads
        yield pk.fields("A2", c.a2), bytes(c.a1), bytes(c.a2)
    return script, lambda a: a[2][0]["prots"] == ps and a[2][0]["nosuch"] == nosuch and a[2][1] == [(query(named),)] and a[3] == (a[2][0], query(named), ref.a2(ps, nosuch=nosuch))


def answerer(named, ps):
    """A server: created, given its list, asked."""
    def script(ctx, i, sync):
        ch = sess.ScriptChannel([query(named)])
        s = sess.server(ch, sess.B_SIG)
        yield "made"
        if ps is not None:
            s.a2 = make_a2(ps, "built")
        yield "set"
        r = sess.call_sync(s.handshake_sync) if sync else ctx.loop.call(s.handshake())
        yield r, list(ch.out), s.is_done
        yield list(ch.out), s.is_done, s.app_channel is None, s.client_sig_key
    return script, lambda a: a[2] == (("ok", None), [((expected(sess.B_SIG, named, ps),), True)], True) and a[3] == (a[2][1], True, True, None)


USERS = {"ask any": lambda: asker(None, prots(2)), "ask key": lambda: asker(sess.B_SIG.pub, prots(3)), "ask other": lambda: asker(sess.C_SIG.pub, (), 1),
         "answer default": lambda: answerer(None, None), "answer list": lambda: answerer(sess.B_SIG.pub, prots(2, 5)), "answer empty": lambda: answerer(None, ()),
         "answer none": lambda: answerer(sess.C_SIG.pub, prots(1))}


def run_turns(ctx, u):
    """Two queries at a time, in every interleaving of making, configuring, running and looking at them."""
    def fresh():
        ctx.loop = sess.new_loop()
    us = [USERS[x]() for x in u["users"]]
    alone = solo.interleave(ctx, u, [lambda i=i, s=s: s[0](ctx, i, u["sync"]) for i, s in enumerate(us)], fresh)
    for a, (_, good) in zip(alone, us):
        ctx.check(good(a), "query alone gives %r", a)
    ctx.outcome("turns")


def run_unit(u, ctx):
    k = u["kind"]
    if k == "decide":
        run_decide(ctx, u, lambda pub: [("any", None), ("own", pub)] + list(c03.near(pub)) + [("own", pub), ("any", None)])
    elif k == "two":
        u = dict(u, key=0, sync=False, two=u["part"])
        run_decide(ctx, u, lambda pub: list(c03.names(u, pub)))
    else:
        {"lists": run_lists, "orders": run_orders, "reuse": run_reuse, "client": run_client, "pair": run_pair, "again": run_again, "flags": run_flags, "turns": run_turns}[k](ctx, u)
    ctx.sample(ctx.case)
