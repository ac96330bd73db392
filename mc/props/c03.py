"""C03: named server keys. Every key that differs in one bit, one byte or one half; every flag byte of the answer."""
import itertools

from .. import ref, sess
from ..env import S

BOUNDS = {
    "quick": "12 server keys x (256 one-bit neighbours + structured near misses) x both roles x buffering; 256 flag bytes x 2 "
             "times x 3 key fields of the M2 answer, with and without wanted key; all sequences of 3 sessions with the named and the actual key changing in between, own and peer first times 0 and 1, on fresh and "
             "on the same session objects; all sequences of <= 2 of 18 kinds of failed or completed handshakes on one client that "
             "has named its server once, then an impostor, then the named server",
    "thorough": "as quick with all 32640 two-bit neighbours of one key and all 256 values of every key byte of two keys"
}


def setup():
    sess.setup()


def keysets():
    return [sess.B_SIG, sess.A_SIG] + sess.special()["sig"]


def near(pub):
    for b in range(256):
        yield "bit%d" % b, sess.flip(pub, b)
    yield "zero", bytes(32)
    yield "ff", b"\xff" * 32
    yield "other", sess.C_SIG.pub
    yield "rev", pub[::-1]
    yield "head", pub[:16] + bytes(16)
    yield "tail", bytes(16) + pub[16:]
    yield "rot", pub[1:] + pub[:1]
    yield "swap", pub[16:] + pub[:16]
    yield "inv", bytes(255 - x for x in pub)


def units(tier):
    us = []
    n = len(keysets())
    for i in range(n):
        for buf in (False, True):
            us.append(dict(kind="server", key=i, buf=buf))
            us.append(dict(kind="client", key=i, buf=buf))
    for w in (False, True):
        for buf in (False, True):
            us.append(dict(kind="flags", wanted=w, buf=buf))
    us += [dict(kind="again", role=r, buf=b, depth=3 if tier == "quick" else 5) for r in ("client", "server") for b in (False, True)]
    us += [dict(kind="after", role="client", buf=b, wanted=True, sync=y, depth=2 if tier == "quick" else 3) for b in (False, True) for y in (False, True)]
    if tier == "thorough":
        for part in range(16):
            us.append(dict(kind="server", key=0, buf=False, two=part))
            us.append(dict(kind="client", key=0, buf=False, two=part))
        for i in (0, 2):
            us.append(dict(kind="server", key=i, buf=False, bytes=1))
            us.append(dict(kind="client", key=i, buf=False, bytes=1))
    return us


def names(u, pub):
    if "two" in u:
        for i in range(u["two"] * 16, u["two"] * 16 + 16):
            for j in range(i + 1, 256):
                yield "bits%d,%d" % (i, j), sess.flip(sess.flip(pub, i), j)
    elif "bytes" in u:
        for i in range(32):
            for v in range(256):
                if v != pub[i]:
                    yield "byte%d=%d" % (i, v), pub[:i] + bytes([v]) + pub[i + 1:]
    else:
        yield from near(pub)


def clock(first):
    class Clock(S.TimeKeeper):
        n = 0

        def get_first_time(self):
            return first

        def get_time(self):
            self.n += 1
            return self.n
    return Clock()


def server_case(ctx, sig, buf, named, obj=None, t=None):
    loop = sess.new_loop()
    rc = ref.RefClient(sess.A_SIG, sess.A_ENC, wanted=named, first_time=t or 0)
    ch = sess.RefPeerChannel.make(rc, inbox=rc.start())
    if named is not None and named != sig.pub:
        ch.inbox.append(ref.seal(bytes(32), 1, b"x" * 102))
    if obj is None:
        s = sess.server(ch, sig, sess.B_ENC, buf, tk=clock(t) if t is not None else None)
    else:       # the same object on a new transport
        s = obj
        s.clear_channel, s.sig_keypair, s.client_sig_key = ch, sess.kp(sig), None
    r = loop.call(s.handshake())
    loop.drop()
    ctx.step(2)
    if named is None or named == sig.pub:
        ctx.check(r[0] == "ok" and not ch.errors, "server with the named key does not proceed: %s %r", sess.show(r), ch.errors)
        ctx.check(s.app_channel is not None and bytes(s.client_sig_key) == sess.A_SIG.pub, "server did not complete")
        ctx.outcome("server proceeds")
        return s
    ctx.check(r[0] == "exc" and isinstance(r[1], S.NoSuchServerException), "server named %s: %s", named.hex(), sess.show(r))
    ctx.check(len(ch.out) == 1 and len(ch.out[0][0]) == 1, "server sent %d writes", len(ch.out))
    m = ch.out[0][0][0]
    p = ref.p_m2(m)
    ctx.check(p is not None and len(m) == 38 and p["nosuch"] == 1 and p["last"] == 1, "answer is %s", m.hex())
    ctx.check(m[1] == 0x81, "answer has reserved bits: %s", m.hex())
    ctx.check(ch.out[0][1] is True, "the transport is not told that the answer is the last message")
    ctx.check(m[6:] == bytes(32), "answer has a key field %s", m.hex())
    ctx.check(sig.pub not in m, "answer reveals the server key")
    ctx.check(ch.reads == 1, "server reads on after its answer")
    ctx.check(s.client_sig_key is None, "server reports a client key")
    ctx.outcome("server refuses")
    return s


def client_case(ctx, sig, buf, wanted, obj=None, t=None):
    """The peer proves key `sig` correctly and ignores the wanted key."""
    loop = sess.new_loop()
    rs = ref.RefServer(sig, sess.B_ENC)
    feed = rs.feed

    def lenient(m):
        if rs.state != "m1":
            return feed(m)
        p = ref.p_m1(m)
        ctx.check(p is not None, "M1 malformed: %s", m.hex())
        ctx.check(p["server"] == wanted, "M1 does not carry the wanted key")
        rs.key = ref.shared(rs.enc.sec, p["ckey"])
        mm2 = ref.m2(t or 0, rs.enc.pub)
        rs.h1, rs.h2, rs.state = ref.h(m), ref.h(mm2), "m4"
        return [mm2, rs._seal(ref.m3(0, sig.pub, ref.sign(ref.SIG1, rs.h1, rs.h2, sig.sec)))]
    rs.feed = lenient
    ch = sess.RefPeerChannel.make(rs)
    if obj is None:
        c = sess.client(ch, sess.A_SIG, sess.A_ENC, buf, wanted, tk=clock(t) if t is not None else None)
    else:
        c = obj
        c.clear_channel, c.wanted_server_sig_key = ch, wanted or b""
    r = loop.call(c.handshake())
    ctx.step(3)
    if wanted is None or wanted == sig.pub:
        ctx.check(r[0] == "ok", "client does not complete with the wanted server: %s", sess.show(r))
        r = loop.call(c.app_channel.write(b"x"))
        ctx.check(r[0] == "ok" and rs.got == [b"x"] and not ch.errors, "session unusable: %s %r", sess.show(r), ch.errors)
        ctx.outcome("client completes")
    else:
        ctx.check(sess.is_com(r), "client that wants %s meets %s: %s", wanted.hex(), sig.pub.hex(), sess.show(r))
        ctx.check(len(ch.sent) == 1, "client goes on sending to the wrong server")
        ctx.outcome("client refuses")
    loop.drop()
    return c


def flags_case(ctx, wanted, buf, fl, t, kf):
    loop = sess.new_loop()
    rs = ref.RefServer(sess.B_SIG, sess.B_ENC, first_time=t)
    feed = rs.feed

    def f(m):
        if rs.state != "m1":
            return feed(m)
        feed(m)
        mm2 = ref.m2(t, {"real": rs.enc.pub, "zero": bytes(32), "ff": b"\xff" * 32}[kf], flags=fl)
        rs.h2, rs.wr = ref.h(mm2), 2
        return [mm2, rs._seal(ref.m3(0, rs.sig.pub, ref.sign(ref.SIG1, rs.h1, rs.h2, rs.sig.sec)))]
    rs.feed = f
    ch = sess.RefPeerChannel.make(rs)
    c = sess.client(ch, sess.A_SIG, sess.A_ENC, buf, sess.B_SIG.pub if wanted else None)
    r = loop.call(c.handshake())
    loop.drop()
    ctx.step(3)
    if fl & 1:
        ok = r[0] == "exc" and (isinstance(r[1], S.NoSuchServerException) if fl == 0x81 else sess.is_com(r))
        ctx.check(ok, "answer with flags %#x: %s", fl, sess.show(r))
        ctx.check(len(ch.sent) == 1, "client sends on after the no-such-server answer")
        ctx.check(ch.reads == 1, "client reads on after the no-such-server answer")
        ctx.outcome("no such server")
    elif kf == "real" and fl == 0:
        ctx.check(r[0] == "ok", "plain answer: %s", sess.show(r))
        ctx.outcome("completes")
    else:
        ctx.check(r[0] == "ok" if kf == "real" and r[0] != "exc" else sess.is_com(r), "flags %#x key %s: %s", fl, kf, sess.show(r))
        if r[0] == "exc":
            ctx.check(not isinstance(r[1], S.NoSuchServerException), "no-such-server error without such an answer")
            ctx.check(len(ch.sent) == 1, "client sends on after a bad answer")
        ctx.outcome("other flags: " + r[0])


def run_again(u, ctx):
    """Session after session with the naming changed in between: fresh objects, and the same client or server object."""
    keys = dict(none=None, B=sess.B_SIG.pub, C=sess.C_SIG.pub)
    for same in (False, True):
        for seq in itertools.product(itertools.product(keys, (sess.B_SIG, sess.C_SIG)), repeat=u["depth"]):
            ctx.begin(dict(role=u["role"], buf=u["buf"], same_object=same, named=[(k, "BC"[s is sess.C_SIG]) for k, s in seq]))
            obj = None
            for k, sig in seq:
                if u["role"] == "client":
                    obj = client_case(ctx, sig, u["buf"], keys[k], obj if same else None)
                else:
                    obj = server_case(ctx, sig, u["buf"], keys[k], obj if same else None)
            ctx.state("again", u["role"], u["buf"], same, [(k, s.pub) for k, s in seq])


def run_unit(u, ctx):
    if u["kind"] == "again":
        return run_again(u, ctx)
    if u["kind"] == "after":
        from . import c02
        return c02.after(ctx, u)
    if u["kind"] == "flags":
        for fl in range(256):
            for t in (0, 1):
                for kf in ("real", "zero", "ff"):
                    ctx.begin(dict(flags=fl, time=t, key=kf, wanted=u["wanted"], buf4=u["buf"]))
                    flags_case(ctx, u["wanted"], u["buf"], fl, t, kf)
                    ctx.state(u, fl, t, kf)
        return
    sig = keysets()[u["key"]]
    f = server_case if u["kind"] == "server" else client_case
    todo = [("none", None), ("own", sig.pub)] + list(names(u, sig.pub)) + [("own", sig.pub)]
    for name, k in todo:
        ctx.begin(dict(role=u["kind"], server_key=sig.pub, named=name, buf=u["buf"]))
        f(ctx, sig, u["buf"], k)
        for t in (0, 1):
            ctx.begin(dict(role=u["kind"], server_key=sig.pub, named=name, buf=u["buf"], first_time=t))
            f(ctx, sig, u["buf"], k, t=t)
        ctx.state(u["kind"], u["key"], u["buf"], name)
    ctx.sample(ctx.case)
