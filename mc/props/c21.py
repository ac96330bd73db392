"""C21: keys, nonces, settings and messages that cannot be used are refused, and the refusal does no harm."""
import itertools

from .. import pk, ref, sess
from ..env import S
from ..streams import FakeSocket, StreamEnd, frames
from .c17 import NAMES, fresh, libs

BOUNDS = {
    "quick": "3 back ends and the library object: every key, seed and nonce parameter with all sizes 0..130 and 3 contents; encrypted channels with key and session "
             "nonce sizes 0..70; sessions of both roles x buffering x API style x 6 settings x sizes 0..70, each corrected and handshaken afterwards; every "
             "fixed-size packet field with sizes 0..130; on sessions of both roles with M4 or M2 buffered or not, all histories of <= 3 writes of which some are "
             "refused (7 kinds of values at every place of batches of 1..3), on message, socket and stream transports and the encrypted channel by itself",
    "thorough": "as quick with histories of <= 4 writes and field sizes 0..600",
}


class Thing:
    def __repr__(self):
        return "Thing()"


BAD = [None, "", "text", 3, -1, 1.5, Thing()]


def setup():
    sess.setup()


def units(tier):
    us = [dict(kind="lib", b=b) for b in range(3)]
    us += [dict(kind="facade", b=b) for b in range(3)]
    us += [dict(kind="enc", sync=s) for s in (False, True)]
    us += [dict(kind="session", role=r, buf=b, what=w, sync=s) for r in ("client", "server") for b in (False, True) for s in (False, True)
           for w in ("none", "wanted", "encpub", "encsec", "sigpub", "sigsec") if not (r == "server" and w == "wanted")]
    us += [dict(kind="fields", pkt=k) for k in pk.KINDS]
    us += [dict(kind="write", role=r, buf=b, sync=s, depth=3 if tier == "quick" else 4) for r in ("client", "server") for b in (False, True) for s in (False, True)]
    us += [dict(kind="encwrite", role=r, sync=s, depth=3 if tier == "quick" else 4) for r in ("client", "server") for s in (False, True)]
    us += [dict(kind="wire", t=t, depth=3 if tier == "quick" else 4) for t in ("sock", "stream")]
    return us


def wrong(right, hi=130):
    """Values of every other size: cut, extended, zeros."""
    n = len(right)
    for k in range(hi + 1):
        if k == n:
            continue
        yield (right * (k // n + 1))[:k]
        yield bytes(k)
        yield b"\xff" * k


def refused(ctx, what, f, *a):
    ctx.step()
    try:
        r = f(*a)
    except Exception as e:
        return e
    ctx.fail("%s is not refused: %r" % (what, r))


def run_lib(ctx, u):
    lib(ctx, libs()[u["b"]], u)
    ctx.outcome("back end " + NAMES[u["b"]])


def lib(ctx, L, u):
    A, E, B = sess.A_SIG, sess.A_ENC, sess.B_ENC
    k, n = ref.shared(E.sec, B.pub), bytes(range(24))
    sm, c = bytes(L.crypto_sign(b"hello", A.sec)), bytes(L.crypto_box_afternm(b"hello", n, k))
    cases = [("signing seed", A.sec[:32], lambda x: L.crypto_sign_keypair_not_random(x)),
             ("secret key for a public key", E.sec, lambda x: L.crypto_box_keypair_not_random(x)),
             ("signing key", A.sec, lambda x: L.crypto_sign(b"hello", x)),
             ("key of a signature", A.pub, lambda x: L.crypto_sign_open(sm, x)),
             ("public key of an agreement", B.pub, lambda x: L.crypto_box_beforenm(x, E.sec)),
             ("secret key of an agreement", E.sec, lambda x: L.crypto_box_beforenm(B.pub, x)),
             ("nonce for encryption", n, lambda x: L.crypto_box_afternm(b"hello", x, k)),
             ("key for encryption", k, lambda x: L.crypto_box_afternm(b"hello", n, x)),
             ("nonce for decryption", n, lambda x: L.crypto_box_open_afternm(c, x, k)),
             ("key for decryption", k, lambda x: L.crypto_box_open_afternm(c, n, x))]
    for name, right, f in cases:
        f(right)
        for v in wrong(right):
            ctx.begin(dict(u, what=name, value=v))
            refused(ctx, "%s of %d bytes" % (name, len(v)), f, v)
            ctx.state(name, v)


def run_facade(ctx, u):
    ctx.begin(u)

    def case(c):
        sl = S.slm.SaltLib(list(S.slm.LibType)[u["b"] + 1])
        A, E, B = sess.A_SIG, sess.A_ENC, sess.B_ENC
        k, n = ref.shared(E.sec, B.pub), bytes(range(24))
        sm, ct = bytes(sl.sign(b"hello", A.sec)), bytes(sl.encrypt(k, n, b"hello"))
        for name, right, f in [("signing key", A.sec, lambda x: sl.sign(b"hello", x)), ("key of a signature", A.pub, lambda x: sl.sign_open(sm, x)),
                               ("own key of an agreement", E.sec, lambda x: sl.compute_shared_key(x, B.pub)),
                               ("peer key of an agreement", B.pub, lambda x: sl.compute_shared_key(E.sec, x)),
                               ("key for encryption", k, lambda x: sl.encrypt(x, n, b"hello")), ("nonce for encryption", n, lambda x: sl.encrypt(k, x, b"hello")),
                               ("key for decryption", k, lambda x: sl.decrypt(x, n, ct)), ("nonce for decryption", n, lambda x: sl.decrypt(k, x, ct)),
                               ("secret key for a public key", E.sec, sl.create_enc_keys_from_sec)]:
            f(right)
            for v in wrong(right):
                refused(c, "%s of %d bytes" % (name, len(v)), f, v)
        for v in wrong(A.sec[:32], 31):
            refused(c, "signing seed of %d bytes" % len(v), sl.create_sig_keys_from_sec, v)
    fresh(ctx, case)
    ctx.state("facade", u["b"])
    ctx.outcome("library object on " + NAMES[u["b"]])


def call(loop, sync, obj, name, *a, **k):
    if sync:
        return sess.call_sync(getattr(obj, name + "_sync"), *a, **k)
    return loop.call(getattr(obj, name)(*a, **k))


def run_enc(ctx, u):
    key, nonce = ref.shared(sess.A_ENC.sec, sess.B_ENC.pub), b"\1\2\3\4\5\6\7\x08"
    for role in (S.Role.CLIENT, S.Role.SERVER):
        for v in wrong(key, 70):
            ctx.begin(dict(u, role=str(role), key=v))
            e = refused(ctx, "channel key of %d bytes" % len(v), S.EncChannel, sess.ScriptChannel(), v, role)
            ctx.check(isinstance(e, ValueError), "channel key of %d bytes: %r", len(v), e)
            ctx.state(str(role), "key", v)
        for v in wrong(nonce, 70):
            ctx.begin(dict(u, role=str(role), session_nonce=v))
            loop = sess.new_loop()
            ch = sess.ScriptChannel([ref.seal(key, 2 if role == S.Role.CLIENT else 1, b"hello")])
            try:
                e = S.EncChannel(ch, key, role, session_nonce=v)
            except Exception:
                e = None
            if e is not None:
                for op in (("write", b"hello"), ("write", b"a", b"b"), ("read",)):
                    r = call(loop, u["sync"], e, *op)
                    ctx.check(r[0] == "exc", "session nonce of %d bytes: %s gives %s", len(v), op[0], sess.show(r))
                ctx.check(not ch.out, "session nonce of %d bytes: sent %r", len(v), ch.out)
            ctx.step(3)
            ctx.state(str(role), "nonce", v)
            loop.drop()
    ctx.outcome("encrypted channels")


def run_session(ctx, u):
    role, buf, what, sync = u["role"], u["buf"], u["what"], u["sync"]
    own_sig, own_enc = (sess.A_SIG, sess.A_ENC) if role == "client" else (sess.B_SIG, sess.B_ENC)
    right = {"none": b"\1", "wanted": sess.B_SIG.pub, "encpub": own_enc.pub, "encsec": own_enc.sec, "sigpub": own_sig.pub, "sigsec": own_sig.sec}[what]
    values = [None] if what == "none" else [v for v in wrong(right, 70) if v or what != "wanted"]
    for v in values:
        ctx.begin(dict(u, value=v))
        loop = sess.new_loop()
        peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
        ch = sess.RefPeerChannel.make(peer, inbox=() if role == "client" else peer.start())
        s = sess.client(ch, buf4=buf) if role == "client" else sess.server(ch, buf2=buf)
        if what == "none":
            s.enc_keypair = None
        elif what == "wanted":
            s.wanted_server_sig_key = v
        elif what.startswith("enc"):
            s.enc_keypair = S.KeyPair(**dict(dict(sec=own_enc.sec, pub=own_enc.pub), **{what[3:]: v}))
        else:
            s.sig_keypair = S.KeyPair(**dict(dict(sec=own_sig.sec, pub=own_sig.pub), **{what[3:]: v}))
        r = call(loop, sync, s, "handshake")
        ctx.step(2)
        ctx.check(r[0] == "exc", "handshake with a wrong %s of %s bytes: %s", what, v if v is None else len(v), sess.show(r))
        if what == "none":
            ctx.check(isinstance(r[1], ValueError), "handshake without an ephemeral key pair: %s", sess.show(r))
            ctx.check(ch.ops == 0, "handshake without an ephemeral key pair: %d transport operations", ch.ops)
        first = ref.m1(0, own_enc.pub) if role == "client" else ref.m2(0, own_enc.pub)
        ctx.check(ch.sent in ([], [first] if what in ("encsec", "sigpub", "sigsec") else []), "handshake with a wrong %s sent %r", what, ch.sent)
        # the same session object with the setting corrected
        s.enc_keypair, s.sig_keypair = sess.kp(own_enc), sess.kp(own_sig)
        if role == "client":
            s.wanted_server_sig_key = sess.B_SIG.pub if what == "wanted" else b""
        if what in ("none", "wanted", "encpub") and role == "client" or what == "none":
            pass                                # nothing has left yet: the same connection will do
        else:
            peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
            ch.inbox.clear()
            ch.inbox.extend(() if role == "client" else peer.start())
            ch.feed = lambda ms: [x for m in ms for x in peer.feed(m)]
        r = call(loop, sync, s, "handshake")
        ctx.check(r[0] == "ok", "handshake with the %s corrected: %s", what, sess.show(r))
        r = call(loop, sync, s.app_channel, "write", b"hello")
        ctx.check(r[0] == "ok" and peer.got == [b"hello"] and not ch.errors, "write after the corrected handshake: %s %r %r", sess.show(r), peer.got, ch.errors)
        ctx.state(role, buf, what, v, sync)
        loop.drop()
    ctx.outcome("%s with a wrong %s" % (role, what))


FIELDS = {"M1": ["ClientEncKey", "ServerSigKey"], "M2": ["ServerEncKey"], "M3": ["ServerSigKey", "Signature1"], "M4": ["ClientSigKey", "Signature2"],
          "ENC": [], "APP": [], "MULTI": [], "A1": [], "A2": ["P1", "P2"]}


def run_fields(ctx, u):
    from .c08 import SMALL
    kind, hi = u["pkt"], 600 if ctx.thorough else 130
    for f in SMALL[kind]:
        raw = pk.refbytes(kind, f)
        for name in FIELDS[kind]:
            for how in ("built", "parsed"):
                o = pk.build(kind, f) if how == "built" else pk.cls(kind)(src_buf=raw)
                if kind == "M1" and name == "ServerSigKey" and f["server"] is None:
                    for v in [bytes(32), sess.B_SIG.pub, b"", b"\1", bytes(33)]:
                        ctx.begin(dict(u, field=name, how=how, value=v, announced=False))
                        refused(ctx, "a server key that is not announced", setattr, o, name, v)
                        ctx.check(bytes(o) == raw, "the refused server key changed the packet: %s", bytes(o).hex())
                        ctx.state(kind, name, how, v)
                    continue
                for i in range(len(f["prots"]) if kind == "A2" else 1):
                    size = 10 if kind == "A2" else len(getattr(o, name))
                    for v in wrong(b"0123456789" if kind == "A2" else bytes(range(1, size + 1)), hi):
                        ctx.begin(dict(u, field=name, how=how, value=v, index=i))
                        if kind == "A2":
                            refused(ctx, "%s of %d bytes" % (name, len(v)), lambda: setattr(o.Prot[i], name, S.util.cbytes(v)))
                        else:
                            refused(ctx, "%s of %d bytes" % (name, len(v)), setattr, o, name, v)
                        ctx.check(bytes(o) == raw, "the refused value changed the packet: %s", bytes(o).hex())
                        ctx.state(kind, name, how, v, i)
    ctx.outcome("fields of " + kind)


def batches():
    """(arguments, is_last): good batches and batches with one unusable value."""
    good = [((b"one",), False), ((b"", b"two"), False), ((b"x" * 70, b"y", b"z"), True), ((b"end",), True)]
    bad = []
    for v in BAD:
        for n in (1, 2, 3):
            for at in range(n):
                bad.append((tuple(v if i == at else b"g%d" % i for i in range(n)), n == 2))
    return good, bad


def histories(depth):
    """All shapes of histories (g = good write, b = refused write) with every refused batch at some place."""
    good, bad = batches()
    for n in range(1, depth + 1):
        for shape in itertools.product("gb", repeat=n):
            if "b" not in shape:
                continue
            for j in range(len(bad)):
                yield [good[(i + j) % len(good)] if k == "g" else bad[(j + 5 * i) % len(bad)] for i, k in enumerate(shape)]


def run_write(ctx, u):
    role, buf, sync = u["role"], u["buf"], u["sync"]
    for h in histories(u["depth"]):
        ctx.begin(dict(u, writes=[[repr(a), l] for a, l in h]))
        R = sess.RealClient(buf4=buf) if role == "client" else sess.RealServer(buf2=buf)
        ctx.check(R.res[0] == "ok", "handshake: %s", sess.show(R.res))
        want = []
        for args, last in h + [((b"final", b"batch"), False)]:
            usable, n = all(isinstance(a, bytes) for a in args), len(R.ch.out)
            r = call(R.loop, sync, R.app, "write", *args, is_last=last)
            ctx.step()
            if usable:
                want += args
                ctx.check(r[0] == "ok" and R.ref.got == want and not R.ch.errors, "write %r: %s, the peer has %r %r", args, sess.show(r), R.ref.got, R.ch.errors)
                ctx.check(bool(R.ref.last) == last, "write %r: last flag", args)
            else:
                ctx.check(r[0] == "exc", "write %r: %s", args, sess.show(r))
                ctx.check(len(R.ch.out) == n, "the refused write %r sent %r", args, R.ch.out[n:])
            R.ch.inbox.append(R.ref.app(b"echo"))
            if not (role == "client" and buf and not want):
                r = call(R.loop, sync, R.app, "read")
                ctx.check(r[0] == "ok" and bytes(r[1]) == b"echo", "read after write %r: %s", args, sess.show(r))
        ctx.state(role, buf, sync, [[repr(a)[:40], l] for a, l in h])
        R.loop.drop()
    ctx.outcome("refused writes, " + role)


def run_encwrite(ctx, u):
    """The encrypted channel by itself: a refused write uses up no nonce."""
    key, role = ref.shared(sess.A_ENC.sec, sess.B_ENC.pub), S.Role.CLIENT if u["role"] == "client" else S.Role.SERVER
    for h in histories(u["depth"]):
        ctx.begin(dict(u, writes=[[repr(a), l] for a, l in h]))
        loop = sess.new_loop()
        ch = sess.ScriptChannel()
        e = S.EncChannel(ch, key, role)
        n = 1 if role == S.Role.CLIENT else 2
        want = []
        for args, last in h + [((b"final", b"batch"), False)]:
            usable = all(isinstance(a, bytes) for a in args)
            r = call(loop, u["sync"], e, "write", *args, is_last=last)
            ctx.step()
            if usable:
                for i, a in enumerate(args):
                    want.append(ref.seal(key, n, a, last and i == len(args) - 1))
                    n += 2
            ctx.check((r[0] == "ok") == usable, "write %r on the encrypted channel: %s", args, sess.show(r))
            ctx.check(list(ch.sent) == want, "write %r on the encrypted channel: sent %r instead of %r", args, ch.sent[-3:], want[-3:])
        ctx.state(u["role"], u["sync"], [[repr(a)[:40], l] for a, l in h])
        loop.drop()
    ctx.outcome("refused writes, encrypted channel")


def run_wire(ctx, u):
    for h in histories(u["depth"]):
        ctx.begin(dict(u, writes=[[repr(a), l] for a, l in h]))
        loop = sess.new_loop()
        if u["t"] == "sock":
            end = FakeSocket()
            ch = S.SocketChannel(end)
        else:
            end = StreamEnd(loop)
            ch = end.channel()
        want = []
        for args, last in h + [((b"final", b"batch"), False)]:
            usable = all(isinstance(a, bytes) for a in args)
            r = loop.call(ch.write(*args, is_last=last))
            ctx.step()
            got, rest = frames(bytes(end.sent))
            ctx.check(not rest, "after write %r the wire ends inside a message: %r", args, rest)
            if usable:
                want += args
                ctx.check(r[0] == "ok" and got == want, "write %r: %s, on the wire %r", args, sess.show(r), got[-5:])
            else:
                ctx.check(r[0] == "exc", "write %r: %s", args, sess.show(r))
                ok = list(itertools.takewhile(lambda a: isinstance(a, bytes), args))
                ctx.check(got[:len(want)] == want and got[len(want):] in [ok[:i] for i in range(len(ok) + 1)], "the refused write %r put %r on the wire", args, got[len(want):])
                want = got
        ctx.state(u["t"], [[repr(a)[:40], l] for a, l in h])
        loop.drop()
    ctx.outcome("refused writes, " + u["t"])


def run_unit(u, ctx):
    {"lib": run_lib, "facade": run_facade, "enc": run_enc, "session": run_session, "fields": run_fields, "write": run_write, "encwrite": run_encwrite, "wire": run_wire}[u["kind"]](ctx, u)
