"""C02: all configurations x keys x peers; the wire is compared byte for byte with the reference."""
import itertools

from .. import ref, sess
from ..env import S

BOUNDS = {
    "quick": "8 configurations x 2 time sources x (10x10 signing key pairs + 12x12 encryption key pairs, including keys with "
             "special leading/trailing bytes) x 3 peer combinations; all ordered pairs of configurations in succession; "
             "1100 handshakes in one process with the same and with ever new keys; 7 handshakes in a row on the same session "
             "objects; all sequences of <= 2 of 17 kinds of failed, cancelled or completed handshakes on one session object, then good ones, each with another "
             "peer; all pairs of 14 first and second writes",
    "thorough": "as quick plus all ordered triples of configurations, 6000 handshakes in one process, sequences of 3 failures, and 40 further key pairs "
                "per kind"
}


class Ticker:
    """Time source 5, 6, 7, ...; first time 1 on the first call, then 0, 1, 0, ..."""
    def __new__(cls):
        class _T(S.TimeKeeper):
            def __init__(self):
                self.n, self.f = 4, 0

            def get_first_time(self):
                self.f ^= 1
                return self.f

            def get_time(self):
                self.n += 1
                return self.n
        return _T()


def setup():
    sess.setup()


def units(tier):
    us = []
    for i in range(8):
        for tk in (False, True):
            us.append(dict(kind="keys", cfg=i, tk=tk))
        us.append(dict(kind="seq", cfg=i))
    us += [dict(kind="same", cfg=i) for i in range(8)]
    us += [dict(kind="first", cfg=i) for i in range(8)]
    us += [dict(kind="after", role=r, buf=b, wanted=w, sync=y, depth=2 if tier == "quick" else 3) for r in ("client", "server") for b in (False, True)
           for w in ((False, True) if r == "client" else (False,)) for y in (False, True)]
    us.append(dict(kind="long", n=1100 if tier == "quick" else 6000))
    us.append(dict(kind="long", n=1100 if tier == "quick" else 6000, fresh=True))
    return us


def wire(ctx, cmsgs, smsgs, cfg, csig, cenc, ssig, senc, app1, tk):
    """cmsgs, smsgs: list of (tuple of messages, is_last) written by each side."""
    key = ref.shared(cenc.sec, senc.pub)
    cm = [m for ms, _ in cmsgs for m in ms]
    sm = [m for ms, _ in smsgs for m in ms]
    ctx.check(len(cm) >= 2 and len(sm) >= 2, "handshake messages missing: client wrote %d, server %d", len(cm), len(sm))
    t1, t2 = int.from_bytes(cm[0][6:10], "little"), int.from_bytes(sm[0][2:6], "little")
    ctx.check({t1, t2} <= ({0, 1} if tk else {0}), "first times %d, %d", t1, t2)
    ctx.check(cm[0] == ref.m1(t1, cenc.pub, ssig.pub if cfg["wanted"] else None), "M1 is not as prescribed: %s", cm[0].hex())
    ctx.check(sm[0] == ref.m2(t2, senc.pub), "M2 is not as prescribed: %s", sm[0].hex())
    h1, h2 = ref.h(cm[0]), ref.h(sm[0])
    for who, pkt, ctr, mk, lab, sk in (("M3", sm[1], 2, ref.m3, ref.SIG1, ssig), ("M4", cm[1], 1, ref.m4, ref.SIG2, csig)):
        clear = ref.unseal(key, ctr, pkt)
        ctx.check(clear is not None, "%s is not sealed under the session key and its counter", who)
        t = int.from_bytes(clear[2:6], "little")
        ctx.check(tk or t == 0, "%s has time %d without a time source", who, t)
        ctx.check(clear == mk(t, sk.pub, ref.sign(lab, h1, h2, sk.sec)), "%s plaintext is not as prescribed: %s", who, clear.hex())
        ctx.check(pkt == ref.seal(key, ctr, clear), "%s packet is not as prescribed: %s", who, pkt.hex())
    ctx.check(not any(l for ms, l in smsgs[:1]) and not any(l for ms, l in cmsgs[:1]), "handshake write marked as last")
    if cfg["buf2"]:
        ctx.check(len(smsgs[0][0]) == 2, "buffered M2 is not sent together with M3")
    if cfg["buf4"]:
        ctx.check(len(cmsgs[0][0]) == 1 and len(cmsgs[1][0]) == 2, "buffered M4 is not sent together with the first app packet")


def one(ctx, cfg, mode, tk, csig=sess.A_SIG, cenc=sess.A_ENC, ssig=sess.B_SIG, senc=sess.B_ENC, app1=b"ping"):
    """One handshake plus one message each way."""
    wanted = ssig.pub if cfg["wanted"] else None
    ctk, stk = (Ticker(), Ticker()) if tk else (None, None)
    ctx.step(6)
    if mode == "pair":
        p = sess.Pair(cfg["buf2"], cfg["buf4"], wanted, csig, cenc, ssig, senc, ctk=ctk, stk=stk)
        st, r = p.handshake(first_msg=app1)
        ctx.check(st == "ok", "honest handshake does not finish: %s", st)
        ctx.check(r == [None, None], "honest handshake fails: %r", r)
        c, s, loop, cw, sw = p.c, p.s, p.loop, p.cch, p.sch
        if not cfg["buf4"]:
            r = p.call(c.app_channel.write(app1))
            ctx.check(r[0] == "ok", "write after handshake: %s", sess.show(r))
        r = p.call(s.app_channel.read())
        ctx.check(r == ("ok", app1), "first message: %s", sess.show(r))
        r = p.call(s.app_channel.write(b"pong"))
        ctx.check(r[0] == "ok", "server write: %s", sess.show(r))
        r = p.call(c.app_channel.read())
        ctx.check(r == ("ok", b"pong"), "answer: %s", sess.show(r))
        cout, sout = cw.out, sw.out
    elif mode == "client":
        rs = ref.RefServer(ssig, senc, first_time=1 if tk else 0, t3=3 if tk else 0)
        loop = sess.new_loop()
        ch = sess.RefPeerChannel.make(rs)
        sm = []
        rs_feed = rs.feed
        rs.feed = lambda m: (lambda r: (sm.extend(r), r)[1])(rs_feed(m))
        c, s = sess.client(ch, csig, cenc, cfg["buf4"], wanted, ctk), None
        r = loop.call(c.handshake())
        ctx.check(r[0] == "ok", "handshake with the reference server: %s", sess.show(r))
        r = loop.call(c.app_channel.write(app1))
        ctx.check(r[0] == "ok", "write to the reference server: %s", sess.show(r))
        ctx.check(not ch.errors, "the reference server refuses: %r", ch.errors)
        ctx.check(rs.got == [app1] and rs.client_sig_key == csig.pub, "the reference server got %r", rs.got)
        ch.inbox.append(rs.app(b"pong"))
        r = loop.call(c.app_channel.read())
        ctx.check(r == ("ok", b"pong"), "answer of the reference server: %s", sess.show(r))
        cout, sout = ch.out, [(tuple(sm), False)] if cfg["buf2"] else [((m,), False) for m in sm]
    else:
        rc = ref.RefClient(csig, cenc, first_time=1 if tk else 0, wanted=wanted, t4=3 if tk else 0)
        loop = sess.new_loop()
        ch = sess.RefPeerChannel.make(rc, inbox=rc.start())
        cm = [rc.m1]
        rc_feed = rc.feed
        rc.feed = lambda m: (lambda r: (cm.extend(r), r)[1])(rc_feed(m))
        s, c = sess.server(ch, ssig, senc, cfg["buf2"], stk), None
        r = loop.call(s.handshake())
        ctx.check(r[0] == "ok", "handshake with the reference client: %s (client says %r)", sess.show(r), ch.errors)
        ctx.check(not ch.errors, "the reference client refuses: %r", ch.errors)
        ctx.check(rc.server_sig_key == ssig.pub, "the reference client sees another key")
        ch.inbox.append(rc.app(app1))
        r = loop.call(s.app_channel.read())
        ctx.check(r == ("ok", app1), "message of the reference client: %s", sess.show(r))
        r = loop.call(s.app_channel.write(b"pong"))
        ctx.check(r[0] == "ok" and rc.got == [b"pong"] and not ch.errors, "answer to the reference client: %s %r", sess.show(r), ch.errors)
        cout = [((cm[0],), False)] + ([((cm[1], b""), False)] if cfg["buf4"] else [((cm[1],), False)])
        sout = ch.out
    wire(ctx, cout, sout, cfg, csig, cenc, ssig, senc, app1, tk)
    key = ref.shared(cenc.sec, senc.pub)
    if c is not None:
        ctx.check(bytes(c.m3.ServerSigKey) == ssig.pub, "client reports another server key")
        ctx.check(bytes(c.session_key) == key, "client's session key is wrong")
    if s is not None:
        ctx.check(bytes(s.client_sig_key) == csig.pub, "server reports another client key")
        ctx.check(bytes(s.session_key) == key, "server's session key is wrong")
    loop.drop()
    ctx.outcome(mode + " completed")


def same(ctx, cfg):
    """The same two session objects shake hands again and again, with old or new encryption keys."""
    for tk in (False, True):
        for pat in itertools.product((False, True), repeat=3):
            wanted = sess.B_SIG.pub if cfg["wanted"] else None
            ctx.begin(dict(cfg=cfg, same=True, tk=tk, newkeys=pat))
            p = sess.Pair(cfg["buf2"], cfg["buf4"], wanted, ctk=Ticker() if tk else None, stk=Ticker() if tk else None)
            ce, se = sess.A_ENC, sess.B_ENC
            for rnd, new in enumerate((False,) + pat * 2):
                if new:
                    ce, se = ref.named_enc("c%d" % rnd), ref.named_enc("s%d" % rnd)
                    p.c.enc_keypair, p.s.enc_keypair = sess.kp(ce), sess.kp(se)
                del p.cch.out[:], p.sch.out[:]
                st, r = p.handshake(first_msg=b"first")
                ctx.step(4)
                ctx.check(st == "ok" and r == [None, None], "handshake %d on the same sessions: %s %r", rnd, st, r)
                if not cfg["buf4"]:
                    r = p.call(p.c.app_channel.write(b"first"))
                    ctx.check(r[0] == "ok", "write: %s", sess.show(r))
                r = p.call(p.s.app_channel.read())
                ctx.check(r == ("ok", b"first"), "message after handshake %d: %s", rnd, sess.show(r))
                r = p.call(p.s.app_channel.write(b"x", b"y"))
                r = [p.call(p.c.app_channel.read()), p.call(p.c.app_channel.read())]
                ctx.check(r == [("ok", b"x"), ("ok", b"y")], "answer after handshake %d: %r", rnd, r)
                wire(ctx, p.cch.out, p.sch.out, cfg, sess.A_SIG, ce, sess.B_SIG, se, b"first", tk)
                key = ref.shared(ce.sec, se.pub)
                ctx.check(bytes(p.c.session_key) == key == bytes(p.s.session_key), "session keys after handshake %d", rnd)
                ctx.check(bytes(p.c.m3.ServerSigKey) == sess.B_SIG.pub and bytes(p.s.client_sig_key) == sess.A_SIG.pub, "reported keys")
            p.loop.drop()
            ctx.state("same", cfg, tk, pat)
    ctx.outcome("same objects")


TAMPER = {"empty": lambda m: b"", "junk": lambda m: bytes([0x2a]) + m[1:], "cut": lambda m: m[:-1], "flip": lambda m: sess.flip(m, len(m) * 8 - 1)}


def faults(role):
    """What can go wrong in one handshake: (which incoming message, what)."""
    fs = [(i, k) for i in (0, 1) for k in ("hang", "eof", "empty", "junk", "cut")] + [(1, "flip"), (1, "sig"), (0, "loworder"), ("w0", "eof"), (None, "wrong"), (None, "ok")]
    return fs + ([(0, "nosuch"), ("w1", "eof")] if role == "client" else [(0, "query")])


class Impostor(ref.RefServer):
    """A server that does not care which server the client named."""

    def feed(self, m):
        if self.state != "m1":
            return super().feed(m)
        p = ref.p_m1(m)
        self.key, mm2 = ref.shared(self.enc.sec, p["ckey"]), ref.m2(0, self.enc.pub)
        self.state, self.h1, self.h2 = "m4", ref.h(m), ref.h(mm2)
        return [mm2, self._seal(ref.m3(0, self.sig.pub, ref.sign(ref.SIG1, self.h1, self.h2, self.sig.sec)))]


def after(ctx, u):
    """Every sequence of failed (and completed) handshakes on one session object, then a good one, each time with another peer."""
    role, buf, sync = u["role"], u["buf"], u["sync"]
    mine_s, mine_e = (sess.A_SIG, sess.A_ENC) if role == "client" else (sess.B_SIG, sess.B_ENC)
    for n in range(1, u["depth"] + 1):
        for seq in itertools.product(faults(role), repeat=n):
            ctx.begin(dict(u, before=seq))
            loop = sess.new_loop()
            st = dict(i=0, w=0)

            def incoming(msgs):
                r = []
                for m in msgs:
                    i, st["i"] = st["i"], st["i"] + 1
                    where, what = st["fault"]
                    if where == i and what in TAMPER:
                        m = TAMPER[what](m)
                    elif where == i and what == "loworder":
                        m = ref.m2(0, bytes(32)) if role == "client" else ref.m1(0, bytes(32))
                    elif where == i and what == "nosuch":
                        m = ref.m2(0, bytes(32), nosuch=True, last=True)
                    elif where == i and what == "query":
                        m = ref.a1()
                    elif where == i and what == "sig":
                        m = ref.seal(st["peer"].key, 2 if role == "client" else 1, (ref.m3 if role == "client" else ref.m4)(0, st["peer"].sig.pub, bytes(64)))
                    elif where == i and what in ("hang", "eof") or st.get("gone"):
                        st["gone"] = True
                        continue
                    r.append(m)
                return r

            def feed(msgs):
                r = []
                for m in msgs:
                    try:
                        r += st["peer"].feed(m)
                    except ValueError as e:
                        st["errors"].append(str(e))
                return incoming(r)

            def hook(kind, i):
                if kind == "write":
                    if st["fault"][0] == "w%d" % st["w"]:
                        raise S.ComException("broken")
                    st["w"] += 1
            ch = sess.ScriptChannel(feed=feed, hook=hook)
            s = sess.client(ch, buf4=buf) if role == "client" else sess.server(ch, buf2=buf)
            before = None
            for k, fault in enumerate(seq + ((None, "impostor" if u["wanted"] else "ok"), (None, "ok"))):
                sig, enc = ref.named_sig("peer%d" % (0 if u["wanted"] else k)), ref.named_enc("peer%d" % k)
                wanted = sig.pub if u["wanted"] or fault[1] == "wrong" else None
                if fault[1] == "wrong":
                    wanted = sess.flip(wanted, 3)
                peer = ref.RefServer(sig, enc) if role == "client" else ref.RefClient(sig, enc, wanted=wanted)
                if fault[1] == "impostor":
                    peer = Impostor(ref.named_sig("impostor"), enc)
                st.clear()
                st.update(i=0, w=0, fault=fault, peer=peer, errors=[])
                ch.inbox.clear()
                ch.mode = "eof" if fault[1] == "eof" else "wait"
                if role == "client":
                    if wanted != before:        # otherwise the session has to remember it
                        s.wanted_server_sig_key = wanted or b""
                    before = wanted
                else:
                    ch.inbox.extend(incoming(peer.start()))
                r = sess.call_sync(s.handshake_sync) if sync else loop.call(s.handshake())
                ctx.step(2)
                if fault == ("w1", "eof") and buf:
                    ctx.check(r[0] == "ok", "handshake with buffered M4: %s", sess.show(r))
                    continue
                if fault[1] == "hang" and fault[0] is not None:
                    ctx.check(r[0] == "pending", "handshake with a silent peer: %s", sess.show(r))
                    continue
                if fault[1] not in ("ok", "query"):
                    ctx.check(sess.is_com(r), "handshake with fault %r after %r: %s", fault, seq[:k], sess.show(r))
                    ctx.check(fault[1] != "impostor" or st["w"] == 1, "the client goes on with an impostor")
                    continue
                ctx.check(r[0] == "ok", "%r after %r: %s", fault, seq[:k], sess.show(r))
                if fault[1] == "query":
                    continue
                for m, how in ((b"one",), False), ((b"two", b"three"), False):
                    r = sess.call_sync(s.app_channel.write_sync, *m) if sync else loop.call(s.app_channel.write(*m))
                    ctx.check(r[0] == "ok", "write after %r: %s", seq[:k], sess.show(r))
                ctx.check(peer.got == [b"one", b"two", b"three"] and not st["errors"], "after %r the peer got %r %r", seq[:k], peer.got, st["errors"])
                ch.inbox.append(peer.app(b"back"))
                r = sess.call_sync(s.app_channel.read_sync) if sync else loop.call(s.app_channel.read())
                ctx.check(r == ("ok", b"back"), "read after %r: %s", seq[:k], sess.show(r))
                ctx.check(bytes(s.session_key) == ref.shared(mine_e.sec, enc.pub), "session key after %r", seq[:k])
                ctx.check(bytes(s.m3.ServerSigKey if role == "client" else s.client_sig_key) == sig.pub, "reported key after %r", seq[:k])
                ctx.check(role != "client" or peer.m1p["server"] == wanted, "server key named after %r", seq[:k])
                ctx.check((peer.client_sig_key if role == "client" else peer.server_sig_key) == mine_s.pub, "key shown to the peer after %r", seq[:k])
            ctx.state("after", u, seq)
            loop.drop()
    ctx.outcome("after failures, " + role)


def first(ctx, cfg):
    """What the first (and second) write is must not matter: empty, several, large, last."""
    writes = [((b"",), False), ((b"",), True), ((b"one",), True), ((b"", b""), False), ((b"a", b"b", b"c"), True), ((b"", b"x"), False),
              ((b"x", b""), True), ((b"L" * 65535,), False), ((b"L" * 65536,), False), ((b"L" * 65536, b"", b"z"), True),
              (tuple(bytes([i % 256]) for i in range(300)), False), ((bytes(3),), False), ((b"\4\0" + bytes(100),), False),
              ((bytearray(b"array"),), False)]
    for w1, w2 in itertools.product(range(len(writes)), repeat=2):
        for mode in ("pair", "client"):
            ctx.begin(dict(cfg=cfg, mode=mode, first=w1, second=w2))
            if mode == "pair":
                p = sess.Pair(cfg["buf2"], cfg["buf4"], sess.B_SIG.pub if cfg["wanted"] else None)
                c, loop, out = p.c, p.loop, p.cch.out
                hs = loop.create_task(p.s.handshake())
            else:
                rs = ref.RefServer(sess.B_SIG, sess.B_ENC)
                loop = sess.new_loop()
                ch = sess.RefPeerChannel.make(rs)
                c, out = sess.client(ch, buf4=cfg["buf4"], wanted=sess.B_SIG.pub if cfg["wanted"] else None), ch.out
            r = loop.call(c.handshake())
            ctx.check(r[0] == "ok", "handshake: %s", sess.show(r))
            n0 = len(out)
            ctx.check(n0 == (1 if cfg["buf4"] else 2), "the client has written %d times in the handshake", n0)
            want = []
            for k, w in enumerate((w1, w2)):
                msgs, last = writes[w]
                r = loop.call(c.app_channel.write(*msgs, is_last=last))
                ctx.check(r[0] == "ok", "write %d after the handshake: %s", k, sess.show(r))
                want += [bytes(m) for m in msgs]
                multi = len(msgs) > 1 and all(len(m) <= 65535 for m in msgs)
                got, lm = out[n0 + k]
                ctx.check(len(out) == n0 + k + 1 and lm == last, "write %d makes %d transport writes", k, len(out) - n0)
                ctx.check(len(got) == (1 if multi else len(msgs)) + (1 if k == 0 and cfg["buf4"] else 0),
                          "transport write %d has %d messages", k, len(got))
            if mode == "pair":
                for k, m in enumerate(want):
                    r = loop.call(p.s.app_channel.read() if hs.done() else read_after(hs, p.s))
                    ctx.check(r == ("ok", m), "message %d: %s", k, sess.show(r))
                ctx.check(hs.done() and hs.exception() is None, "the server's handshake does not complete")
            else:
                ctx.check(not ch.errors and rs.got == want, "the reference server got %r %r", rs.got, ch.errors)
            ctx.step(4)
            ctx.state("first", cfg, mode, w1, w2)
            loop.drop()
    ctx.outcome("first writes")


async def read_after(hs, s):
    await hs
    return await s.app_channel.read()


MODES = ("pair", "client", "server")


def run_unit(u, ctx):
    cfgs = sess.configs()
    if u["kind"] == "keys":
        cfg = cfgs[u["cfg"]]
        extra = 40 if ctx.thorough else 0
        sigs = [sess.A_SIG, sess.B_SIG] + sess.special()["sig"]
        encs = [sess.A_ENC, sess.B_ENC] + sess.special()["enc"]
        combos = [dict(csig=a, ssig=b) for a, b in itertools.product(sigs, repeat=2)]
        combos += [dict(cenc=a, senc=b) for a, b in itertools.product(encs, repeat=2)]
        combos += [dict(csig=ref.named_sig("x%d" % i), ssig=ref.named_sig("y%d" % i), cenc=ref.named_enc("x%d" % i),
                        senc=ref.named_enc("y%d" % i)) for i in range(extra)]
        for k in combos:
            for mode in MODES:
                ctx.begin(dict(cfg=cfg, mode=mode, tk=u["tk"], keys={n: v.pub for n, v in k.items()}))
                one(ctx, cfg, mode, u["tk"], **k)
                ctx.state(u, mode, sorted(k.items()))
        ctx.sample(ctx.case)
    elif u["kind"] == "seq":
        tails = [(j,) for j in range(8)] + ([(j, k) for j in range(8) for k in range(8)] if ctx.thorough else [])
        for tail in tails:
            for mode in MODES:
                for n, i in enumerate((u["cfg"],) + tail):
                    ctx.begin(dict(seq=[u["cfg"]] + list(tail), step=n, mode=mode))
                    one(ctx, cfgs[i], mode, n % 2 == 1, cenc=sess.A_ENC if n == 0 else sess.A2_ENC,
                        ssig=sess.B_SIG if n == 0 else sess.C_SIG)
                ctx.state(u, tail, mode)
    elif u["kind"] == "first":
        first(ctx, cfgs[u["cfg"]])
    elif u["kind"] == "after":
        after(ctx, u)
    elif u["kind"] == "same":
        same(ctx, cfgs[u["cfg"]])
    else:
        for n in range(u["n"]):
            ctx.begin(dict(handshake=n))
            keys = {}
            if u.get("fresh"):
                keys = dict(csig=ref.named_sig("x%d" % n), ssig=ref.named_sig("y%d" % n), cenc=ref.named_enc("x%d" % n),
                            senc=ref.named_enc("y%d" % n))
            one(ctx, cfgs[n % 8], MODES[n % 3], False, **keys)
        ctx.state("long", u["n"], u.get("fresh"))
