"""C06: whatever a session writes apart from M1/M2 (or A1/A2) is an encrypted packet under its session key."""
import itertools

from .. import ref, sess
from ..env import S

MARK = [b"PAYLOAD-%d-" % i + bytes(range(200, 220)) for i in range(8)]
SHAPES = {
    "one": (MARK[0],), "empty": (b"",), "two": (MARK[0], MARK[1]), "empties": (b"", b""), "many": tuple(MARK[:6]),
    "max": (MARK[0] + bytes(65535 - len(MARK[0])),), "max2": (MARK[0] + bytes(65535 - len(MARK[0])), MARK[1]),
    "big": (MARK[0] + bytes(70000),), "big2": (MARK[0], MARK[1] + bytes(65536), MARK[2]), "tiny": (b"\x05",), "hdr": (ref.app(0, MARK[3]),),
    "enc": (bytes([6, 0]) + MARK[4],),
}
BOUNDS = {
    "quick": "8 configurations x both roles x all ordered pairs of 12 write shapes x last mark on each; handshake failure at every message "
             "position with every bit flip of the arriving message; transport fault at every operation; "
             "address queries; all histories of 1-2 (3 for three configurations) of 13 operations incl. bad packets and failing transports; sessions of 4000 packets; 690 message sizes",
    "thorough": "ordered triples of write shapes; bit flips combined with a following application write attempt in every configuration"
}


def setup():
    sess.setup()


def units(tier):
    us = []
    for i in range(8):
        for role in ("client", "server"):
            us.append(dict(kind="writes", cfg=i, role=role))
            us.append(dict(kind="fail", cfg=i, role=role))
            us.append(dict(kind="hist", cfg=i, role=role))
            us.append(dict(kind="sizes", cfg=i, role=role))
        us.append(dict(kind="long", cfg=i, role="client" if i % 2 else "server"))
    return us


def scan(ctx, role, cfg, ch, csig=sess.A_SIG, ssig=sess.B_SIG):
    """Every message in ch.sent against the property."""
    key = ref.shared(sess.A_ENC.sec, sess.B_ENC.pub)
    own = csig if role == "client" else ssig
    secrets = [("payload", m) for m in MARK] + [("signing key", csig.pub), ("signing key", ssig.pub), ("secret key", csig.sec[:32]),
               ("secret key", ssig.sec[:32]), ("secret key", sess.A_ENC.sec), ("secret key", sess.B_ENC.sec), ("session key", key)]
    enc = 0
    for n, m in enumerate(ch.sent):
        if n == 0:
            p = (ref.p_m1 if role == "client" else ref.p_m2)(m)
            ok = p is not None or (role == "server" and ref.p_a2(m) is not None)
            ctx.check(ok, "first message of the %s is neither M1/M2 nor an address message: %s", role, m.hex()[:80])
            body = m
            if role == "client" and cfg["wanted"] and p["server"] == ssig.pub:
                body = m[:42]
        else:
            c, clear = ref.find_counter(key, m, 40)
            ctx.check(clear is not None, "message %d of the %s is not an encrypted packet under the session key: %s", n, role,
                      m.hex()[:80])
            enc += 1
            body = m
            if clear is not None and len(clear) == 102 and clear[0] in (3, 4):
                for k in range(0, 64, 16):
                    secrets.append(("signature", clear[38 + k:54 + k]))
        for what, sec in secrets:
            ctx.check(sec not in body, "%s in clear in message %d of the %s", what, n, role)
    return enc


def open_session(cfg, role, hook=None):
    if role == "client":
        x = sess.RealClient(cfg["buf4"], sess.B_SIG.pub if cfg["wanted"] else None)
    else:
        x = sess.RealServer(cfg["buf2"], wanted=sess.B_SIG.pub if cfg["wanted"] else None)
    return x


HOPS = ["w", "wb", "wl", "wbig", "rd", "rdm", "rdbad", "rdjunk", "rdtime", "failw", "failwb", "failr", "cancel"]


def hist(ctx, cfg, role, seq):
    """Writes, reads of good and bad packets and transport failures on an established session, then a look at everything sent."""
    x = open_session(cfg, role)
    ctx.check(x.res[0] == "ok", "handshake: %s", sess.show(x.res))
    ch = x.ch
    ch.feed = None
    ctr = 4 if role == "client" else 3

    def fault(kind, i):
        if st["f"] == kind:
            raise S.ComException("injected")
    st = dict(f=None)
    ch.hook = fault
    real, lost = ch._write, []

    def write(msg, args, is_last):
        # what is handed to a failing transport counts as sent
        try:
            real(msg, args, is_last)
        except S.ComException:
            lost.append((tuple(bytes(m) for m in (msg,) + args), bool(is_last)))
            ch.out.append(lost[-1])
            raise
    ch._write = write
    for i, op in enumerate(seq):
        ctx.step()
        st["f"] = "write" if op.startswith("failw") else "read" if op == "failr" else None
        if op in ("w", "failw"):
            x.call(x.app.write(MARK[i]))
        elif op in ("wb", "failwb"):
            x.call(x.app.write(MARK[i], MARK[7], b""))
        elif op == "wl":
            x.call(x.app.write(MARK[i], MARK[6], is_last=True))
        elif op == "wbig":
            x.call(x.app.write(MARK[i], MARK[i] + bytes(65536)))
        elif op == "cancel":
            x.call(x.app.read())
        else:
            if op == "rd":
                ch.inbox.append(ref.seal(x.key, ctr, ref.app(0, b"in")))
                ctr += 2
            elif op == "rdm":
                ch.inbox.append(ref.seal(x.key, ctr, ref.multi(0, [b"in1", b"in2"]), last=True))
                ctr += 2
            elif op == "rdbad":
                ch.inbox.append(ref.seal(x.key, ctr + 2, ref.app(0, b"in")))
            elif op == "rdjunk":
                ch.inbox.append(ref.seal(x.key, ctr, b"\x07\0junk"))
                ctr += 2
            elif op == "rdtime":
                ch.inbox.append(ref.a1() if i % 2 else ref.m1(0, sess.A_ENC.pub))
            x.call(x.app.read())
    st["f"] = None
    x.call(x.app.write(MARK[5]))
    n = scan(ctx, role, cfg, ch)
    ctx.outcome("history, %d encrypted packets" % n)
    x.loop.drop()


def run_unit(u, ctx):
    cfg, role = sess.configs()[u["cfg"]], u["role"]
    if u["kind"] == "writes":
        reps = 3 if ctx.thorough else 2
        for names in itertools.product(SHAPES, repeat=reps):
            for last in itertools.product((False, True), repeat=reps):
                ctx.begin(dict(cfg=cfg, role=role, writes=names, last=last))
                x = open_session(cfg, role)
                ctx.check(x.res[0] == "ok", "handshake: %s", sess.show(x.res))
                for i, nm in enumerate(names):
                    r = x.call(x.app.write(*SHAPES[nm], is_last=last[i]))
                    ctx.check(r[0] == "ok", "write %s: %s", nm, sess.show(r))
                    ctx.step()
                n = scan(ctx, role, cfg, x.ch)
                ctx.state(cfg, role, names, last)
                ctx.outcome("%d encrypted packets" % n)
                x.loop.close()
        ctx.sample(ctx.case)
        return
    if u["kind"] == "hist":
        for n in (1, 2, 3) if ctx.thorough else (1, 2):
            for seq in itertools.product(HOPS, repeat=n):
                ctx.begin(dict(cfg=cfg, role=role, history=seq))
                hist(ctx, cfg, role, seq)
                ctx.state(cfg, role, seq)
        if not ctx.thorough and u["cfg"] in (0, 3, 7):
            small = [h for h in HOPS if h not in ("wbig", "cancel")]
            for seq in itertools.product(small, repeat=3):
                ctx.begin(dict(cfg=cfg, role=role, history=seq))
                hist(ctx, cfg, role, seq)
                ctx.state(cfg, role, seq)
        return
    if u["kind"] == "sizes":
        x = open_session(cfg, role)
        x.ch.feed = None
        ctr = 1 if role == "client" else 2
        pend = list(x.ch.sent[1:])
        sizes = list(range(300)) + sorted({(1 << k) + d for k in range(9, 17) for d in range(-24, 25)}) + [1 << 17, 1 << 20]
        for n in sizes:
            body = (MARK[n % 8] * (n // len(MARK[0]) + 1))[:n]
            for msgs in ((body,), (body, body[::-1])):
                ctx.begin(dict(cfg=cfg, role=role, size=n, messages=len(msgs)))
                del x.ch.out[:]
                r = x.call(x.app.write(*msgs))
                ctx.check(r[0] == "ok", "write: %s", sess.show(r))
                for m in pend + list(x.ch.sent):
                    ctx.check(ref.unseal(x.key, ctr, m) is not None, "packet with counter %d (size %d) is not sealed under the session key", ctr, n)
                    ctx.check(n < 12 or body[:40] not in m, "payload in clear in a packet of size %d", n)
                    ctr += 2
                pend = []
                ctx.step()
                ctx.state(cfg, role, "size", n, len(msgs))
        ctx.outcome("sizes")
        x.loop.close()
        return
    if u["kind"] == "long":
        x = open_session(cfg, role)
        ctr = (1 if role == "client" else 2)
        ctx.begin(dict(cfg=cfg, role=role, long=True))
        x.ch.feed = None
        pend = [m for m in x.ch.sent[1:]]
        for i in range(40000 if ctx.thorough else 4000):
            for m in pend:
                ctx.check(ref.unseal(x.key, ctr, m) is not None, "packet with counter %d is not sealed under the session key", ctr)
                ctr += 2
                ctx.step()
            del x.ch.out[:]
            r = x.call(x.app.write(MARK[i % 8], is_last=i % 7 == 0))
            ctx.check(r[0] == "ok", "write %d: %s", i, sess.show(r))
            pend = x.ch.sent
            for m in pend:
                ctx.check(MARK[i % 8] not in m, "payload in clear in write %d", i)
        ctx.state(cfg, role, "long")
        ctx.outcome("long session")
        return
    # failures: an arriving handshake message with one bit changed / cut / replaced, then the caller tries to go on
    key = ref.shared(sess.A_ENC.sec, sess.B_ENC.pub)
    wanted = sess.B_SIG.pub if cfg["wanted"] else None
    rs, rc = ref.RefServer(sess.B_SIG, sess.B_ENC), ref.RefClient(sess.A_SIG, sess.A_ENC, wanted=wanted)
    m1 = rc.start()[0]
    m2, m3 = rs.feed(m1)
    rc.feed(m2)
    m4 = rc.feed(m3)[0]
    script = [m2, m3] if role == "client" else [m1, m4]
    extra = [b"", b"\x00", m1, m2, m3, m4, ref.a1(), ref.a1(1, sess.B_SIG.pub), ref.a1(1, sess.C_SIG.pub), ref.a2(ref.DEFAULT_PROTS),
             ref.m2(0, bytes(32), True, True), ref.m1(0, sess.A_ENC.pub, sess.C_SIG.pub), ref.m1(7, sess.A_ENC.pub),
             ref.m2(7, sess.B_ENC.pub), ref.seal(key, 2, ref.m3(0, sess.B_SIG.pub, bytes(64))),
             ref.seal(key, 1, ref.m4(0, sess.A_SIG.pub, bytes(64)))]
    for pos in range(2):
        good = script[pos]
        bad = [("bit%d" % b, sess.flip(good, b)) for b in range(8 * len(good))] + [("cut%d" % n, good[:n]) for n in range(len(good))]
        bad += [("extra%d" % i, e) for i, e in enumerate(extra)]
        for nm, b in bad:
            ctx.begin(dict(cfg=cfg, role=role, position=pos, change=nm))
            one_failure(ctx, cfg, role, wanted, script[:pos] + [b] + script[pos + 1:], None)
            ctx.state(cfg, role, pos, nm)
    for fault in range(6):
        ctx.begin(dict(cfg=cfg, role=role, fault_at=fault))
        one_failure(ctx, cfg, role, wanted, script, fault)
        ctx.state(cfg, role, "fault", fault)


def one_failure(ctx, cfg, role, wanted, inbox, fault):
    def hook(kind, i):
        if fault is not None and i == fault:
            raise S.ComException("injected")
    loop = sess.new_loop()
    ch = sess.ScriptChannel(inbox=inbox, mode="eof", hook=hook)
    s = sess.client(ch, buf4=cfg["buf4"], wanted=wanted) if role == "client" else sess.server(ch, buf2=cfg["buf2"])
    r = loop.call(s.handshake())
    ctx.step(2)
    ctx.outcome("handshake " + r[0])
    if r[0] == "ok" and s.app_channel is not None:
        loop.call(s.app_channel.write(MARK[0], MARK[1]))
    # a degenerate or changed peer key gives another session key: only judge what must be under the honest one
    p1 = ref.p_m1(inbox[0]) if role == "server" else ref.p_m2(inbox[0])
    pk = p1 and (p1["ckey"] if role == "server" else p1["skey"])
    good = sess.A_ENC.pub if role == "server" else sess.B_ENC.pub
    if pk == good:
        scan(ctx, role, cfg, ch)
    else:
        own = sess.B_ENC if role == "server" else sess.A_ENC
        try:
            key = ref.shared(own.sec, pk) if pk else None
        except Exception:
            key = None
        for n, m in enumerate(ch.sent):
            if n:
                ctx.check(key is not None and ref.find_counter(key, m, 20)[1] is not None, "message %d after a changed key is not an "
                          "encrypted packet: %s", n, m.hex()[:80])
            for what, sec in [("payload", MARK[0]), ("payload", MARK[1]), ("signing key", sess.A_SIG.pub if role == "client" else sess.B_SIG.pub)]:
                ctx.check(sec not in m, "%s in clear in message %d", what, n)
            if n == 0:
                ok = (ref.p_m1 if role == "client" else ref.p_m2)(m) is not None or (role == "server" and ref.p_a2(m) is not None)
                ctx.check(ok, "first message is %s", m.hex()[:80])
    loop.drop()
