"""C10: every message of a structured hostile alphabet at every protocol position, raw and properly encrypted."""
import itertools
import struct

from .. import pk, ref, sess
from ..env import S

SB = [0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 0x20, 0x7f, 0x80, 0x81, 0xff]
BOUNDS = {
    "quick": "9 protocol positions x (all truncations; all 256 values of header bytes and 9 values of every other byte of valid messages; "
             "extensions; removed and doubled bytes; all valid messages of other kinds; all types; all strings of length <= 2 over a 15-byte "
             "alphabet, length 3 with all types; all low-order public keys; MultiApp count/length structures; 64 KiB and 1 MiB messages), "
             "raw and, where the position is encrypted, sealed under the right key and counter; both buffering settings; all "
             "sequences of 3 hostile or valid packets (12 symbols) on established channels",
    "thorough": "as quick with all 256 values of every byte, strings of length 3 over the alphabet, sequences of 4 packets"
}
LOW = [bytes(32), b"\1" + bytes(31),
       bytes.fromhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
       bytes.fromhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
       bytes.fromhex("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
       bytes.fromhex("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
       bytes.fromhex("eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f")]
LOW = LOW + [k[:31] + bytes([k[31] | 0x80]) for k in LOW]
POS = ["server1", "server4", "client2", "client3", "capp", "sapp", "a1"]
SEALED = ["server4", "client3", "capp", "sapp"]


def setup():
    sess.setup()


def units(tier):
    us = []
    for p in POS:
        for b in ((False, True) if p != "a1" else (False,)):
            for part in ("mutate", "short", "big"):
                us.append(dict(pos=p, buf=b, part=part, sealed=False))
                if p in SEALED:
                    us.append(dict(pos=p, buf=b, part=part, sealed=True))
            if p in ("server1", "client2"):
                us.append(dict(pos=p, buf=b, part="low", sealed=False))
            if p in ("capp", "sapp"):
                us.append(dict(pos=p, buf=b, part="multi", sealed=True))
    for p in ("capp", "sapp"):
        for first in range(len(SEQ)):
            us.append(dict(pos=p, part="seq", first=first))
    return us


# ------------------------------------------------------------------------------------------------ the messages
def mutations(b, full, head):
    for i in range(len(b)):
        yield "cut to %d" % i, b[:i]
    for i in range(len(b)):
        vals = range(256) if full or i < head else (0, 1, 2, 0x0a, 0x20, 0x7f, 0x80, 0xff, b[i] ^ 1)
        for v in vals:
            if v != b[i]:
                yield "byte %d = %#x" % (i, v), b[:i] + bytes([v]) + b[i + 1:]
    for i in range(len(b)):
        yield "byte %d removed" % i, b[:i] + b[i + 1:]
        yield "byte %d doubled" % i, b[:i] + b[i:i + 1] + b[i:]
    for n in (1, 2, 16, 20, 32, 64, 300):
        yield "extended by %d" % n, b + bytes(n)


def foreign(key, h12):
    sig1, sig2 = ref.sign(ref.SIG1, *h12, sess.B_SIG.sec), ref.sign(ref.SIG2, *h12, sess.A_SIG.sec)
    yield "M1", ref.m1(0, sess.A_ENC.pub)
    yield "M1 named", ref.m1(0, sess.A_ENC.pub, sess.B_SIG.pub)
    yield "M1 named other", ref.m1(0, sess.A_ENC.pub, sess.C_SIG.pub)
    yield "M2", ref.m2(0, sess.B_ENC.pub)
    yield "M2 nosuch", ref.m2(0, bytes(32), nosuch=True, last=True)
    yield "M3", ref.m3(0, sess.B_SIG.pub, sig1)
    yield "M4", ref.m4(0, sess.A_SIG.pub, sig2)
    yield "M3 as M4", ref.m3(0, sess.A_SIG.pub, sig2)
    yield "M4 as M3", ref.m4(0, sess.B_SIG.pub, sig1)
    yield "M4 with role 1 signature", ref.m4(0, sess.B_SIG.pub, sig1)
    yield "M3 with role 2 signature", ref.m3(0, sess.A_SIG.pub, sig2)
    yield "app", ref.app(0, b"hello")
    yield "app empty", ref.app(0, b"")
    yield "multi", ref.multi(0, [b"a", b"", b"ccc"])
    yield "multi of one", ref.multi(0, [b"a"])
    yield "multi of none", ref.multi(0, [])
    yield "A1 any", ref.a1()
    yield "A1 key", ref.a1(1, sess.B_SIG.pub)
    yield "A1 other key", ref.a1(1, sess.C_SIG.pub)
    yield "A2", ref.a2(ref.DEFAULT_PROTS)
    yield "A2 none", ref.a2(())
    yield "A2 nosuch", ref.a2((), nosuch=True)
    for c in (1, 2, 3, 4):
        yield "sealed M3 at %d" % c, ref.seal(key, c, ref.m3(0, sess.B_SIG.pub, sig1))
        yield "sealed M4 at %d" % c, ref.seal(key, c, ref.m4(0, sess.A_SIG.pub, sig2))
        yield "sealed app at %d" % c, ref.seal(key, c, ref.app(0, b"x"))
        yield "sealed nothing at %d" % c, ref.seal(key, c, b"")


def messages(u, bases, key, h12, thorough):
    if u["part"] == "mutate":
        for name, b in bases:
            yield name, b
            for w, m in mutations(b, thorough, 12):
                yield name + " " + w, m
        for name, b in foreign(key, h12):
            yield name, b
            for cut in (1, 2, 5, 6, 17, 18, len(b) - 1):
                if cut < len(b):
                    yield "%s cut to %d" % (name, cut), b[:cut]
    elif u["part"] == "short":
        yield "empty", b""
        for a in range(256):
            yield "short", bytes([a])
            yield "typed", bytes([a]) + bytes(41)
            yield "typed", b"SCv2" + bytes([a]) + bytes(69)
            yield "typed", bytes([a]) + b"\0" + struct.pack("<IH", 0, 2) + b"\1\0a\1\0b"
        for a, b in itertools.product(SB, repeat=2):
            yield "short", bytes([a, b])
            yield "prefixed", b"SCv2" + bytes([a, b])
        for a in range(256):
            for b in SB:
                yield "short", bytes([a, b, 0])
                yield "short", bytes([a, 0, b, 0, 0])
        if thorough:
            for t in itertools.product(SB, repeat=3):
                yield "short", bytes(t)
    elif u["part"] == "big":
        for n in (65535, 65536, 65537, 65541, 65542, 65543, 65544, 1 << 20):
            for name, b in bases:
                yield name + " big %d" % n, b + bytes(max(0, n - len(b)))
            yield "big %d" % n, bytes(n)
    elif u["part"] == "low":
        for k in LOW + [b"\xff" * 32, sess.flip(sess.B_ENC.pub, 255)]:
            for t in (0, 1):
                yield "low order " + k.hex(), ref.m2(t, k) if u["pos"] == "client2" else ref.m1(t, k)
                if u["pos"] == "server1":
                    yield "low order " + k.hex(), ref.m1(t, k, sess.B_SIG.pub)
    elif u["part"] == "multi":
        lens = (0, 1, 2, 255, 256, 0xffff)
        for count in (0, 1, 2, 3, 255, 256, 0xffff):
            for n in range(4):
                for ls in itertools.product(lens, repeat=n):
                    body = b"".join(struct.pack("<H", l) + b"z" * (l if l < 10 else 2) for l in ls)
                    yield "multi count %d lengths %r" % (count, ls), bytes([11, 0, 0, 0, 0, 0]) + struct.pack("<H", count) + body
        big = [b"q" * 40000] * 3
        for cut in (0, 1, 2, 40000, 40001, 40002, 80003, 80004):
            m = ref.multi(0, big)
            yield "multi big cut by %d" % cut, m[:len(m) - cut]


# ------------------------------------------------------------------------------------------------ the positions
def com(ctx, what, r):
    ctx.check(sess.is_com(r), "%s: %s", what, sess.show(r))
    ctx.outcome("%s: %s" % (ctx.case["pos"], sess.exc_name(r[1])))


def bad_key(mysec, pub):
    try:
        ref.shared(mysec, pub)
        return False
    except Exception:
        return True


def server1(ctx, u, what, x):
    loop = sess.new_loop()
    ch = sess.ScriptChannel([x])
    s = sess.server(ch, buf2=u["buf"])
    r = loop.call(s.handshake())
    loop.drop()
    p, a = ref.p_m1(x), ref.p_a1(x)
    if a is not None:
        if a["lax"] and r[0] != "ok":
            return com(ctx, what, r)
        ctx.check(r[0] == "ok" and s.is_done and s.app_channel is None and len(ch.sent) == 1, "%s: address query: %s", what, sess.show(r))
        ctx.outcome("server1: address query answered")
    elif p is None or p["time"] not in (0, 1) or (p["server"] not in (None, sess.B_SIG.pub)) or bad_key(sess.B_ENC.sec, p["ckey"]):
        com(ctx, what, r)
        ctx.check(len(ch.sent) <= 1, "%s: server sends %d messages", what, len(ch.sent))
    elif r[0] == "pending" or not p["lax"]:
        ctx.check(r[0] == "pending" and len(ch.sent) == 2, "%s: valid M1: %s", what, sess.show(r))
        ctx.outcome("server1: proceeds")
    else:
        com(ctx, what, r)


def server4(ctx, u, what, x):
    loop = sess.new_loop()
    rc = ref.RefClient(sess.A_SIG, sess.A_ENC)
    ch = sess.RefPeerChannel.make(rc, inbox=rc.start())
    inner = ch.feed
    got = []

    def feed(msgs):
        inner(msgs)
        if rc.state == "open" and not got:
            got.append(1)
            return [ref.seal(rc.key, 1, x, typ=6) if u["sealed"] else x]
        return []
    ch.feed = feed
    s = sess.server(ch, buf2=u["buf"])
    r = loop.call(s.handshake())
    loop.drop()
    clear = x if u["sealed"] else ref.unseal(rc.key, 1, x)
    p = clear is not None and ref.p_m34(clear, 4)
    if p and ref.verify(p["sig"], ref.SIG2 + rc.h1 + rc.h2, p["key"]) and (r[0] == "ok" or not (p["lax"] or (not u["sealed"] and x[1] & 0x7f))):
        ctx.check(r[0] == "ok" and bytes(s.client_sig_key) == p["key"], "%s: valid M4: %s", what, sess.show(r))
        ctx.outcome("server4: completes")
    else:
        com(ctx, what, r)


def client2(ctx, u, what, x):
    loop = sess.new_loop()
    ch = sess.ScriptChannel(feed=lambda msgs: [x] if len(ch.sent) == 1 else [])
    c = sess.client(ch, buf4=u["buf"])
    r = loop.call(c.handshake())
    loop.drop()
    p = ref.p_m2(x)
    if p is None or p["time"] not in (0, 1) or p["nosuch"] or bad_key(sess.A_ENC.sec, p["skey"]):
        com(ctx, what, r)
        if x == ref.m2(0, bytes(32), nosuch=True, last=True):
            ctx.check(isinstance(r[1], S.NoSuchServerException), "%s: %s", what, sess.show(r))
    elif r[0] == "pending" or not p["lax"]:
        ctx.check(r[0] == "pending", "%s: valid M2: %s", what, sess.show(r))
        ctx.outcome("client2: proceeds")
    else:
        com(ctx, what, r)
    ctx.check(len(ch.sent) == 1, "%s: client sends more", what)


def client3(ctx, u, what, x):
    loop = sess.new_loop()
    rs = ref.RefServer(sess.B_SIG, sess.B_ENC)
    ch = sess.RefPeerChannel.make(rs)
    inner = ch.feed
    key = []

    def feed(msgs):
        first = not key
        out = inner(msgs)
        if first:
            key.append(rs.key)
            return [out[0], ref.seal(rs.key, 2, x) if u["sealed"] else x]
        return []
    ch.feed = feed
    c = sess.client(ch, buf4=u["buf"])
    r = loop.call(c.handshake())
    clear = x if u["sealed"] else ref.unseal(rs.key, 2, x)
    p = clear is not None and len(clear) == 102 and ref.p_m34(clear, 3)      # an M3 of another size is not an M3
    if p and ref.verify(p["sig"], ref.SIG1 + rs.h1 + rs.h2, p["key"]) and (r[0] == "ok" or not (p["lax"] or (not u["sealed"] and x[1] & 0x7f))):
        ctx.check(r[0] == "ok", "%s: valid M3: %s", what, sess.show(r))
        ctx.outcome("client3: completes")
    else:
        com(ctx, what, r)
        ctx.check(len(ch.sent) == 1, "%s: client goes on after a bad M3", what)
    loop.drop()


def open_app(u):
    x = sess.RealClient(buf4=u["buf"]) if u["pos"] == "capp" else sess.RealServer(buf2=u["buf"])
    x.ch.feed = None
    x.ch.inbox.clear()
    x.ctr = 4 if u["pos"] == "capp" else 3
    return x


def app(ctx, u, what, x):
    s = open_app(u)
    ctx.check(s.res[0] == "ok", "handshake with a conforming peer: %s", sess.show(s.res))
    s.ch.inbox.append(ref.seal(s.key, s.ctr, x) if u["sealed"] else x)
    clear = x if u["sealed"] else ref.unseal(s.key, s.ctr, x)
    exp = ref.p_app_any(clear) if clear is not None else None
    lax = exp is not None and (exp[2] or (not u["sealed"] and x[1] & 0x7f))
    r = s.call(s.app.read())
    if exp is None or (lax and r[0] == "exc"):
        com(ctx, what, r)
        r = s.call(s.app.read())
        ctx.check(r[0] == "pending", "%s: after the refusal a read gives %s", what, sess.show(r))
    else:
        for i, m in enumerate(exp[1]):
            if i:
                r = s.call(s.app.read())
            ctx.check(r == ("ok", m), "%s: message %d read as %s", what, i, sess.show(r))
            if i > 70 and ctx.tier == "quick":
                break
        else:
            r = s.call(s.app.read())
            ctx.check(r[0] == "pending", "%s: surplus message %s", what, sess.show(r))
        ctx.outcome("%s: delivered" % u["pos"])
    s.loop.drop()


def a1(ctx, u, what, x):
    p = ref.p_a2(x)
    for style in ("async", "sync"):
        loop = sess.new_loop()
        ch = sess.ScriptChannel(feed=lambda msgs: [x])
        c = S.A1Client(ch)
        r = loop.call(c.do_a1a2()) if style == "async" else sess.call_sync(c.do_a1a2_sync)
        loop.drop()
        if p is None or (p["lax"] and r[0] == "exc"):
            com(ctx, what, r)
        else:
            ctx.check(r[0] == "ok", "%s: valid A2: %s", what, sess.show(r))
            got = pk.fields("A2", c.a2)
            ctx.check(got["prots"] == tuple(p["prots"]) and got["nosuch"] == p["nosuch"], "%s: A2 misread", what)
            ctx.outcome("a1: answered")


RUN = dict(server1=server1, server4=server4, client2=client2, client3=client3, capp=app, sapp=app, a1=a1)

# ------------------------------------------------------------------------------------------------ sequences on open channels
SEQ = [("app", True, lambda: ref.app(0, b"one")), ("multi", True, lambda: ref.multi(0, [b"m1", b"", b"m3"])),
       ("multi overrun", True, lambda: ref.multi(0, [b"m1", b"m2"])[:-1]), ("multi count 0", True, lambda: ref.multi(0, [])),
       ("multi count high", True, lambda: ref.multi(0, [b"m1", b"m2"], count=3)), ("no plaintext", True, lambda: b""),
       ("header only", True, lambda: b"\5\0"), ("M4", True, lambda: ref.m4(0, sess.A_SIG.pub, bytes(64))),
       ("type 0", True, lambda: bytes(40)), ("empty", False, lambda: b""), ("garbage", False, lambda: b"\6\0" + b"g" * 40),
       ("M2", False, lambda: ref.m2(0, sess.B_ENC.pub))]


def seq(ctx, u):
    depth = 4 if ctx.thorough else 3
    for rest in itertools.product(range(len(SEQ)), repeat=depth - 1):
        order = (u["first"],) + rest
        ctx.begin(dict(pos=u["pos"], sequence=[SEQ[i][0] for i in order]))
        s = open_app(dict(pos=u["pos"], buf=False))
        ctx.check(s.res[0] == "ok", "handshake with a conforming peer: %s", sess.show(s.res))
        for i in order:
            name, sealed, f = SEQ[i]
            x = f()
            exp = ref.p_app_any(x) if sealed else None
            s.ch.inbox.append(ref.seal(s.key, s.ctr, x) if sealed else x)
            if sealed:
                s.ctr += 2
            ctx.step()
            r = s.call(s.app.read())
            if exp is None:
                com(ctx, name, r)
            elif r[0] == "ok":
                msgs = [r]
                msgs += [s.call(s.app.read()) for _ in exp[1][1:]]
                ctx.check([m[1] for m in msgs] == exp[1], "%s read as %r", name, msgs)
            else:   # an earlier authenticated but malformed packet may have ended the session
                com(ctx, name, r)
            ctx.check(not s.ch.inbox, "%s not consumed", name)
            r = s.call(s.app.read())
            ctx.check(r[0] == "pending", "%s: surplus %s", name, sess.show(r))
        s.loop.drop()
        ctx.state(order, u["pos"])


def run_unit(u, ctx):
    if u["part"] == "seq":
        return seq(ctx, u)
    mm1, mm2 = ref.m1(0, sess.A_ENC.pub), ref.m2(0, sess.B_ENC.pub)
    h12 = (ref.h(mm1), ref.h(mm2))
    key = ref.shared(sess.A_ENC.sec, sess.B_ENC.pub)
    M3 = ref.m3(0, sess.B_SIG.pub, ref.sign(ref.SIG1, *h12, sess.B_SIG.sec))
    M4 = ref.m4(0, sess.A_SIG.pub, ref.sign(ref.SIG2, *h12, sess.A_SIG.sec))
    pos, sealed = u["pos"], u["sealed"]
    apps = [("app", ref.app(7, b"payload")), ("multi", ref.multi(7, [b"ab", b"", b"c"]))]
    bases = {"server1": [("M1", mm1), ("M1 named", ref.m1(1, sess.A_ENC.pub, sess.B_SIG.pub)), ("A1", ref.a1()), ("A1 key", ref.a1(1, sess.B_SIG.pub))],
             "server4": [("M4", M4)], "client2": [("M2", mm2), ("M2 nosuch", ref.m2(0, bytes(32), nosuch=True, last=True))], "client3": [("M3", M3)],
             "capp": apps, "sapp": apps,
             "a1": [("A2", ref.a2(ref.DEFAULT_PROTS * 2)), ("A2 nosuch", ref.a2((), nosuch=True))]}[pos]
    if pos in SEALED and not sealed:
        ctr = {"server4": 1, "client3": 2, "capp": 4, "sapp": 3}[pos]
        bases = [("sealed " + n, ref.seal(key, ctr, b)) for n, b in bases]
    for what, x in messages(u, bases, key, h12, ctx.thorough):
        ctx.begin(dict(pos=pos, buf=u["buf"], sealed=sealed, message=what, bytes=x))
        RUN[pos](ctx, u, what, x)
        ctx.step(2)
        ctx.state(pos, u["buf"], sealed, len(x), x[:110])
    ctx.sample(ctx.case)
