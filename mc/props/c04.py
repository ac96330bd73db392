"""C04: every sequence of attacker deliveries up to a depth, and every bit/truncation/nonce-bit change at every position."""
import itertools

from nacl import bindings as nb

from .. import ref, sess
from ..env import S

BOUNDS = {
    "quick": "all delivery sequences of length 4 (3 with buffering options on) over a 12-symbol alphabet for client and server "
             "receivers; all bit flips, truncations and extensions of 5 packets; all 192 nonce bits and replays at positions "
             "0..300; 32776 packets per role with packets of power-of-two distance tried at power-of-two positions; read counter "
             "set to each power-of-two boundary up to 2^63 with packets at power-of-two distances tried",
    "thorough": "delivery sequences of length 5 (4 with buffering options on) over 14 symbols; replays and nonce bits at positions up to 33000 (16-bit counter boundary)"
}
PAYLOADS = [(b"alpha",), (b"beta", b""), (b"gamma" * 9,), (b"delta", b"eps", b"zeta"), (b"",)]
SYM = ["next", "skip", "prev", "first", "flipct", "cut", "type", "reflect", "cross", "forge", "empty", "write", "fliptag", "ext"]
NSYM = {"quick": 12, "thorough": 14}
RECV = [dict(role="client", buf=False), dict(role="client", buf=True), dict(role="server", buf=False), dict(role="server", buf=True)]


def setup():
    sess.setup()


def units(tier):
    us = []
    d = 4 if tier == "quick" else 5
    for r in RECV:
        for s in range(NSYM[tier]):
            us.append(dict(kind="seq", recv=r, first=s, depth=d - 1 if r["buf"] else d))
        us.append(dict(kind="bits", recv=r))
        us.append(dict(kind="long", recv=r, n=300 if tier == "quick" else 33000))
        us.append(dict(kind="jump", recv=r))
        if not r["buf"]:
            us.insert(0, dict(kind="wrap", recv=r, n=32776 if tier == "quick" else 131080))
    return us


class Receiver:
    """A real established session and what its peer will send it."""

    def __init__(self, r):
        if r["role"] == "client":
            self.x = sess.RealClient(buf4=r["buf"])
            self.c0 = 4
            other = ref.shared(sess.A2_ENC.sec, sess.B_ENC.pub)
        else:
            self.x = sess.RealServer(buf2=r["buf"])
            self.c0 = 3
            other = ref.shared(sess.A_ENC.sec, sess.B2_ENC.pub)
        self.ok = self.x.res[0] == "ok"
        self.key, self.other, self.role = self.x.key, other, r["role"]
        self.loop, self.app, self.ch = self.x.loop, self.x.app, self.x.ch
        self.ch.feed = None
        self.ch.inbox.clear()

    def packet(self, i, key=None):
        msgs = PAYLOADS[i % len(PAYLOADS)]
        clear = ref.app(0, msgs[0]) if len(msgs) == 1 else ref.multi(0, msgs)
        return ref.seal(key or self.key, self.c0 + 2 * i, clear, last=i % 3 == 2)

    def read(self):
        return self.loop.call(self.app.read())


def deliver(ctx, R, pkt, nxt, auth, what):
    """Deliver pkt when `nxt` packets have been accepted; -> new nxt. auth: its body is that of the next authentic packet."""
    R.ch.inbox.append(pkt)
    ctx.step()
    msgs = PAYLOADS[nxt % len(PAYLOADS)]
    r = R.read()
    if not auth:
        ctx.check(sess.is_badpeer(r), "%s accepted instead of bad peer: %s", what, sess.show(r))
        ctx.check(not R.ch.inbox, "%s: delivered packet was not consumed", what)
        r = R.read()
        ctx.check(r[0] == "pending", "%s left something to read: %s", what, sess.show(r))
        return nxt
    got = [r]
    ctx.check(r == ("ok", msgs[0]), "authentic packet %d (%s): %s", nxt, what, sess.show(r))
    for m in msgs[1:]:
        r = R.read()
        got.append(r)
        ctx.check(r == ("ok", m), "authentic packet %d (%s): %s", nxt, what, sess.show(r))
    r = R.read()
    ctx.check(r[0] == "pending", "authentic packet %d yields more than was sent: %s", nxt, sess.show(r))
    ctx.check(bool(R.app.last) == (nxt % 3 == 2), "last indication wrong after packet %d", nxt)
    return nxt + 1


def run_seq(ctx, recv, seq):
    R = Receiver(recv)
    ctx.check(R.ok, "session not established")
    nxt, prev, wrote = 0, None, 0
    hs = [m for m in R.ch.sent if m[0] == 6]
    for sy in seq:
        name = SYM[sy]
        p = R.packet(nxt)
        if name == "write":
            r = R.loop.call(R.app.write(b"own%d" % wrote))
            ctx.check(r[0] == "ok", "write: %s", sess.show(r))
            wrote += 1
            continue
        if name == "next":
            nxt = deliver(ctx, R, p, nxt, True, name)
            prev = p
            continue
        own = [m for m in R.ch.sent if m[0] == 6]
        q = {"skip": R.packet(nxt + 1), "prev": prev or (hs[-1] if hs else b"\x06"), "first": R.packet(0) if nxt else R.packet(nxt + 2),
             "flipct": p[:18] + bytes([p[18] ^ 1]) + p[19:], "fliptag": p[:2] + bytes([p[2] ^ 0x80]) + p[3:],
             "cut": p[:-1], "ext": p + b"\x00", "type": bytes([5]) + p[1:], "reflect": own[-1] if own else R.packet(nxt + 3),
             "cross": R.packet(nxt, R.other), "forge": ref.seal(bytes(32), R.c0 + 2 * nxt, ref.app(0, b"evil")), "empty": b""}[name]
        nxt = deliver(ctx, R, q, nxt, False, name)
    # the authentic rest still gets through
    for _ in range(2):
        nxt = deliver(ctx, R, R.packet(nxt), nxt, True, "rest")
    ctx.state(recv, seq)
    ctx.outcome("accepted %d" % nxt)
    R.loop.close()


def nonced(key, nonce, clear):
    return bytes([6, 0]) + nb.crypto_box_afternm(clear, nonce, key)


def run_bits(ctx, recv):
    R = Receiver(recv)
    ctx.check(R.ok, "session not established")
    nxt = 0
    for i in range(len(PAYLOADS)):
        p = R.packet(i)
        for bit in range(8 * len(p)):
            if 8 <= bit < 16:
                continue       # header flags are not authenticated by the protocol; handled below
            ctx.begin(dict(recv=recv, packet=i, bit=bit))
            nxt = deliver(ctx, R, sess.flip(p, bit), nxt, False, "bit %d of packet %d" % (bit, i))
            ctx.state(recv, i, "bit", bit)
        for n in range(len(p)):
            ctx.begin(dict(recv=recv, packet=i, cut=n))
            nxt = deliver(ctx, R, p[:n], nxt, False, "packet %d cut to %d" % (i, n))
            ctx.state(recv, i, "cut", n)
        for n in range(1, len(p)):
            ctx.begin(dict(recv=recv, packet=i, tail=n))
            nxt = deliver(ctx, R, p[:2] + p[2 + n:], nxt, False, "packet %d without %d first body bytes" % (i, n))
        for x in (b"\x00", b"\xff", p, bytes(16)):
            ctx.begin(dict(recv=recv, packet=i, ext=x))
            nxt = deliver(ctx, R, p + x, nxt, False, "packet %d extended" % i)
        for n in list(range(0, 34)) + [len(p) - 2, 100, 1000]:
            for v in (0, 1, 0x20, 0x7f, 0x80, 0xff):
                for flags in (0, 0x80):
                    ctx.begin(dict(recv=recv, packet=i, constant=v, length=n, flags=flags))
                    nxt = deliver(ctx, R, bytes([6, flags]) + bytes([v]) * n, nxt, False, "constant body of %d bytes" % n)
        for n in (16, 17, 22, len(p) - 2):      # right tag or right ciphertext with constant rest
            for q in (p[2:18] + bytes(n - 16), bytes(16) + p[18:], p[2:18], p[18:] + p[2:18]):
                if q != p[2:]:
                    ctx.begin(dict(recv=recv, packet=i, mixed=q))
                    nxt = deliver(ctx, R, p[:2] + q, nxt, False, "mixed body")
        clear = ref.app(0, PAYLOADS[i][0]) if len(PAYLOADS[i]) == 1 else ref.multi(0, PAYLOADS[i])
        for q in (clear, bytes([6, 0]) + clear, bytes([6, 0]) + bytes(16) + clear, bytes([6, 0x80]) + clear + bytes(16)):
            ctx.begin(dict(recv=recv, packet=i, plaintext=q))
            nxt = deliver(ctx, R, q, nxt, False, "plaintext")
        ctx.begin(dict(recv=recv, packet=i, authentic=True))
        nxt = deliver(ctx, R, p, nxt, True, "authentic")
    ctx.outcome("bits: all rejected, %d authentic accepted" % nxt)
    # header flag bits: same body, so same messages or bad peer; never anything else
    for bit in range(8, 16):
        ctx.begin(dict(recv=recv, flagbit=bit))
        R = Receiver(recv)
        q = sess.flip(R.packet(0), bit)
        R.ch.inbox.append(q)
        r = R.read()
        ctx.check(r == ("ok", PAYLOADS[0][0]) or sess.is_badpeer(r), "flag bit %d: %s", bit, sess.show(r))
        deliver(ctx, R, R.packet(1 if r[0] == "ok" else 0), 1 if r[0] == "ok" else 0, True, "after flag bit")


def run_long(ctx, recv, n):
    R = Receiver(recv)
    ctx.check(R.ok, "session not established")
    marks = {0, 1, 2, 62, 63, 64, 65, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257, 299, 300, 1000, 16382, 16383, 16384,
             32765, 32766, 32767, 32768, 32769, n - 1}
    nxt, hist = 0, []
    while nxt < n:
        if nxt in marks:
            ctr = R.c0 + 2 * nxt
            good = ref.nonce(ctr)
            clear = ref.app(0, b"attack")
            for bit in range(192):
                ctx.begin(dict(recv=recv, position=nxt, noncebit=bit))
                nxt = deliver(ctx, R, nonced(R.key, sess.flip(good, bit), clear), nxt, False, "nonce bit %d at %d" % (bit, nxt))
                ctx.state(recv, nxt, "nonce", bit)
            lo = 0 if nxt <= 300 else nxt - 300
            for j in range(lo, nxt + 300):
                if j != nxt:
                    ctx.begin(dict(recv=recv, position=nxt, replay=j))
                    nxt = deliver(ctx, R, R.packet(j), nxt, False, "packet %d at position %d" % (j, nxt))
                    ctx.state(recv, nxt, "replay", j)
        nxt = deliver(ctx, R, R.packet(nxt), nxt, True, "authentic")
    ctx.outcome("long session of %d" % n)


def run_wrap(ctx, recv, n):
    """A session beyond the 16-bit boundaries of its counter; there, packets from a power of two before or after are tried."""
    R = Receiver(recv)
    ctx.check(R.ok, "session not established")
    ctx.begin(dict(recv=recv, wrap=n))
    marks = {(1 << k) + d for k in range(5, 18) for d in (-2, -1, 0, 1)}
    for i in range(n):
        if i in marks:
            for k in range(18):
                for j in (i - (1 << k), i + (1 << k)):
                    if j >= 0:
                        ctx.begin(dict(recv=recv, position=i, other=j))
                        deliver(ctx, R, R.packet(j), i, False, "packet %d at position %d" % (j, i))
                        ctx.state(recv, i, "wrap", j)
        R.ch.inbox.append(R.packet(i))
        for m in PAYLOADS[i % len(PAYLOADS)]:
            r = R.read()
            ctx.check(r == ("ok", m), "authentic packet %d: %s", i, sess.show(r))
        ctx.step()
    ctx.outcome("session of %d" % n)


def run_jump(ctx, recv):
    """Positions only reachable by enormous sessions, where the read counter is exposed and seen to be the real counter."""
    for k in range(8, 64):
        ctx.begin(dict(recv=recv, jump=k))
        R = Receiver(recv)
        ctx.check(R.ok, "session not established")
        nonce = getattr(R.x.s.enc_channel, "read_nonce", None)
        for i in range(2):
            if getattr(nonce, "value", None) != R.c0 + 2 * i:
                ctx.outcome("counter not exposed")
                return
            deliver(ctx, R, R.packet(i), i, True, "authentic")
        at = (1 << k) - 4 + R.c0 % 2
        try:
            nonce.value = at
        except Exception:
            ctx.outcome("counter not settable")
            return
        R.ch.inbox.append(ref.seal(R.key, at, ref.app(0, b"probe")))
        r = R.read()
        if r != ("ok", b"probe"):
            R.ch.inbox.clear()
            R.ch.inbox.append(R.packet(2))
            if R.read() == ("ok", PAYLOADS[2][0]):
                ctx.outcome("counter not settable")
                return
            ctx.fail("packet with counter %d: %s", at, sess.show(r))
        for step in range(1, 4):
            ctr = at + 2 * step
            for j in range(4, 64):
                for bad in (ctr ^ (1 << j), ctr + (1 << j), ctr - (1 << j)):
                    if 0 <= bad < 1 << 64 and bad != ctr:
                        R.ch.inbox.append(ref.seal(R.key, bad, ref.app(0, b"attack")))
                        r = R.read()
                        ctx.check(sess.is_badpeer(r), "packet with counter %d accepted at %d: %s", bad, ctr, sess.show(r))
                        ctx.step()
            R.ch.inbox.append(ref.seal(R.key, ctr, ref.app(0, b"auth%d" % step)))
            r = R.read()
            ctx.check(r == ("ok", b"auth%d" % step), "packet with counter %d: %s", ctr, sess.show(r))
        ctx.state("jump", recv, k)
        ctx.outcome("boundary 2^%d" % k)


def run_unit(u, ctx):
    if u["kind"] == "seq":
        for rest in itertools.product(range(NSYM[ctx.tier]), repeat=u["depth"] - 1):
            seq = (u["first"],) + rest
            ctx.begin(dict(recv=u["recv"], deliveries=[SYM[s] for s in seq]))
            run_seq(ctx, u["recv"], seq)
        ctx.sample(ctx.case)
    elif u["kind"] == "bits":
        run_bits(ctx, u["recv"])
    elif u["kind"] == "wrap":
        run_wrap(ctx, u["recv"], u["n"])
    elif u["kind"] == "jump":
        run_jump(ctx, u["recv"])
    else:
        run_long(ctx, u["recv"], u["n"])
