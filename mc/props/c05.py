"""C05: nonce discipline over all operation histories up to a depth, with failing, cancelled and concurrent writes."""
import asyncio
import itertools

from .. import ref, sess
from ..env import S

OPS = ["w1", "w2", "wbig", "wlast", "fail1", "fail2", "cancel1", "cancel2", "conc", "rd", "rdbad"]
CFG = [dict(role="client", buf=False), dict(role="client", buf=True), dict(role="server", buf=False), dict(role="server", buf=True)]
ERRORS = ("ComException", "BadPeer", OSError, ConnectionResetError, BrokenPipeError, TimeoutError, EOFError, RuntimeError, ValueError,
                        TypeError, KeyError, MemoryError, asyncio.CancelledError, asyncio.IncompleteReadError)
BOUNDS = {
    "quick": "all histories of length 3 over 11 operations for 4 configurations (length 4 for the client with buffered M4); "
             "14 kinds of transport errors x 6 writes of 1-21 packets x positions; 20 shapes of large writes; wanted-server clients; "
             "sessions of 33100 packets per role; write counter set to each power-of-two boundary up to 2^63; 36 session nonces x both roles, each channel reading packets of all others",
    "thorough": "all histories of length 5 for the client with buffered M4, of length 4 for the others; sessions of 140000 packets"
}


def setup():
    sess.setup()
    global NCh

    class NCh(S.ByteChannel):
        """Records everything handed over, then succeeds, fails or suspends as told."""

        def __init__(self):
            super().__init__()
            self.inbox, self.out, self.mode, self.waiting = [], [], "ok", []
            self.error = lambda: S.ComException("broken")

        async def read(self):
            if self.inbox:
                return self.inbox.pop(0)
            await asyncio.get_running_loop().create_future()

        async def write(self, msg, *args, is_last=False):
            self.out.extend(bytes(m) for m in (msg,) + args)
            if self.mode == "fail":
                raise self.error()
            if self.mode == "wait":
                f = asyncio.get_running_loop().create_future()
                self.waiting.append(f)
                await f


def units(tier):
    us = []
    for c in CFG:
        deep = c["role"] == "client" and c["buf"]
        d = (4 if deep else 3) if tier == "quick" else (5 if deep else 4)
        for a in range(len(OPS)):
            us.append(dict(kind="hist", cfg=c, first=a, depth=d))
        us.append(dict(kind="jump", cfg=c))
        us.append(dict(kind="errors", cfg=c))
        us.append(dict(kind="shapes", cfg=c))
        if c["role"] == "client":
            w = dict(c, wanted=True)
            us.append(dict(kind="errors", cfg=w))
            us.append(dict(kind="shapes", cfg=w))
            for a in range(len(OPS)):
                us.append(dict(kind="hist", cfg=w, first=a, depth=d - 1))
        if not c["buf"]:
            us.insert(0, dict(kind="long", cfg=c, n=33100 if tier == "quick" else 140000))
    us += [dict(kind="snonce", role=r) for r in ("client", "server")]
    return us


class Side:
    """A real session with known keys, handshaken with scripted reference messages."""

    def __init__(self, cfg):
        self.loop, self.ch = sess.new_loop(), NCh()
        self.key = ref.shared(sess.A_ENC.sec, sess.B_ENC.pub)
        if cfg["role"] == "client":
            wanted = sess.B_SIG.pub if cfg.get("wanted") else None
            self.s = sess.client(self.ch, buf4=cfg["buf"], wanted=wanted)
            rs = ref.RefServer(sess.B_SIG, sess.B_ENC)
            self.ch.inbox = rs.feed(ref.m1(0, sess.A_ENC.pub, wanted))
            self.c0, self.rd = 1, 4
        else:
            rc = ref.RefClient(sess.A_SIG, sess.A_ENC)
            self.s = sess.server(self.ch, buf2=cfg["buf"])
            rs = ref.RefServer(sess.B_SIG, sess.B_ENC)
            m1 = rc.start()[0]
            m2, m3 = rs.feed(m1)
            rc.feed(m2)
            self.ch.inbox = [m1] + rc.feed(m3)
            self.c0, self.rd = 2, 3
        self.res = self.loop.call(self.s.handshake())
        self.app = self.s.app_channel
        self.nread = 0

    def packets(self):
        return self.ch.out[1:]


def do(ctx, x, op, i):
    ch, app, loop = x.ch, x.app, x.loop
    tag = b"%d-%s" % (i, op.encode())
    ch.mode = "ok"
    ctx.step()
    if op == "w1":
        r = loop.call(app.write(tag))
    elif op == "w2":
        r = loop.call(app.write(tag, b"second"))
    elif op == "wbig":
        r = loop.call(app.write(tag, bytes(65536), b"tail"))
    elif op == "wlast":
        r = loop.call(app.write(tag, is_last=True))
    elif op in ("fail1", "fail2"):
        ch.mode = "fail"
        r = loop.call(app.write(tag) if op == "fail1" else app.write(tag, bytes(65536)))
        ctx.check(r[0] == "exc", "write on a broken transport: %s", sess.show(r))
        return False
    elif op in ("cancel1", "cancel2"):
        ch.mode = "wait"
        r = loop.call(app.write(tag) if op == "cancel1" else app.write(tag, bytes(65536)))  # pending, then cancelled
        ch.waiting.clear()
        return False
    elif op == "conc":
        ch.mode = "wait"

        async def two():
            ts = [asyncio.ensure_future(app.write(tag + b"a")), asyncio.ensure_future(app.write(tag + b"b", b"c"))]
            for _ in range(50):
                await asyncio.sleep(0)
                while ch.waiting:
                    ch.waiting.pop().set_result(None)
                if all(t.done() for t in ts):
                    break
            await asyncio.gather(*ts)
        r = loop.call(two())
    elif op == "rd":
        ch.inbox.append(ref.seal(x.key, x.rd, ref.app(0, b"in")))
        x.rd += 2
        r = loop.call(app.read())
        ctx.check(r == ("ok", b"in"), "read: %s", sess.show(r))
        return True
    else:
        ch.inbox.append(ref.seal(x.key, x.rd + 2, ref.app(0, b"bad")))
        r = loop.call(app.read())
        ctx.check(r[0] == "exc", "bad read: %s", sess.show(r))
        return True
    ctx.check(r[0] == "ok", "%s: %s", op, sess.show(r))
    return True


def verdict(ctx, x, clean, upto=400):
    used = {}
    expect = x.c0
    for n, p in enumerate(x.packets()):
        c, clear = None, ref.unseal(x.key, expect, p)
        if clear is not None:
            c = expect
        else:
            c, clear = ref.find_counter(x.key, p, upto)
        ctx.check(clear is not None, "packet %d is not sealed under the session key with any counter below %d", n, upto)
        if clean:
            ctx.check(c == x.c0 + 2 * n, "packet %d uses counter %d instead of %d", n, c, x.c0 + 2 * n)
        ctx.check(c % 2 == x.c0 % 2 and c >= x.c0, "packet %d uses counter %d of the other direction", n, c)
        ctx.check(c not in used or used[c] == clear, "counter %d used for two plaintexts", c)
        used[c] = clear
        expect = c + 2
    return len(used)


def run_unit(u, ctx):
    if u["kind"] == "snonce":
        return run_snonce(u, ctx)
    cfg = u["cfg"]
    if u["kind"] == "hist":
        for rest in itertools.product(OPS, repeat=u["depth"] - 1):
            seq = (OPS[u["first"]],) + rest
            ctx.begin(dict(cfg=cfg, history=seq))
            x = Side(cfg)
            ctx.check(x.res[0] == "ok", "handshake: %s", sess.show(x.res))
            clean = True
            for i, op in enumerate(seq):
                clean = do(ctx, x, op, i) and clean
                verdict(ctx, x, clean) if i == len(seq) - 1 else None
            do(ctx, x, "w1", 99)
            n = verdict(ctx, x, clean)
            ctx.outcome("%d packets%s" % (n, "" if clean else ", with lost writes"))
            ctx.state(cfg, seq)
            x.loop.close()
        ctx.sample(ctx.case)
    elif u["kind"] == "long":
        x = Side(cfg)
        n = 0
        kept = x.ch.out
        ctx.begin(dict(cfg=cfg, long=u["n"]))
        exp = x.c0
        head = kept[1:]
        for p in head:
            ctx.check(ref.unseal(x.key, exp, p) is not None, "packet %d has another counter", n)
            exp, n = exp + 2, n + 1
        while n < u["n"]:
            x.ch.out.clear()
            if n % 1000 == 0:
                ctx.begin(dict(cfg=cfg, long=u["n"], at=n))
            r = x.loop.call(x.app.write(b"x"))
            ctx.check(r[0] == "ok", "write %d: %s", n, sess.show(r))
            for p in x.ch.out:
                ctx.check(ref.unseal(x.key, exp, p) is not None, "packet %d is not sealed with counter %d", n, exp)
                exp, n = exp + 2, n + 1
                ctx.step()
            if n % 97 == 0:
                x.ch.inbox.append(ref.seal(x.key, x.rd, ref.app(0, b"in")))
                x.rd += 2
                r = x.loop.call(x.app.read())
                ctx.check(r == ("ok", b"in"), "read at %d: %s", n, sess.show(r))
        ctx.state("long", cfg, n)
        ctx.outcome("long session")
    elif u["kind"] == "errors":
        errors(ctx, cfg)
    elif u["kind"] == "shapes":
        shapes(ctx, cfg)
    else:
        jump(ctx, cfg)


def errors(ctx, cfg):
    """Every kind of failure a transport may raise, in every one of the first writes, singly and repeatedly."""
    writes = [(b"one",), (b"two", b"three"), (b"four", bytes(65536)), (b"",), tuple(b"%d" % i for i in range(8)) + (bytes(65536),),
              (bytes(65536),) + tuple(b"%d" % i for i in range(20))]
    for e in ERRORS:
        cls = getattr(S, e) if isinstance(e, str) else e
        make = (lambda: cls(b"", 4)) if cls is asyncio.IncompleteReadError else (lambda: cls("broken"))
        for w, before, fails in itertools.product(range(len(writes)), range(3), (1, 2)):
            ctx.begin(dict(cfg=cfg, error=cls.__name__, write=w, before=before, fails=fails))
            x = Side(cfg)
            ctx.check(x.res[0] == "ok", "handshake: %s", sess.show(x.res))
            for i in range(before):
                do(ctx, x, "w1", i)
            x.ch.error = make
            for k in range(fails):
                x.ch.mode = "fail"

                async def failing():
                    try:
                        await x.app.write(*(b"%d" % k + m for m in writes[w]))
                    except BaseException as exc:
                        return exc
                r = x.loop.call(failing())
                ctx.check(r[0] == "ok" and r[1] is not None, "write on a broken transport: %s", sess.show(r))
                ctx.step()
            for i in range(3):
                do(ctx, x, ("w1", "wbig", "w2")[i], 10 + i)
            verdict(ctx, x, False)
            ctx.state("errors", cfg, cls.__name__, w, before, fails)
            x.loop.close()
    ctx.outcome("transport errors")


def shapes(ctx, cfg):
    """Writes of many packets at once, and direct use of the encrypting channel; no failures, so the sequence is exact."""
    big = bytes(65536)
    ws = [tuple(b"%d" % i for i in range(n)) + (big,) for n in (1, 2, 3, 15, 127, 128, 254, 255, 256, 300, 600)]
    ws += [tuple(b"%d" % i for i in range(n)) for n in (2, 255, 256, 257, 5000)] + [(b"",), (b"", b""), (b"", big), (big, b"")]
    ws += [tuple(b"" for i in range(65536))]
    for i, w in enumerate(ws):
        for last in (False, True):
            for direct in ((False, True) if len(w) < 5000 else (False,)):
                ctx.begin(dict(cfg=cfg, write=i, messages=len(w), last=last, direct=direct))
                x = Side(cfg)
                ctx.check(x.res[0] == "ok", "handshake: %s", sess.show(x.res))
                if direct:
                    do(ctx, x, "w1", 0)
                target = x.s.enc_channel if direct else x.app
                for k in range(2):
                    r = x.loop.call(target.write(*w, is_last=last))
                    ctx.check(r[0] == "ok", "write: %s", sess.show(r))
                    do(ctx, x, "w1", k)
                    do(ctx, x, "rd", k)
                n = verdict(ctx, x, True)
                ctx.step(n)
                ctx.state("shapes", cfg, i, last, direct)
                x.loop.close()
    ctx.outcome("many packets per write")


def jump(ctx, cfg):
    """Counters only reachable by enormous sessions: where the write counter is exposed as enc_channel.write_nonce.value and is
    seen to be the real counter, set it ahead. Skipped where the code keeps its counter in another way."""
    for k in list(range(8, 64)):
        ctx.begin(dict(cfg=cfg, jump=k))
        x = Side(cfg)
        nonce = getattr(x.s.enc_channel, "write_nonce", None)
        for i in range(3):
            v = getattr(nonce, "value", None)
            x.ch.out.clear()
            r = x.loop.call(x.app.write(b"x"))
            ctx.check(r[0] == "ok", "write: %s", sess.show(r))
            if v is None or any(ref.unseal(x.key, v + 2 * j, p) is None for j, p in enumerate(x.ch.out)):
                ctx.outcome("counter not exposed")
                return
        old = nonce.value
        target = (1 << k) - 4 + x.c0 % 2
        try:
            nonce.value = target
        except Exception:
            ctx.outcome("counter not settable")
            return
        for i in range(4):
            x.ch.out.clear()
            r = x.loop.call(x.app.write(b"y%d" % i))
            ctx.check(r[0] == "ok", "write at counter 2^%d: %s", k, sess.show(r))
            ctx.step()
            p = x.ch.out[0]
            if ref.unseal(x.key, old + 2 * i, p) is not None:
                ctx.outcome("counter not settable")
                return
            ctx.check(ref.unseal(x.key, target + 2 * i, p) is not None, "counter %d is not encoded as prescribed", target + 2 * i)
        ctx.state("jump", cfg, k)
        ctx.outcome("boundary 2^%d" % k)


def snonces():
    out = [bytes(8), b"\xff" * 8, bytes(range(1, 9)), bytes(range(8, 0, -1))]
    for i in range(8):
        out += [bytes(i) + bytes([v]) + bytes(7 - i) for v in (1, 2, 0x80, 0xff)]
    return out


def run_snonce(u, ctx):
    """Encrypted channels that share a key under distinct session nonces."""
    key, me = bytes(range(32)), u["role"]
    R = {"client": S.Role.CLIENT, "server": S.Role.SERVER}
    first = {"client": 1, "server": 2}
    other = "server" if me == "client" else "client"

    def full(counter, sn):
        return counter.to_bytes(8, "little") + sn + bytes(8)

    def made(counter, sn, clear):
        return bytes([6, 0]) + ref.nb.crypto_box_afternm(clear, full(counter, sn), key)
    used, sns = {}, snonces()
    for sn in sns:
        ctx.begin(dict(unit="snonce", role=me, sn=sn))
        loop, ch = sess.new_loop(), NCh()
        e = S.EncChannel(ch, key, R[me], session_nonce=sn)
        k = 0
        for msgs in ((b"a",), (b"b", b"", b"c" * 300), (b"d",)):
            ch.out.clear()
            r = loop.call(e.write(*msgs))
            ctx.check(r[0] == "ok" and len(ch.out) == len(msgs), "write: %s", sess.show(r))
            for m, p in zip(msgs, ch.out):
                n = full(first[me] + 2 * k, sn)
                try:
                    got = ref.nb.crypto_box_open_afternm(p[2:], n, key)
                except Exception:
                    got = None
                ctx.check(got == m, "packet %d under session nonce %s is not encrypted under counter %d", k, sn.hex(), first[me] + 2 * k)
                ctx.check(n not in used, "nonce %s used twice", n.hex())
                used[n] = m
                k += 1
                ctx.step()
        for sn2 in sns:                       # packets under any other session nonce are refused, its own accepted
            for who in (me, other):
                for c in (0, 1):
                    if sn2 == sn and who == other and c == 0:
                        continue
                    ch.inbox[:] = [made(first[who] + 2 * c, sn2, b"evil")]
                    r = loop.call(e.read())
                    ctx.check(sess.is_badpeer(r), "packet %d of a %s under session nonce %s read under %s: %s", c, who, sn2.hex(), sn.hex(), sess.show(r))
                    ctx.step()
        ch.inbox[:] = [made(first[other], sn, b"good"), made(first[other] + 2, sn, b"next")]
        r = loop.call(e.read()), loop.call(e.read())
        ctx.check(r == (("ok", b"good"), ("ok", b"next")), "own packets: %s %s", sess.show(r[0]), sess.show(r[1]))
        ctx.state("snonce", me, sn)
        loop.drop()
    ctx.outcome("session nonces")
