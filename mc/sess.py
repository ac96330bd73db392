"""Key material, session construction and standard runs shared by the property modules."""
import asyncio
import itertools

from . import ref
from .env import S
from .loop import MCLoop, Net, new_loop, channel_classes, Deadlock, call_sync  # noqa: F401

ScriptChannel = MCChannel = None


def setup():
    global ScriptChannel, MCChannel
    if ScriptChannel is None:
        ScriptChannel, MCChannel = channel_classes()


A_SIG, B_SIG, E_SIG, C_SIG = (ref.named_sig(x) for x in "ABEC")
A_ENC, B_ENC, E_ENC, C_ENC = (ref.named_enc(x) for x in "abec")
A2_ENC, B2_ENC = ref.named_enc("a2"), ref.named_enc("b2")


_special = {}


def special():
    """Key pairs whose public keys (or agreed keys with A_ENC) start or end with bytes that careless code strips or misreads."""
    if not _special:
        sv, ev = (0, 0x0a, 0x20, 0xff), (0, 0x0a, 0x20, 0x7f)
        _special["sig"] = ([ref.named_sig("f%02x" % v, lambda k, v=v: k.pub[0] == v) for v in sv] +
                           [ref.named_sig("l%02x" % v, lambda k, v=v: k.pub[31] == v) for v in sv])
        _special["enc"] = ([ref.named_enc("f%02x" % v, lambda k, v=v: k.pub[0] == v) for v in sv] +
                           [ref.named_enc("l%02x" % v, lambda k, v=v: k.pub[31] == v) for v in ev] +
                           [ref.named_enc("s0", lambda k: ref.shared(A_ENC.sec, k.pub)[0] == 0),
                            ref.named_enc("s31", lambda k: ref.shared(A_ENC.sec, k.pub)[31] == 0)])
    return _special


def kp(k):
    return S.KeyPair(sec=k.sec, pub=k.pub)


def client(ch, sig=A_SIG, enc=A_ENC, buf4=False, wanted=None, tk=None, tc=None, loop=None):
    s = S.Client(kp(sig), ch, loop=loop) if loop is not None else S.Client(kp(sig), ch)
    s.enc_keypair = kp(enc)
    s.buffer_M4 = buf4
    if wanted is not None:
        s.wanted_server_sig_key = wanted
    if tk is not None:
        s.time_keeper = tk
    if tc is not None:
        s.time_checker = tc
    return s


def server(ch, sig=B_SIG, enc=B_ENC, buf2=False, tk=None, tc=None, a2=None, loop=None):
    s = S.Server(kp(sig), ch, loop=loop) if loop is not None else S.Server(kp(sig), ch)
    s.enc_keypair = kp(enc)
    s.buffer_m2 = buf2
    if tk is not None:
        s.time_keeper = tk
    if tc is not None:
        s.time_checker = tc
    if a2 is not None:
        s.a2 = a2
    return s


def exc_name(e):
    return type(e).__name__


def show(res):
    return "%s %s" % (res[0], ("%s: %s" % (type(res[1]).__name__, res[1])) if res[0] == "exc" else
                      (res[1].hex()[:80] if isinstance(res[1], bytes) else repr(res[1])[:120]))


def is_com(res):
    return res[0] == "exc" and isinstance(res[1], S.ComException)


def is_badpeer(res):
    return res[0] == "exc" and isinstance(res[1], S.BadPeer)


def flip(b, bit):
    x = bytearray(b)
    x[bit >> 3] ^= 1 << (bit & 7)
    return bytes(x)


class RefPeerChannel:
    """Factory of a ScriptChannel whose other end is a reference endpoint; refusals of the reference end are kept."""

    @staticmethod
    def make(peer, inbox=(), loop=None):
        setup()
        errors = []

        def feed(msgs):
            r = []
            for m in msgs:
                try:
                    r.extend(peer.feed(m))
                except ValueError as e:
                    errors.append(str(e))
            return r
        ch = ScriptChannel(inbox=inbox, feed=feed, loop=loop)
        ch.errors, ch.refpeer = errors, peer
        return ch


class RealClient:
    """A client session of the code under test, handshaken with a RefServer; .ch is its transport, .ref the peer."""

    def __init__(self, buf4=False, wanted=None, sig=A_SIG, enc=A_ENC, psig=B_SIG, penc=B_ENC, tk=None, tc=None, loop=None):
        setup()
        self.loop = loop or new_loop()
        self.ref = ref.RefServer(psig, penc)
        self.ch = RefPeerChannel.make(self.ref)
        self.s = client(self.ch, sig, enc, buf4, wanted, tk, tc)
        self.res = self.loop.call(self.s.handshake())
        self.app = self.s.app_channel
        self.sig = sig
        self.key = ref.shared(enc.sec, penc.pub)

    def call(self, coro):
        return self.loop.call(coro)


class RealServer:
    """A server session of the code under test, handshaken with a RefClient."""

    def __init__(self, buf2=False, sig=B_SIG, enc=B_ENC, psig=A_SIG, penc=A_ENC, wanted=None, tk=None, tc=None, loop=None):
        setup()
        self.loop = loop or new_loop()
        self.ref = ref.RefClient(psig, penc, wanted=wanted)
        self.ch = RefPeerChannel.make(self.ref, inbox=self.ref.start())
        self.s = server(self.ch, sig, enc, buf2, tk, tc)
        self.res = self.loop.call(self.s.handshake())
        self.app = self.s.app_channel
        self.sig = sig
        self.key = ref.shared(enc.sec, penc.pub)

    def call(self, coro):
        return self.loop.call(coro)


class Pair:
    """Real client and real server joined by message queues, with a driver for scripted (deterministic) runs."""

    def __init__(self, buf2=False, buf4=False, wanted=None, csig=A_SIG, cenc=A_ENC, ssig=B_SIG, senc=B_ENC,
                 ctk=None, ctc=None, stk=None, stc=None, drain=False, loop=None, net=None, tag=""):
        setup()
        self.net = net or Net()
        self.loop = loop or new_loop()
        if loop is None:
            self.loop.idle = self._fifo
        self.cch, self.sch = MCChannel(self.net, tag + "C", drain), MCChannel(self.net, tag + "S", drain)
        self.net.pipe(self.cch, self.sch)
        self.c = client(self.cch, csig, cenc, buf4, wanted, ctk, ctc)
        self.s = server(self.sch, ssig, senc, buf2, stk, stc)
        self.key = ref.shared(cenc.sec, senc.pub)
        self.buf4 = buf4

    def _fifo(self):
        en = self.net.enabled()
        if en:
            self.net.complete(en[0])
        return bool(en)

    async def _both(self, *coros):
        return await asyncio.gather(*coros, return_exceptions=True)

    def handshake(self, first_msg=b"first"):
        """-> (client result, server result) as exceptions or None. With a buffered M4 the client's first write
        completes the server's handshake; first_msg is then written (and left to be read)."""
        async def cl():
            await self.c.handshake()
            if self.buf4 and first_msg is not None:
                await self.c.app_channel.write(first_msg)
        r = self.loop.call(self._both(cl(), self.s.handshake()))
        return r

    def call(self, coro):
        return self.loop.call(coro)


def configs():
    """All handshake configurations: (buf2, buf4, wanted)."""
    return [dict(buf2=a, buf4=b, wanted=w) for a, b, w in itertools.product((False, True), repeat=3)]
