"""Independent reference implementation of Salt Channel v2 messages, key schedule and endpoints.

Uses only struct, hashlib and nacl.bindings; shares no code with /repo. It is the oracle for bytes on the wire and it plays
conforming and malicious peers.
"""
import hashlib
import struct
from collections import namedtuple

from nacl import bindings as nb

KP = namedtuple("KP", "sec pub")
SIG1, SIG2 = b"SC-SIG01", b"SC-SIG02"
T_M1, T_M2, T_M3, T_M4, T_APP, T_ENC, T_A1, T_A2, T_MULTI = 1, 2, 3, 4, 5, 6, 8, 9, 11


# ---------------------------------------------------------------- keys
def sig_keys(seed):
    pub, sec = nb.crypto_sign_seed_keypair(seed)
    return KP(sec, pub)


def enc_keys(sec):
    return KP(sec, nb.crypto_scalarmult_base(sec))


def _seed(label, i=0):
    return hashlib.sha256(("%s/%d" % (label, i)).encode()).digest()


_cache = {}


def named_sig(label, pred=None):
    k = ("s", label)
    if k not in _cache:
        i = 0
        while True:
            kp = sig_keys(_seed("sig-" + label, i))
            if pred is None or pred(kp):
                break
            i += 1
        _cache[k] = kp
    return _cache[k]


def named_enc(label, pred=None):
    k = ("e", label)
    if k not in _cache:
        i = 0
        while True:
            kp = enc_keys(_seed("enc-" + label, i))
            if pred is None or pred(kp):
                break
            i += 1
        _cache[k] = kp
    return _cache[k]


def shared(my_sec, peer_pub):
    return nb.crypto_box_beforenm(peer_pub, my_sec)


def h(m):
    return hashlib.sha512(m).digest()


def sign(prefix, h1, h2, sec):
    return nb.crypto_sign(prefix + h1 + h2, sec)[:64]


def verify(sig, msg, pub):
    try:
        return nb.crypto_sign_open(sig + msg, pub) == msg
    except Exception:
        return False


# ---------------------------------------------------------------- packets
def m1(time, cpub, server=None, flags=None):
    f = (1 if server else 0) if flags is None else flags
    return b"SCv2" + bytes([T_M1, f]) + struct.pack("<I", time) + cpub + (server or b"")


def m2(time, spub, nosuch=False, last=False, flags=None):
    f = ((1 if nosuch else 0) | (0x80 if last else 0)) if flags is None else flags
    return bytes([T_M2, f]) + struct.pack("<I", time) + spub


def m3(time, sigpub, sig, typ=T_M3, flags=0):
    return bytes([typ, flags]) + struct.pack("<I", time) + sigpub + sig


def m4(time, sigpub, sig, typ=T_M4, flags=0):
    return bytes([typ, flags]) + struct.pack("<I", time) + sigpub + sig


def app(time, data, flags=0):
    return bytes([T_APP, flags]) + struct.pack("<I", time) + data


def multi(time, msgs, count=None, flags=0):
    return (bytes([T_MULTI, flags]) + struct.pack("<IH", time, len(msgs) if count is None else count)
            + b"".join(struct.pack("<H", len(m)) + m for m in msgs))


def a1(atype=0, addr=b"", size=None, flags=0):
    return bytes([T_A1, flags, atype]) + struct.pack("<H", len(addr) if size is None else size) + addr


def a2(prots=(), nosuch=False, last=True, count=None):
    n = len(prots) if count is None else count
    return bytes([T_A2, (1 if nosuch else 0) | (0x80 if last else 0), n & 0xff]) + b"".join(p + q for p, q in prots)


DEFAULT_PROTS = ((b"SCv2------", b"----------"),)


def nonce(counter, session_nonce=bytes(8)):
    return struct.pack("<Q", counter) + session_nonce + bytes(8)


def seal(key, counter, clear, last=False, typ=T_ENC, flags=None):
    f = (0x80 if last else 0) if flags is None else flags
    return bytes([typ, f]) + nb.crypto_box_afternm(clear, nonce(counter), key)


def unseal(key, counter, pkt):
    """-> plaintext or None"""
    if len(pkt) < 18 or pkt[0] != T_ENC:
        return None
    try:
        return nb.crypto_box_open_afternm(pkt[2:], nonce(counter), key)
    except Exception:
        return None


def find_counter(key, pkt, upto=64):
    for c in range(0, upto):
        p = unseal(key, c, pkt)
        if p is not None:
            return c, p
    return None, None


def last_flag(pkt):
    return bool(pkt[1] & 0x80)


# ---------------------------------------------------------------- strict parsers: dict | None (must be rejected)
# A parser returns None where the protocol requires rejection. 'lax' in the result marks inputs whose acceptance the
# protocol leaves open (trailing bytes, reserved bits): an implementation may accept with these values or reject.
def p_m1(b):
    if len(b) < 42 or b[:4] != b"SCv2" or b[4] != T_M1:
        return None
    inc = b[5] & 1
    if inc and len(b) < 74:
        return None
    lax = len(b) != (74 if inc else 42) or (b[5] & 0xfe) != 0
    return dict(time=struct.unpack("<I", b[6:10])[0], ckey=b[10:42], server=b[42:74] if inc else None, flag=inc, lax=lax)


def p_m2(b):
    if len(b) < 38 or b[0] != T_M2:
        return None
    return dict(time=struct.unpack("<I", b[2:6])[0], skey=b[6:38], nosuch=b[1] & 1, last=b[1] >> 7,
                lax=len(b) != 38 or (b[1] & 0x7e) != 0 or (b[1] & 1 and not b[1] & 0x80))


def p_m34(b, typ):
    if len(b) < 102 or b[0] != typ:
        return None
    return dict(time=struct.unpack("<I", b[2:6])[0], key=b[6:38], sig=b[38:102], lax=len(b) != 102 or b[1] != 0)


def p_enc(b):
    if len(b) < 18 or b[0] != T_ENC:
        return None
    return dict(body=b[2:], last=b[1] >> 7, lax=(b[1] & 0x7f) != 0)


def p_app(b):
    if len(b) < 6 or b[0] != T_APP:
        return None
    return dict(time=struct.unpack("<I", b[2:6])[0], data=b[6:], lax=b[1] != 0)


def p_multi(b):
    if len(b) < 8 or b[0] != T_MULTI:
        return None
    t, n = struct.unpack("<IH", b[2:8])
    if n < 1:
        return None
    off, msgs = 8, []
    for _ in range(n):
        if off + 2 > len(b):
            return None
        ln = struct.unpack("<H", b[off:off + 2])[0]
        off += 2
        if off + ln > len(b):
            return None
        msgs.append(b[off:off + ln])
        off += ln
    return dict(time=t, count=n, msgs=msgs, lax=off != len(b) or b[1] != 0)


_OKCH = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-./_")


def p_a1(b):
    if len(b) < 5 or b[0] != T_A1:
        return None
    t, n = b[2], struct.unpack("<H", b[3:5])[0]
    if n != len(b) - 5 or t not in (0, 1) or (t == 0 and n) or (t == 1 and n != 32):
        return None
    return dict(type=t, size=n, addr=b[5:], lax=b[1] != 0)


def p_a2(b):
    if len(b) < 3 or b[0] != T_A2:
        return None
    nosuch, last, count = b[1] & 1, b[1] >> 7, b[2]
    if not last or count > 127:
        return None
    n = (len(b) - 3) // 20
    if n != count or (nosuch and count):
        return None
    prots = [(b[3 + 20 * i:13 + 20 * i], b[13 + 20 * i:23 + 20 * i]) for i in range(n)]
    if any(c not in _OKCH for p in prots for s in p for c in s):
        return None
    return dict(nosuch=nosuch, last=last, count=count, prots=prots, lax=(len(b) - 3) % 20 != 0 or (b[1] & 0x7e) != 0)


def p_app_any(b):
    """Plaintext of an established session: (time, [messages], lax) or None."""
    if not b:
        return None
    if b[0] == T_APP:
        r = p_app(b)
        return r and (r["time"], [r["data"]], r["lax"])
    r = p_multi(b)
    return r and (r["time"], r["msgs"], r["lax"])


# ---------------------------------------------------------------- endpoints
class RefServer:
    """Message-driven conforming server; feed(m) -> list of answers. Raises ValueError on what it must reject."""

    def __init__(self, sig, enc, first_time=0, t3=0):
        self.sig, self.enc, self.first_time, self.t3 = sig, enc, first_time, t3
        self.state, self.rd, self.wr = "m1", 1, 2
        self.client_sig_key, self.got, self.last = None, [], None

    def feed(self, m):
        if self.state == "m1":
            p = p_m1(m)
            if not p:
                raise ValueError("bad M1")
            self.m1p = p
            if p["server"] is not None and p["server"] != self.sig.pub:
                self.state = "dead"
                return [m2(self.first_time, bytes(32), nosuch=True, last=True)]
            self.key = shared(self.enc.sec, p["ckey"])
            mm2 = m2(self.first_time, self.enc.pub)
            self.h1, self.h2 = h(m), h(mm2)
            s = sign(SIG1, self.h1, self.h2, self.sig.sec)
            self.state = "m4"
            return [mm2, self._seal(m3(self.t3, self.sig.pub, s))]
        c = unseal(self.key, self.rd, m)
        if c is None:
            raise ValueError("cannot decrypt in state " + self.state)
        self.rd += 2
        if self.state == "m4":
            p = p_m34(c, T_M4)
            if not p or len(c) != 102 or not verify(p["sig"], SIG2 + self.h1 + self.h2, p["key"]):
                raise ValueError("bad M4")
            self.m4p, self.client_sig_key, self.state = p, p["key"], "open"
            return []
        r = p_app_any(c)
        if not r:
            raise ValueError("bad app packet")
        self.got.extend(r[1])
        self.last = last_flag(m)
        return []

    def _seal(self, clear, last=False):
        r = seal(self.key, self.wr, clear, last)
        self.wr += 2
        return r

    def app(self, *msgs, last=False, time=0):
        return self._seal(app(time, msgs[0]) if len(msgs) == 1 else multi(time, msgs), last)


class RefClient:
    def __init__(self, sig, enc, first_time=0, wanted=None, t4=0):
        self.sig, self.enc, self.first_time, self.wanted, self.t4 = sig, enc, first_time, wanted, t4
        self.state, self.rd, self.wr = "m2", 2, 1
        self.got, self.last, self.server_sig_key = [], None, None

    def start(self):
        self.m1 = m1(self.first_time, self.enc.pub, self.wanted)
        return [self.m1]

    def feed(self, m):
        if self.state == "m2":
            p = p_m2(m)
            if not p:
                raise ValueError("bad M2")
            if p["nosuch"]:
                self.state = "nosuch"
                return []
            self.m2p = p
            self.key = shared(self.enc.sec, p["skey"])
            self.h1, self.h2 = h(self.m1), h(m)
            self.state = "m3"
            return []
        c = unseal(self.key, self.rd, m)
        if c is None:
            raise ValueError("cannot decrypt in state " + self.state)
        self.rd += 2
        if self.state == "m3":
            p = p_m34(c, T_M3)
            if not p or len(c) != 102 or not verify(p["sig"], SIG1 + self.h1 + self.h2, p["key"]):
                raise ValueError("bad M3")
            if self.wanted and p["key"] != self.wanted:
                raise ValueError("wrong server")
            self.m3p, self.server_sig_key, self.state = p, p["key"], "open"
            s = sign(SIG2, self.h1, self.h2, self.sig.sec)
            return [self._seal(m4(self.t4, self.sig.pub, s))]
        r = p_app_any(c)
        if not r:
            raise ValueError("bad app packet")
        self.got.extend(r[1])
        self.last = last_flag(m)
        return []

    _seal = RefServer._seal
    app = RefServer.app
