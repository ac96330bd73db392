"""C09: malformed input to every packet parser against strict reference parsers."""
import itertools
import struct

from .. import pk, ref, sess
from ..env import S
from . import c08

STRUCT_BYTES = [0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 0x20, 0x2d, 0x53, 0x7f, 0x80, 0x81, 0xff]
BOUNDS = {
    "quick": "9 packet types x (all truncations, all 256 substitutions of every byte of 3 valid packets, extensions, every packet of the "
             "other types, all byte strings of length <= 2, all strings of length 3 and 4 over a 17-byte alphabet, all small "
             "MultiApp count/length/size combinations, all A1 types and sizes, all A2 counts and all single bytes in protocol strings)",
    "thorough": "as quick plus all byte strings of length 3, length 5 over the alphabet, all pairs of substitutions in packet headers"
}


def setup():
    sess.setup()


def units(tier):
    us = [dict(kind=k, pkt=p) for p in pk.KINDS for k in ("mutate", "short")]
    us += [dict(kind="multi", pkt="MULTI"), dict(kind="a1", pkt="A1"), dict(kind="a2", pkt="A2")]
    if tier == "thorough":
        us += [dict(kind="short3", pkt=p, hi=h) for p in pk.KINDS for h in range(0, 256, 64)]
        us += [dict(kind="pairs", pkt=p) for p in pk.KINDS]
    return us


def one(ctx, kind, b, what):
    exp = pk.refparse(kind, b)
    ctx.step(2)
    ctx.rearm()
    for how in ("constructor", "from_bytes"):
        try:
            if how == "constructor":
                o = pk.cls(kind)(src_buf=b)
            else:
                o = pk.cls(kind)()
                o.from_bytes(b)
            got = pk.fields(kind, o)
        except S.BadPeer:
            got = None
        except Exception as e:
            ctx.fail("%s of %s: %s raises %s: %s" % (kind, b.hex()[:200], how, type(e).__name__, e))
        if exp is None:
            ctx.check(got is None, "malformed %s accepted by %s (%s): %s read as %r", kind, how, what, b.hex()[:200], got)
        elif got is None:
            ctx.check(exp[1], "well-formed %s rejected by %s (%s): %s", kind, how, what, b.hex()[:200])
        else:
            ctx.check(got == exp[0], "%s misread by %s (%s): %s gives %r instead of %r", kind, how, what, b.hex()[:200], got, exp[0])
    ctx.outcome("%s %s" % (kind, "rejected" if exp is None else "open" if exp[1] else "accepted"))
    ctx.state(kind, b[:120], len(b))


def run_unit(u, ctx):
    kind = u["pkt"]
    bases = [pk.refbytes(kind, f) for f in c08.SMALL[kind]]
    if "time" in c08.SMALL[kind][0]:
        bases += [pk.refbytes(kind, dict(c08.SMALL[kind][0], time=t)) for t in (0, 0xffffffff)]
    if u["kind"] == "mutate":
        for n, b in enumerate(bases):
            for i in range(len(b) + 1):
                ctx.begin(dict(packet=kind, base=n, cut=i))
                one(ctx, kind, b[:i], "cut to %d" % i)
                ctx.begin(dict(packet=kind, base=n, head=i))
                one(ctx, kind, b[i:], "first %d bytes missing" % i)
            for i in range(len(b)):
                vals = range(256) if i < 48 else (0, 1, 0x0a, 0x20, 0x2d, 0x7f, 0x80, 0xff, b[i] ^ 1)
                for v in vals:
                    ctx.begin(dict(packet=kind, base=n, byte=i, value=v))
                    one(ctx, kind, b[:i] + bytes([v]) + b[i + 1:], "byte %d = %#x" % (i, v))
            for i in range(len(b)):
                ctx.begin(dict(packet=kind, base=n, removed=i))
                one(ctx, kind, b[:i] + b[i + 1:], "byte %d missing" % i)
                ctx.begin(dict(packet=kind, base=n, doubled=i))
                one(ctx, kind, b[:i] + b[i:i + 1] + b[i:], "byte %d doubled" % i)
            for x in range(1, 45):
                ctx.begin(dict(packet=kind, base=n, extended=x))
                one(ctx, kind, b + bytes(x), "extended by %d" % x)
        for other in pk.KINDS:
            for f in c08.SMALL[other]:
                ctx.begin(dict(packet=kind, input_is=other))
                one(ctx, kind, pk.refbytes(other, f), "a " + other)
        for t in range(256):
            for b in bases:
                ctx.begin(dict(packet=kind, type=t))
                i = 4 if kind == "M1" else 0
                one(ctx, kind, b[:i] + bytes([t]) + b[i + 1:], "type %d" % t)
        ctx.sample(ctx.case)
    elif u["kind"] == "short":
        ctx.begin(dict(packet=kind, short="all up to 2"))
        one(ctx, kind, b"", "empty")
        for n in (1, 2):
            for t in itertools.product(range(256), repeat=n):
                if n == 2 and t[1] not in STRUCT_BYTES and t[0] not in STRUCT_BYTES:
                    continue
                ctx.executions += 1
                one(ctx, kind, bytes(t), "short")
        pre = b"SCv2" if kind == "M1" else b""
        for n in (3, 4) if not ctx.thorough else (3, 4, 5):
            ctx.begin(dict(packet=kind, short=n))
            for t in itertools.product(STRUCT_BYTES, repeat=n):
                if n >= 4 and t[0] != bases[0][len(pre)] and t[1] not in (0, 0x80):
                    continue
                ctx.executions += 1
                one(ctx, kind, pre + bytes(t), "short")
    elif u["kind"] == "short3":
        for a in range(u["hi"], u["hi"] + 64):
            ctx.begin(dict(packet=kind, short3=a))
            for b in range(256):
                for c in STRUCT_BYTES:
                    ctx.executions += 1
                    one(ctx, kind, bytes((a, b, c)), "short")
    elif u["kind"] == "pairs":
        for n, b in enumerate(bases):
            hd = min(len(b), 12)
            for i, j in itertools.combinations(range(hd), 2):
                ctx.begin(dict(packet=kind, base=n, pairs=[i, j]))
                for v in STRUCT_BYTES:
                    for w in STRUCT_BYTES:
                        x = bytearray(b)
                        x[i], x[j] = v, w
                        ctx.executions += 1
                        one(ctx, kind, bytes(x), "bytes %d,%d" % (i, j))
    elif u["kind"] == "multi":
        lens = (0, 1, 2, 3, 5, 0x100, 0xfffe, 0xffff)
        for count in (0, 1, 2, 3, 4, 255, 256, 257, 0x7fff, 0x8000, 0xffff):
            for n in range(0, 4):
                for ls in itertools.product(lens, repeat=n):
                    ctx.begin(dict(packet=kind, count=count, lengths=ls))
                    full = b"".join(struct.pack("<H", l) + bytes([65 + i]) * (l if l < 10 else 0) for i, l in enumerate(ls))
                    for cut in range(max(0, len(full) - 6), len(full) + 1):
                        one(ctx, kind, bytes([11, 0, 1, 2, 3, 4]) + struct.pack("<H", count) + full[:cut], "multi structure")
                        one(ctx, kind, bytes([11, 0, 0, 0, 0, 0]) + struct.pack("<H", count) + full[:cut], "multi structure")
                    one(ctx, kind, bytes([11, 0, 1, 2, 3, 4]) + struct.pack("<H", count) + full + b"\0", "multi structure + 1")
                    one(ctx, kind, bytes([11, 0, 1, 2, 3, 4]) + struct.pack("<H", count) + full + b"\1\0\7", "multi structure + 3")
    elif u["kind"] == "a1":
        for t in range(256):
            for size in (0, 1, 2, 31, 32, 33, 64, 255, 256, 288, 0x2000, 0xffff):
                for n in (0, 1, 31, 32, 33, 64):
                    ctx.begin(dict(packet=kind, type=t, size=size, bytes=n))
                    one(ctx, kind, bytes([8, 0, t]) + struct.pack("<H", size) + bytes(range(n)), "a1 structure")
        for n in (65535, 65536, 65537, 65568, 65567, 65569):
            for t in (0, 1, 2):
                ctx.begin(dict(packet=kind, type=t, bytes=n))
                one(ctx, kind, bytes([8, 0, t]) + struct.pack("<H", n & 0xffff) + bytes(n), "a1 structure, size field wraps")
                one(ctx, kind, bytes([8, 0, t]) + struct.pack("<H", 32) + bytes(n), "a1 long address")
    else:
        for fl in range(256):
            for count in (0, 1, 2, 3, 126, 127, 128, 129, 254, 255):
                for n in (0, 1, 2, 3, 127, 128):
                    for extra in (0, 1, 19):
                        ctx.begin(dict(packet=kind, flags=fl, count=count, prots=n, extra=extra))
                        one(ctx, kind, bytes([9, fl, count]) + (b"SCv2------" + b"ECHO------") * n + b"-" * extra, "a2 structure")
        for pos in range(20):
            for v in range(256):
                for idx in (0, 1):
                    ctx.begin(dict(packet=kind, prot=idx, position=pos, char=v))
                    s = bytearray(b"SCv2------ECHO------" * 2)
                    s[20 * idx + pos] = v
                    one(ctx, kind, bytes([9, 0x80, 2]) + bytes(s), "protocol string")
        for cp in (0xe9, 0x100, 0x3b1, 0x660, 0x4e2d, 0x1d7d8):     # letters and digits beyond ASCII
            e = chr(cp).encode()
            for pos in range(10 - len(e) + 1):
                ctx.begin(dict(packet=kind, codepoint=cp, position=pos))
                s = b"-" * pos + e + b"-" * (10 - len(e) - pos)
                one(ctx, kind, bytes([9, 0x80, 1]) + s + b"----------", "protocol string")
