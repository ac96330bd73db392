"""C08: layout, sizes, round trips and independence of packet objects."""
import itertools

from .. import pk, ref, sess
from ..env import S

TIMES = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x01020304, 0x7badf00d, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
K32 = [bytes(32), b"\xff" * 32, bytes(range(32)), bytes(range(255, 223, -1)), b"\x80" + bytes(31), bytes(31) + b"\x01", b" \n" * 16]
K64 = [bytes(64), b"\xff" * 64, bytes(range(64)), b"\x01" + bytes(63), bytes(63) + b"\x80"]
OK_CH = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-./_"
BOUNDS = {
    "quick": "per packet type the product of boundary values of every field (15+32 times, 7 key patterns plus every single bit, every "
             "payload length 0..600 and boundaries to 2^20, 1..65535 embedded messages, 0..127 protocols with every allowed character); "
             "object histories of length 2 over all 81 type pairs, length 3 within a type; objects that parse well-formed bytes after any truncated or foreign ones",
    "thorough": "payload lengths 0..5000, 0..2^24 at powers of two; object histories of length 3 over all type pairs"
}


def setup():
    sess.setup()


def pat(n, s=0):
    return bytes((i * 31 + s + n) & 0xff for i in range(min(n, 509))) * (n // 509 + 1) if n > 509 else bytes((i * 31 + s + n) & 0xff for i in range(n))


def body(n, s=0):
    return pat(n, s)[:n]


def lengths(thorough):
    hi = 5000 if thorough else 600
    ls = set(range(hi + 1))
    for k in range(8, 25 if thorough else 21):
        ls |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    return sorted(ls | {65529, 65530, 65534, 65535, 65536, 65537})


def values(kind, thorough):
    times = TIMES + [1 << i for i in range(32)]
    bits = [sess.flip(bytes(32), i) for i in range(256)]
    if kind == "M1":
        for t in times:
            for k in K32:
                for s in [None] + K32:
                    yield dict(time=t, ckey=k, server=s)
        for b in bits:
            yield dict(time=5, ckey=b, server=None)
            yield dict(time=5, ckey=K32[2], server=b)
    elif kind == "M2":
        for t in times:
            for k in K32:
                for n in (0, 1):
                    for l in (0, 1):
                        yield dict(time=t, skey=k, nosuch=n, last=l)
        for b in bits:
            yield dict(time=5, skey=b, nosuch=0, last=0)
    elif kind in ("M3", "M4"):
        for t in times:
            for k in K32:
                for s in K64:
                    yield dict(time=t, key=k, sig=s)
        for b in bits:
            yield dict(time=5, key=b, sig=K64[0])
        for i in range(512):
            yield dict(time=5, key=K32[0], sig=sess.flip(bytes(64), i))
    elif kind == "ENC":
        for n in lengths(thorough):
            if n >= 16:
                for l in (0, 1):
                    yield dict(body=body(n), last=l)
        for n in (16, 17, 40):
            for v in (0, 0xff, 0x0a, 0x20):
                yield dict(body=bytes([v]) * n, last=0)
    elif kind == "APP":
        for t in times:
            for n in (0, 1, 7):
                yield dict(time=t, data=body(n))
        for n in lengths(thorough):
            yield dict(time=n, data=body(n))
        for v in range(256):
            yield dict(time=v, data=bytes([v]))
            yield dict(time=v, data=bytes([v]) * 3)
    elif kind == "MULTI":
        for t in times:
            yield dict(time=t, msgs=(b"a", b""))
        for ls in itertools.product((0, 1, 2, 255, 256, 65535), repeat=3):
            for n in (1, 2, 3):
                yield dict(time=3, msgs=tuple(body(x, i) for i, x in enumerate(ls[:n])))
        for n in [1, 2, 3, 10, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65534, 65535]:
            yield dict(time=n, msgs=tuple(body(i % 5, i) for i in range(n)))
        for n in lengths(thorough):
            if n <= 65535:
                yield dict(time=n, msgs=(body(n), b"end"))
    elif kind == "A1":
        yield dict(type=0, addr=b"")
        for k in K32 + bits:
            yield dict(type=1, addr=k)
    else:
        yield dict(nosuch=1, prots=())
        for n in range(128):
            yield dict(nosuch=0, prots=tuple((b"SCv2------", b"P%03d------" % i) for i in range(n)))
        for ch in OK_CH:
            for pos in range(10):
                s = b"-" * pos + bytes([ch]) + b"-" * (9 - pos)
                yield dict(nosuch=0, prots=((s, b"x" * 10),))
                yield dict(nosuch=0, prots=((b"x" * 10, s),))


def units(tier):
    us = [dict(kind="values", pkt=k, part=i) for k in pk.KINDS for i in range(4)]
    for a in pk.KINDS:
        for b in pk.KINDS:
            us.append(dict(kind="objects", a=a, b=b, depth=3 if (a == b or tier == "thorough") else 2))
    us.append(dict(kind="keypair"))
    us += [dict(kind="reserved", pkt=k) for k in pk.KINDS]
    us += [dict(kind="structs", a=a) for a in pk.KINDS]
    us += [dict(kind="recover", pkt=k) for k in pk.KINDS]
    return us


def verify(ctx, kind, o, f, raw, how):
    ctx.check(bytes(o) == raw, "%s %s serialises to %s instead of %s", how, kind, bytes(o).hex()[:300], raw.hex()[:300])
    ctx.check(o.size == len(raw), "%s %s reports size %r, has %d bytes", how, kind, o.size, len(raw))
    g, e = pk.fields(kind, o), pk.expect_fields(kind, f)
    if kind == "M2" and f["nosuch"] and how == "built":
        g.pop("last"), e.pop("last")      # implied on the wire; the field of the built object may stay unset
    ctx.check(g == e, "%s %s has fields %r instead of %r", how, kind, g, e)
    ctx.check(int(o.data.Header.PacketType) == raw[4 if kind == "M1" else 0], "%s %s has another packet type", how, kind)


def run_recover(ctx, u):
    """A packet object that has refused bytes parses the next ones as if nothing had been."""
    kind = u["pkt"]
    raws = [(f, pk.refbytes(kind, f)) for f in SMALL[kind]]
    other = [pk.refbytes(k, SMALL[k][0]) for k in pk.KINDS if k != kind]
    bad = [b""] + other + [r[:n] for _, r in raws for n in range(1, len(r), 1 if len(r) < 200 else 37)] + [bytes(n) for n in (1, 5, 60, 130)]
    for start in [None] + [r for _, r in raws]:
        for b in bad:
            for f, raw in raws:
                ctx.begin(dict(u, first=start and start[:200], refused=b[:200], then=raw[:200]))
                o = pk.cls(kind)() if start is None else pk.cls(kind)(src_buf=start)
                ctx.step()
                try:
                    o.from_bytes(b)
                except Exception:
                    pass
                o.from_bytes(raw)
                verify(ctx, kind, o, f, raw, "parsed after refused bytes")
                ctx.state("recover", kind, start, b, raw)
    ctx.outcome("recover " + kind)


def run_unit(u, ctx):
    if u["kind"] == "recover":
        return run_recover(ctx, u)
    if u["kind"] == "values":
        kind = u["pkt"]
        reuse = pk.cls(kind)()
        for i, f in enumerate(values(kind, ctx.thorough)):
            if i % 4 != u["part"]:
                continue
            ctx.begin(dict(packet=kind, fields=f))
            raw = pk.refbytes(kind, f)
            verify(ctx, kind, pk.build(kind, f), f, raw, "built")
            verify(ctx, kind, pk.cls(kind)(src_buf=raw), f, raw, "parsed")
            fresh = pk.cls(kind)()
            fresh.from_bytes(raw)
            verify(ctx, kind, fresh, f, raw, "parsed with from_bytes")
            reuse.from_bytes(raw)
            verify(ctx, kind, reuse, f, raw, "parsed into a used object")
            ctx.step(4)
            ctx.state(kind, raw[:200], len(raw))
            ctx.outcome(kind)
        ctx.sample(ctx.case)
    elif u["kind"] == "objects":
        objects(ctx, u)
    elif u["kind"] == "reserved":
        reserved(ctx, u["pkt"])
    elif u["kind"] == "structs":
        structs(ctx, u)
    else:
        for a, b in itertools.product(K32, repeat=2):
            ctx.begin(dict(keypair=[a, b]))
            k = S.KeyPair(sec=a, pub=b)
            ctx.check((k.sec, k.pub) == (a, b), "key pair changes its keys")
            ctx.check(S.util.cbytes(a)[:] == list(a) and bytes(S.util.cbytes(a)) == a, "cbytes changes bytes")
            ctx.state("kp", a, b)


RESERVED = {"M1": 0x3e, "M2": 0x7e, "ENC": 0x7f, "A2": 0x7e}      # bits of the header's second byte without meaning


def reserved(ctx, kind):
    """Header bits without meaning: parsed packets keep them and everything else."""
    at, mask = (5 if kind == "M1" else 1), RESERVED.get(kind, 0xff)
    for f in SMALL[kind]:
        raw = pk.refbytes(kind, f)
        for v in range(256):
            if v & ~mask:
                continue
            ctx.begin(dict(packet=kind, fields=f, reserved=v))
            src = raw[:at] + bytes([raw[at] | v]) + raw[at + 1:]
            for how in ("constructor", "from_bytes"):
                if how == "constructor":
                    o = pk.cls(kind)(src_buf=src)
                else:
                    o = pk.cls(kind)()
                    o.from_bytes(src)
                verify(ctx, kind, o, f, src, "parsed")
                ctx.step()
            ctx.state(kind, "reserved", src[:8], v)
    ctx.outcome("reserved bits " + kind)


SMALL = {
    "M1": [dict(time=1, ckey=K32[2], server=None), dict(time=9, ckey=K32[3], server=K32[1]), dict(time=0, ckey=K32[0], server=K32[2])],
    "M2": [dict(time=1, skey=K32[2], nosuch=0, last=0), dict(time=0, skey=K32[0], nosuch=1, last=1), dict(time=7, skey=K32[1], nosuch=0, last=1)],
    "M3": [dict(time=1, key=K32[2], sig=K64[2]), dict(time=0, key=K32[0], sig=K64[0]), dict(time=5, key=K32[3], sig=K64[1])],
    "M4": [dict(time=1, key=K32[2], sig=K64[2]), dict(time=0, key=K32[0], sig=K64[0]), dict(time=5, key=K32[3], sig=K64[1])],
    "ENC": [dict(body=bytes(16), last=1), dict(body=body(40), last=0), dict(body=body(17), last=1), dict(body=body(40, 5), last=1)],
    "APP": [dict(time=1, data=b""), dict(time=2, data=b"abc"), dict(time=0xffffffff, data=body(40)), dict(time=7, data=body(40, 9))],
    "MULTI": [dict(time=1, msgs=(b"", b"")), dict(time=2, msgs=(b"one", b"two", b"three")), dict(time=3, msgs=(b"x",)), dict(time=4, msgs=(b"eno", b"owt", b"eerht"))],
    "A1": [dict(type=0, addr=b""), dict(type=1, addr=K32[2]), dict(type=1, addr=K32[0])],
    "A2": [dict(nosuch=1, prots=()), dict(nosuch=0, prots=ref.DEFAULT_PROTS), dict(nosuch=0, prots=((b"a" * 10, b"b" * 10), (b"c" * 10, b"d" * 10))),
           dict(nosuch=0, prots=((b"A" * 10, b"B" * 10), (b"C" * 10, b"D" * 10)))],
}
VALS = range(4)
for _k in ("M1", "M2", "M3", "M4", "A1"):
    SMALL[_k].append(dict(SMALL[_k][-1], **{"M1": dict(ckey=K32[4]), "M2": dict(skey=K32[4]), "M3": dict(sig=K64[3]), "M4": dict(sig=K64[3]), "A1": dict(addr=K32[3])}[_k]))


def structs(ctx, u):
    """Field structures created with keyword values, and arrays changed in place, leave every other packet alone."""
    def touch(obj, name, how):
        st = type(obj.data)
        try:
            if how == "keyword":
                old = getattr(obj.data, name)
                val = (type(old)(*([0x5a] * len(old))) if hasattr(type(old), "_length_") else old if hasattr(type(old), "_fields_") else 0x5a)
                st(**{name: val})
            elif how == "in place":
                arr = getattr(obj.data, name)
                for i in range(len(arr)):
                    arr[i] = 0xa5
            else:
                setattr(obj, name, b"\x33" * len(getattr(obj.data, name)))
        except (TypeError, AttributeError, ValueError, IndexError):
            pass        # not offered for this field
    a = u["a"]
    names = [fl[0] for fl in getattr(type(pk.cls(a)().data), "_fields_", ())]
    for b in pk.KINDS:
        for name in names:
            for how in ("keyword", "in place", "assigned"):
                for v in VALS:
                    ctx.begin(dict(touched=a, field=name, how=how, other=b, value=v))
                    f = SMALL[b][v]
                    raw = pk.refbytes(b, f)
                    before = pk.build(b, f)
                    x = pk.build(a, SMALL[a][v])
                    touch(x, name, how)
                    touch(pk.cls(a)(), name, how)
                    verify(ctx, b, before, f, raw, "existing")
                    verify(ctx, b, pk.build(b, f), f, raw, "new")
                    verify(ctx, b, pk.cls(b)(src_buf=raw), f, raw, "newly parsed")
                    ctx.step(4)
                    ctx.state(a, name, how, b, v)
    ctx.outcome("structures of " + a)


def objects(ctx, u):
    kinds = (u["a"], u["b"])
    ops = [(slot, how, v) for slot in (0, 1) for how in ("new", "parse", "set", "load") for v in VALS]
    for seq in itertools.product(ops, repeat=u["depth"]):
        if seq[0][1] in ("set", "load"):
            continue        # same as "new" on a fresh object
        ctx.begin(dict(types=kinds, ops=seq))
        live = {}
        for slot, how, v in seq:
            kind, f = kinds[slot], SMALL[kinds[slot]][v]
            raw = pk.refbytes(kind, f)
            ctx.step()
            if how == "new":
                o = pk.build(kind, f)
            elif how == "parse":
                o = pk.cls(kind)(src_buf=raw)
            else:
                o = live[slot][0] if slot in live else pk.cls(kind)()
                if how == "set":
                    pk.build(kind, f, o)
                else:
                    o.from_bytes(raw)
            if how in ("new", "parse") and slot in live:
                live[slot, ctx.transitions] = live[slot]      # the replaced object must stay as it was
            live[slot] = (o, kind, f, raw)
        for key, (o, kind, f, raw) in live.items():
            verify(ctx, kind, o, f, raw, "after %r the" % (seq,))
        ctx.state(kinds, seq)
        ctx.outcome("objects")
