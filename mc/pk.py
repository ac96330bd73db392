"""Uniform access to the packet classes of the code under test: build from fields, read fields, reference bytes."""
from . import ref
from .env import S

KINDS = ["M1", "M2", "M3", "M4", "ENC", "APP", "MULTI", "A1", "A2"]


def cls(kind):
    p, a = S.packets, S.apackets
    return {"M1": p.M1Packet, "M2": p.M2Packet, "M3": p.M3Packet, "M4": p.M4Packet, "ENC": p.EncryptedPacket, "APP": p.AppPacket,
            "MULTI": p.MultiAppPacket, "A1": a.A1Packet, "A2": a.A2Packet}[kind]


def build(kind, f, o=None):
    o = o if o is not None else cls(kind)()
    if kind == "M1":
        o.data.Header.ServerSigKeyIncluded = 1 if f["server"] is not None else 0
        o.data.Time = f["time"]
        o.ClientEncKey = f["ckey"]
        o.create_opt_fields()
        if f["server"] is not None:
            o.ServerSigKey = f["server"]
    elif kind == "M2":
        o.data.Time, o.data.Header.NoSuchServer, o.data.Header.LastFlag = f["time"], f["nosuch"], f["last"]
        o.ServerEncKey = f["skey"]
    elif kind == "M3":
        o.data.Time = f["time"]
        o.ServerSigKey, o.Signature1 = f["key"], f["sig"]
    elif kind == "M4":
        o.data.Time = f["time"]
        o.ClientSigKey, o.Signature2 = f["key"], f["sig"]
    elif kind == "ENC":
        o.data.Header.LastFlag = f["last"]
        o.Body = f["body"]
    elif kind == "APP":
        o.data.Time = f["time"]
        o.Data = f["data"]
    elif kind == "MULTI":
        o.data.Time, o.data.Count = f["time"], len(f["msgs"])
        o.create_opt_fields(msgs=list(f["msgs"]))
    elif kind == "A1":
        o.data.AddressType, o.data.AddressSize = f["type"], len(f["addr"])
        o.create_opt_fields()
        o.Address = f["addr"]
    else:
        o.data.Header.NoSuchServer, o.data.Header.LastFlag, o.data.Count = f["nosuch"], 1, len(f["prots"])
        o.create_opt_fields(prot_count=len(f["prots"]))
        for i, (a, b) in enumerate(f["prots"]):
            o.Prot[i].P1, o.Prot[i].P2 = S.util.cbytes(a), S.util.cbytes(b)
    return o


def fields(kind, o):
    d = o.data
    if kind == "M1":
        inc = int(d.Header.ServerSigKeyIncluded)
        return dict(time=d.Time, ckey=bytes(o.ClientEncKey), server=bytes(o.ServerSigKey) if inc else None)
    if kind == "M2":
        return dict(time=d.Time, skey=bytes(o.ServerEncKey), nosuch=int(d.Header.NoSuchServer), last=int(d.Header.LastFlag))
    if kind == "M3":
        return dict(time=d.Time, key=bytes(o.ServerSigKey), sig=bytes(o.Signature1))
    if kind == "M4":
        return dict(time=d.Time, key=bytes(o.ClientSigKey), sig=bytes(o.Signature2))
    if kind == "ENC":
        return dict(body=bytes(o.Body), last=int(d.Header.LastFlag))
    if kind == "APP":
        return dict(time=d.Time, data=bytes(o.Data))
    if kind == "MULTI":
        return dict(time=d.Time, msgs=tuple(bytes(m) for m in o.opt.Message), count=d.Count)
    if kind == "A1":
        return dict(type=d.AddressType, addr=bytes(o.Address), size=d.AddressSize)
    return dict(nosuch=int(d.Header.NoSuchServer), prots=tuple((bytes(p.P1), bytes(p.P2)) for p in o.Prot), count=d.Count,
                last=int(d.Header.LastFlag))


def expect_fields(kind, f):
    """Fields as `fields` reports them for a packet with f."""
    f = dict(f)
    if kind == "MULTI":
        f["msgs"], f["count"] = tuple(f["msgs"]), len(f["msgs"])
    elif kind == "A1":
        f["size"] = len(f["addr"])
    elif kind == "A2":
        f["prots"], f["count"], f["last"] = tuple(f["prots"]), len(f["prots"]), 1
    elif kind == "M2" and f["nosuch"]:
        f["last"] = 1
    return f


def refbytes(kind, f):
    if kind == "M1":
        return ref.m1(f["time"], f["ckey"], f["server"])
    if kind == "M2":
        return ref.m2(f["time"], f["skey"], f["nosuch"], f["last"] or f["nosuch"])
    if kind in ("M3", "M4"):
        return ref.m3(f["time"], f["key"], f["sig"], typ=3 if kind == "M3" else 4)
    if kind == "ENC":
        return bytes([6, 0x80 if f["last"] else 0]) + f["body"]
    if kind == "APP":
        return ref.app(f["time"], f["data"])
    if kind == "MULTI":
        return ref.multi(f["time"], f["msgs"])
    if kind == "A1":
        return ref.a1(f["type"], f["addr"])
    return ref.a2(f["prots"], f["nosuch"], True)


def refparse(kind, b):
    """-> None (must be rejected) | (fields, lax)"""
    p = {"M1": ref.p_m1, "M2": ref.p_m2, "M3": lambda x: ref.p_m34(x, 3), "M4": lambda x: ref.p_m34(x, 4), "ENC": ref.p_enc,
         "APP": ref.p_app, "MULTI": ref.p_multi, "A1": ref.p_a1, "A2": ref.p_a2}[kind](b)
    if p is None:
        return None
    lax = bool(p.pop("lax"))
    p.pop("flag", None)
    for k in ("msgs", "prots"):
        if k in p:
            p[k] = tuple(tuple(x) if k == "prots" else x for x in p[k])
    return p, lax
