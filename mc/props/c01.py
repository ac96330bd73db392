"""C01: explicit-state exploration of an active attacker against real sessions.

State: for each honest endpoint the history of messages the attacker delivered to it. The transition function is the real
code: an endpoint's outputs and verdict are obtained by running a real session on its history. Honest endpoints: client A
(one or two sessions) and server B (one or two sessions); the attacker E has its own keys, knows everything sent, can open
what was sealed under a key it shares, and offers every message of the knowledge-derived alphabet to every waiting endpoint.
"""
from .. import ref, sess
from ..env import S
from ..explore import Violation

BOUNDS = {
    "quick": "2 or 3 honest endpoints (client, server, second server or second client) x 8 configurations; all reachable "
             "attacker states; every single-bit flip, truncation and 1-byte extension of the four wire messages and of the "
             "M3/M4 plaintexts under correct encryption; a second handshake with the attacker on a session object used before; "
             "10 claimed identities (degenerate ones too) x 7 signatures x 5 times x 4 header bytes x 3 first messages",
    "thorough": "as quick, plus 4 honest endpoints (two clients, two servers) and all 2-bit flips of M3/M4 plaintext headers"
}
ASSUMPTIONS = ["attacker messages come from the stated alphabet; Ed25519/X25519/XSalsa20-Poly1305 themselves are trusted"]
E, E2 = sess.E_ENC, ref.named_enc("e2")
EP_KEYS = {"C1": (sess.A_SIG, sess.A_ENC), "C2": (sess.A_SIG, sess.A2_ENC), "S1": (sess.B_SIG, sess.B_ENC),
           "S2": (sess.B_SIG, sess.B2_ENC)}


def setup():
    sess.setup()


def units(tier):
    us = []
    for i, cfg in enumerate(sess.configs()):
        us.append(dict(kind="dy", cfg=cfg, eps=["C1", "S1", "S2"]))
        us.append(dict(kind="dy", cfg=cfg, eps=["C1", "C2", "S1"]))
        for msg in ("m1", "m2", "m3", "m4"):
            us.append(dict(kind="flip", cfg=cfg, msg=msg))
        for role in ("client", "server"):
            us.append(dict(kind="plain", cfg=cfg, role=role))
        us.append(dict(kind="again", cfg=cfg))
        for role in ("client", "server"):
            us.append(dict(kind="claims", cfg=cfg, role=role))
        if tier == "thorough":
            us.append(dict(kind="dy", cfg=cfg, eps=["C1", "C2", "S1", "S2"]))
            for role in ("client", "server"):
                us.append(dict(kind="plain2", cfg=cfg, role=role))
    return us


class Endpoint:
    """Verdict of a real session on a delivery history."""

    def __init__(self, name, cfg, hist, before=None, newkey=False):
        """before: messages of an earlier handshake on the same session object (with new encryption keys afterwards if newkey)."""
        self.name, self.hist = name, hist
        self.sig, self.enc = EP_KEYS[name]
        self.is_client = name[0] == "C"
        loop = sess.new_loop()
        ch = sess.ScriptChannel(inbox=hist if before is None else before, mode="wait")
        if self.is_client:
            s = sess.client(ch, self.sig, self.enc, cfg["buf4"], sess.B_SIG.pub if cfg["wanted"] else None)
        else:
            s = sess.server(ch, self.sig, self.enc, cfg["buf2"])
        if before is not None:
            loop.call(s.handshake())
            ch.out.clear()
            ch.reads = 0
            ch.inbox.clear()
            ch.inbox.extend(hist)
            if newkey:
                self.enc = sess.A2_ENC if self.is_client else sess.B2_ENC
                s.enc_keypair = sess.kp(self.enc)
        r = loop.call(s.handshake())
        self.res = r
        self.status = {"ok": "done", "pending": "wait", "exc": "fail"}[r[0]]
        if self.status == "done" and self.is_client and cfg["buf4"] and s.app_channel is not None:
            loop.call(s.app_channel.write(b"hello"))
        self.out = ch.sent
        self.consumed = ch.reads
        if self.status == "done":
            self.app = s.app_channel is not None
            self.done_flag = getattr(s, "is_done", False)
            self.session_key = bytes(s.session_key) if getattr(s, "session_key", None) else None
            self.peer = (bytes(s.m3.ServerSigKey) if s.m3 is not None else None) if self.is_client else \
                (bytes(s.client_sig_key) if s.client_sig_key is not None else None)
        loop.drop()

    def transcript(self):
        """(m1, m2) as this side sent and received them, None where not there yet."""
        if self.is_client:
            return (self.out[0] if self.out else None, self.hist[0] if self.consumed > 0 else None)
        return (self.hist[0] if self.consumed > 0 else None, self.out[0] if self.out else None)


def judge(ctx, ep, others, cfg):
    """The oracle: what a normal return of `ep` must imply."""
    if not ep.is_client and ep.done_flag and not ep.app:
        return "a2"        # an answered address query, not a handshake
    m1, m2 = ep.transcript()
    ctx.check(m1 is not None and m2 is not None, "%s: handshake returned normally without M1 and M2", ep.name)
    ctx.check(ep.app, "%s: handshake returned normally without a secure channel", ep.name)
    ctx.check(ep.consumed >= 2, "%s: handshake returned normally without a message from the peer's identity", ep.name)
    p2, p1 = ref.p_m2(m2), ref.p_m1(m1)
    ctx.check(p1 is not None and p2 is not None, "%s: completed on malformed M1/M2", ep.name)
    try:
        key = ref.shared(ep.enc.sec, p2["skey"] if ep.is_client else p1["ckey"])
    except Exception:
        ctx.fail("%s: completed with a degenerate key" % ep.name)
    ctx.check(ep.session_key == key, "%s: session key is not the agreed one", ep.name)
    clear = ref.unseal(key, 2 if ep.is_client else 1, ep.hist[1])
    ctx.check(clear is not None, "%s: completed although the peer's M%d is not authentic", ep.name, 3 if ep.is_client else 4)
    p = ref.p_m34(clear, 3 if ep.is_client else 4)
    ctx.check(p is not None, "%s: completed on a malformed M3/M4", ep.name)
    ctx.check(ep.peer == p["key"], "%s: reports another peer key than the one in the message", ep.name)
    label = ref.SIG1 if ep.is_client else ref.SIG2
    ctx.check(ref.verify(p["sig"], label + ref.h(m1) + ref.h(m2), p["key"]),
              "%s: completed with peer %s without a valid signature of the transcript", ep.name, p["key"].hex()[:8])
    if ep.is_client and cfg["wanted"]:
        ctx.check(ep.peer == sess.B_SIG.pub, "%s: completed with another server than the wanted one", ep.name)
    if ep.peer in (sess.A_SIG.pub, sess.B_SIG.pub):
        match = [o for o in others if o.is_client != ep.is_client and o.sig.pub == ep.peer and o.transcript() == (m1, m2)]
        ctx.check(match, "%s: completed with honest peer %s which has no session with this transcript", ep.name,
                  "A" if ep.peer == sess.A_SIG.pub else "B")
        for o in match:
            if o.status == "done" and not (getattr(o, "done_flag", False) and not o.app):
                ctx.check(o.session_key == ep.session_key, "ends hold different session keys")
        return "honest"
    ctx.check(ep.peer == sess.E_SIG.pub, "%s: completed with an identity nobody has", ep.name)
    return "attacker"


class Game:
    def __init__(self, ctx, cfg, eps):
        self.ctx, self.cfg, self.names, self.cache = ctx, cfg, eps, {}

    def ep(self, name, hist):
        k = (name, hist)
        if k not in self.cache:
            self.ctx.begin(dict(endpoint=name, cfg=self.cfg, delivered=hist))
            self.cache[k] = Endpoint(name, self.cfg, hist)
        return self.cache[k]

    def knowledge(self, state):
        """Everything sent; plaintext signatures the attacker can read."""
        sent, sigs = [], []
        for name, hist in state:
            e = self.ep(name, hist)
            sent.extend(m for m in e.out if m not in sent)
            m1, m2 = e.transcript()
            if m1 is None or m2 is None:
                continue
            pk = (ref.p_m2(m2) or {}).get("skey") if e.is_client else (ref.p_m1(m1) or {}).get("ckey")
            for k in (E, E2):
                if pk == k.pub:
                    key = ref.shared(k.sec, e.enc.pub)
                    for m in e.out:
                        for ctr in (1, 2, 3, 4):
                            c = ref.unseal(key, ctr, m)
                            if c is not None and len(c) == 102 and c[0] in (3, 4):
                                if c[38:102] not in sigs:
                                    sigs.append(c[38:102])
        return sent, sigs

    def alphabet(self, e, sent, sigs):
        n = e.consumed
        out = []
        if not e.is_client and n == 0:        # M1 position
            m1s = [m for m in sent if m[:4] == b"SCv2"]
            for m in m1s:
                out.append(m)
                p = ref.p_m1(m)
                if p is not None and not p["lax"]:
                    out.append(ref.m1(1, p["ckey"], p["server"]))
                    out.append(ref.m1(p["time"], p["ckey"], None if p["server"] else e.sig.pub))
                    out.append(m[:5] + bytes([m[5] | 2]) + m[6:])
                    out.append(m + b"\x00")
            for k in (E, E2):
                out.append(ref.m1(0, k.pub))
            out.append(ref.m1(0, E.pub, e.sig.pub))
            out.append(ref.m1(0, e.enc.pub))
        elif e.is_client and n == 0:          # M2 position
            for m in sent:
                p = ref.p_m2(m)
                if p is not None and len(m) == 38 and not p["lax"]:
                    out.append(m)
                    out.append(ref.m2(1, p["skey"]))
                    out.append(ref.m2(0, p["skey"], last=True))
                    out.append(ref.m2(0, p["skey"], flags=2))
                    out.append(m + b"\x00")
            for k in (E, E2):
                out.append(ref.m2(0, k.pub))
            out.append(ref.m2(0, e.enc.pub))
        elif n == 1:                          # M3 or M4 position
            out.extend(m for m in sent if m and m[0] == ref.T_ENC)
            m1, m2 = e.transcript()
            pk = ref.p_m2(m2)["skey"] if e.is_client else ref.p_m1(m1)["ckey"]
            h1, h2 = ref.h(m1), ref.h(m2)
            typ, lab, ctr = (3, ref.SIG1, 2) if e.is_client else (4, ref.SIG2, 1)
            for k in (E, E2):
                if k.pub != pk:
                    continue
                key = ref.shared(k.sec, e.enc.pub)
                es = ref.sign(lab, h1, h2, sess.E_SIG.sec)
                olab = ref.SIG2 if lab == ref.SIG1 else ref.SIG1
                own = [es, ref.sign(olab, h1, h2, sess.E_SIG.sec), ref.sign(lab, h2, h1, sess.E_SIG.sec),
                       ref.sign(b"", h1, h2, sess.E_SIG.sec), bytes(64)]
                for ident in (sess.B_SIG.pub, sess.A_SIG.pub, sess.E_SIG.pub, sess.C_SIG.pub):
                    for s in own + sigs:
                        out.append(ref.seal(key, ctr, ref.m3(0, ident, s, typ=typ)))
                for s in [es] + sigs:
                    for ident in (sess.B_SIG.pub, sess.E_SIG.pub):
                        out.append(ref.seal(key, ctr, ref.m3(0, ident, s, typ=7 - typ)))
                        out.append(ref.seal(key, 3 - ctr, ref.m3(0, ident, s, typ=typ)))
                        out.append(ref.m3(0, ident, s, typ=typ))
                        out.append(bytes([6, 0]) + ref.m3(0, ident, s, typ=typ))
        seen, res = set(), []
        for m in out:
            if m not in seen:
                seen.add(m)
                res.append(m)
        return res

    def run(self):
        ctx = self.ctx
        start = tuple((n, ()) for n in self.names)
        visited, stack = {start}, [start]
        while stack:
            st = stack.pop()
            ctx.state(st)
            sent, sigs = self.knowledge(st)
            for i, (name, hist) in enumerate(st):
                e = self.ep(name, hist)
                if e.status != "wait":
                    continue
                for m in self.alphabet(e, sent, sigs):
                    ctx.step()
                    e2 = self.ep(name, hist + (m,))
                    if e2.status == "fail":
                        ctx.outcome("rejected")
                        continue
                    nst = st[:i] + ((name, hist + (m,)),) + st[i + 1:]
                    if e2.status == "done":
                        self.ctx.case = dict(endpoint=name, cfg=self.cfg, delivered={n: list(h) for n, h in nst})
                        k = judge(ctx, e2, [self.ep(n, h) for n, h in nst if n != name], self.cfg)
                        ctx.outcome(name[0] + " completed with " + k)
                        if k == "honest":
                            ctx.sample(dict(state=[[n, [x[:8].hex() + ".." for x in h]] for n, h in nst], verdict=k), 1)
                    if nst not in visited:
                        visited.add(nst)
                        stack.append(nst)


def variants(m):
    for bit in range(8 * len(m)):
        yield "bit%d" % bit, sess.flip(m, bit)
    for n in range(len(m)):
        yield "cut%d" % n, m[:n]
    for b in (0, 0xff):
        yield "ext%d" % b, m + bytes([b])


def relay(ctx, cfg, target, variant):
    """Honest client and server with one wire message replaced by variant(message). Both ends are judged."""
    g = Game(ctx, cfg, ["C1", "S1"])
    c0 = Endpoint("C1", cfg, ())
    m1 = c0.out[0]
    m1d = variant(m1) if target == "m1" else m1
    s1 = Endpoint("S1", cfg, (m1d,))
    ends = {"C1": c0, "S1": s1}
    if s1.status == "done":
        ends["S1"] = s1
        judge(ctx, s1, [c0], cfg)
        return "S-early"
    if s1.status == "fail" or len(s1.out) < 2:
        return "S-fail"
    m2, m3 = s1.out[0], s1.out[1]
    m2d = variant(m2) if target == "m2" else m2
    m3d = variant(m3) if target == "m3" else m3
    c2 = Endpoint("C1", cfg, (m2d, m3d))
    ends["C1"] = c2
    if c2.status == "done":
        judge(ctx, c2, [s1], cfg)
    if c2.status != "done" or len(c2.out) < 2:
        return "C-" + c2.status
    m4 = c2.out[1]
    m4d = variant(m4) if target == "m4" else m4
    s2 = Endpoint("S1", cfg, (m1d, m4d))
    if s2.status == "done":
        judge(ctx, s2, [c2], cfg)
    return "both" if s2.status == "done" else "C-only"


def run_unit(u, ctx):
    cfg = u["cfg"]
    ctx.begin(dict(cfg=cfg, warm="honest run"))
    ctx.outcome("honest run: " + relay(ctx, cfg, None, None))
    if u["kind"] == "dy":
        Game(ctx, cfg, u["eps"]).run()
    elif u["kind"] == "flip":
        base = {}
        relay(ctx, cfg, u["msg"], lambda m: base.setdefault("m", m))
        for name, _ in variants(base.get("m", b"")):
            ctx.begin(dict(cfg=cfg, message=u["msg"], change=name))
            ctx.step(4)
            r = relay(ctx, cfg, u["msg"], lambda m: dict(variants(m)).get(name, b""))
            ctx.outcome(r)
            ctx.state(u["msg"], name, cfg, r)
    elif u["kind"] == "again":
        again(ctx, cfg)
    elif u["kind"] == "claims":
        claims(u, ctx, cfg)
    else:
        plain(u, ctx, cfg)


def again(ctx, cfg):
    """The same session object does a second handshake, now with the attacker, after an honest or failed first one."""
    c0 = Endpoint("C1", cfg, ())
    s1 = Endpoint("S1", cfg, (c0.out[0],))
    ctx.check(len(s1.out) == 2, "honest server sends %d messages", len(s1.out))
    c2 = Endpoint("C1", cfg, tuple(s1.out))
    ctx.check(c2.status == "done", "honest client: %s", sess.show(c2.res))
    honest = {"C1": tuple(s1.out), "S1": (c0.out[0], c2.out[1])}
    firsts = {"honest": honest, "half": {k: v[:1] for k, v in honest.items()}, "bad": {k: (v[0], sess.flip(v[1], 300)) for k, v in honest.items()}}
    for name, (fname, before), newkey in ((n, f, k) for n in ("C1", "S1") for f in [(a, b[n]) for a, b in firsts.items()] for k in (False, True)):
        client = name == "C1"
        typ, lab, ctr = (3, ref.SIG1, 2) if client else (4, ref.SIG2, 1)
        first = ref.m2(0, E.pub) if client else ref.m1(0, E.pub)
        e0 = Endpoint(name, cfg, () if client else (first,), before, newkey)
        if not e0.out:
            ctx.outcome("no second handshake")
            continue
        m1, m2 = (e0.out[0], first) if client else (first, e0.out[0])
        key = ref.shared(E.sec, e0.enc.pub)
        good = ref.sign(lab, ref.h(m1), ref.h(m2), sess.E_SIG.sec)
        old = ref.unseal(ref.shared(sess.A_ENC.sec, sess.B_ENC.pub), ctr, honest[name][1])[38:102]
        seconds = [honest[name][1], b"", bytes(104)]
        for ident in (sess.A_SIG.pub, sess.B_SIG.pub, sess.E_SIG.pub, sess.C_SIG.pub):
            for sg in (good, bytes(64), old, sess.flip(good, 0), ref.sign(b"", ref.h(m1), ref.h(m2), sess.E_SIG.sec)):
                seconds.append(ref.seal(key, ctr, ref.m3(0, ident, sg, typ=typ)))
        for f in (first, honest[name][0]):
            for n, m in enumerate(seconds):
                ctx.begin(dict(cfg=cfg, endpoint=name, earlier=fname, newkey=newkey, first="attacker" if f is first else "replayed", second=n))
                ctx.step(2)
                e = Endpoint(name, cfg, (f, m), before, newkey)
                if e.status == "done":
                    o = Endpoint("S1", cfg, (c0.out[0],)) if client else c2
                    ctx.outcome("again completed with " + judge(ctx, e, [o], cfg))
                else:
                    ctx.outcome("again " + e.status)
                ctx.state("again", name, fname, newkey, f is first, n)


def claims(u, ctx, cfg):
    """The attacker is the direct peer and claims every listed identity, with every listed signature, time and header byte."""
    client = u["role"] == "client"
    name = "C1" if client else "S1"
    own = EP_KEYS[name][0].pub
    typ, lab, ctr = (3, ref.SIG1, 2) if client else (4, ref.SIG2, 1)
    idents = {"B": sess.B_SIG.pub, "A": sess.A_SIG.pub, "E": sess.E_SIG.pub, "own": own, "zero": bytes(32), "ones": b"\xff" * 32,
              "one": b"\1" + bytes(31), "order8": bytes.fromhex("26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05"),
              "enc": E.pub, "ownenc": EP_KEYS[name][1].pub}
    if client:
        firsts = {"plain": ref.m2(0, E.pub), "time1": ref.m2(1, E.pub), "last": ref.m2(0, E.pub, last=True)}
    else:
        firsts = {"plain": ref.m1(0, E.pub), "time1": ref.m1(1, E.pub), "named": ref.m1(0, E.pub, own)}
    key = ref.shared(E.sec, EP_KEYS[name][1].pub)
    for fname, first in firsts.items():
        e0 = Endpoint(name, cfg, () if client else (first,))
        ctx.check(e0.status == "wait" and e0.out, "%s does not wait for the peer's identity", name)
        m1, m2 = (e0.out[0], first) if client else (first, e0.out[0])
        h1, h2 = ref.h(m1), ref.h(m2)
        good = ref.sign(lab, h1, h2, sess.E_SIG.sec)
        for iname, ident in idents.items():
            sigs = {"own": good, "zero": bytes(64), "ones": b"\xff" * 64, "one": b"\1" + bytes(63), "keyzero": ident + bytes(32),
                    "hash": h1, "other": ref.sign(ref.SIG2 if client else ref.SIG1, h1, h2, sess.E_SIG.sec)}
            for sname, sg in sigs.items():
                for time in (0, 1, 0x7fffffff, 0x80000000, 0xffffffff):
                    for hdr, outer in ((0, 0), (1, 0), (0x80, 0), (0xff, 0), (0, 1), (0, 0x80), (0, 0xff), (0x80, 0x80)):
                        if (hdr or outer) and time not in (0, 1, 0xffffffff):
                            continue
                        pt = ref.m3(time, ident, sg, typ=typ)
                        pt = pt[:1] + bytes([hdr]) + pt[2:]
                        ctx.begin(dict(cfg=cfg, role=u["role"], first=fname, identity=iname, signature=sname, time=time, header=hdr,
                                       packet_header=outer))
                        ctx.step(2)
                        pkt = ref.seal(key, ctr, pt)
                        e = Endpoint(name, cfg, (first, pkt[:1] + bytes([outer]) + pkt[2:]))
                        if e.status == "done":
                            ctx.outcome("claim: completed with " + judge(ctx, e, [], cfg))
                        else:
                            ctx.check(e.status == "fail", "%s still waits after an identity message", name)
                            ctx.outcome("claim refused")
        ctx.state("claims", u["role"], fname, cfg)


def plain(u, ctx, cfg):
    """The attacker is the direct peer (key E) with B's or E's identity and changes the M3/M4 plaintext in place."""
    role = u["role"]
    name = "C1" if role == "client" else "S1"
    e0 = Endpoint(name, cfg, () if role == "client" else (ref.m1(0, E.pub),))
    if role == "client":
        first = ref.m2(0, E.pub)
        m1, m2, typ, lab, ctr = e0.out[0], first, 3, ref.SIG1, 2
    else:
        first = ref.m1(0, E.pub)
        m1, m2, typ, lab, ctr = first, e0.out[0], 4, ref.SIG2, 1
    key = ref.shared(E.sec, e0.enc.pub)
    good = ref.m3(0, sess.E_SIG.pub, ref.sign(lab, ref.h(m1), ref.h(m2), sess.E_SIG.sec), typ=typ)
    if u["kind"] == "plain":
        vs = list(variants(good))
    else:
        vs = [("bits%d,%d" % (i, j), sess.flip(sess.flip(good, i), j)) for i in range(48) for j in range(i + 1, 304)]
    for vname, v in [("none", good)] + vs:
        ctx.begin(dict(cfg=cfg, role=role, plaintext=vname))
        ctx.step(2)
        e = Endpoint(name, cfg, (first, ref.seal(key, ctr, v)))
        if e.status == "done":
            judge(ctx, e, [], cfg)
        ctx.outcome(e.status)
        ctx.state(role, vname, e.status)
