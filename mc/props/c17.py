"""C17: every crypto back end against NaCl and each other, on an enumerated input space, and selection in fresh processes."""
import hashlib
import itertools
import os
import pickle

from nacl import bindings as nb

from .. import explore, ref, sess
from ..env import S
from .c10 import LOW

BOUNDS = {
    "quick": "3 back ends and the facade; message lengths 0..272 and around powers of two up to 65537 x 3 contents; 300 structured seeds and secret keys; 14 low-order public keys; every "
             "single bit of signed messages, ciphertexts, public keys, nonces and keys for 7 message lengths; every truncation, extensions, foreign keys; "
             "all pairs of back ends; all 8 availability combinations; all library and random source settings in fresh processes, all sequences of 3 "
             "selection calls; sessions of both roles on every back end with every bit of M2-M4 and application packets changed",
    "thorough": "as quick with lengths 0..1100, 17 lengths for the corruptions and all two-byte corruptions of the shortest, sequences of 4 selection calls",
}
NAMES = ["native", "pynacl", "tweetnacl"]
OTHER = ref.named_sig("other"), ref.named_enc("other")


def setup():
    sess.setup()


def libs():
    return [S.Native(), S.PyNaCl(), S.Tweet()]


def units(tier):
    q = tier == "quick"
    us = []
    for b in range(3):
        us += [dict(kind="keys", b=b), dict(kind="random", b=b), dict(kind="agree", b=b)]
        us += [dict(kind="lengths", b=b, part=p) for p in range(3)]
        us += [dict(kind="forge", b=b, n=n) for n in ((0, 1, 16, 31, 32, 64, 65) if q else (0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 300))]
        if not q:
            us += [dict(kind="forge2", b=b, what=w, part=p) for w in ("sign", "box") for p in range(8)]
    us += [dict(kind="avail"), dict(kind="facade")]
    us += [dict(kind="select", depth=3 if q else 4, first=f) for f in range(len(SEL))]
    us += [dict(kind="session", lib=l, avail=a, role=r, buf=bf) for l, a in ((0, 7), (1, 7), (2, 7), (3, 7), (0, 6), (0, 4), (0, 1), (2, 6), (3, 4), (1, 4))
           for r in ("client", "server") for bf in (False, True)]
    return us


def contents(n):
    return [bytes(n), b"\xff" * n, bytes((i * 7 + n) & 0xff for i in range(n))]


def lengths(thorough):
    ls = set(range(0, 1101 if thorough else 273))
    for k in range(8, 17):
        ls |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    return sorted(ls)


def seeds():
    out = [bytes(32), b"\xff" * 32, bytes(range(32)), bytes(range(32))[::-1]]
    out += [sess.flip(bytes(32), i) for i in range(256)]
    out += [ref._seed("c17", i) for i in range(40)]
    return out


def attempt(f, *a):
    try:
        return ("ok", f(*a))
    except Exception as e:
        return ("exc", e)


def refused(ctx, what, exc, f, *a):
    r = attempt(f, *a)
    ctx.step()
    ctx.check(r[0] == "exc" and isinstance(r[1], exc), "%s: %s", what, sess.show(r))


def same(ctx, what, want, f, *a):
    r = attempt(f, *a)
    ctx.step()
    ctx.check(r[0] == "ok" and isinstance(r[1], type(want)) and r[1] == want, "%s: %s instead of %s", what, sess.show(r), repr(want)[:120])


# ------------------------------------------------------------------------------------------------ functions
def run_keys(ctx, u):
    L = libs()[u["b"]]
    for s in seeds():
        ctx.begin(dict(u, seed=s))
        pk, sk = nb.crypto_sign_seed_keypair(s)
        same(ctx, "signing keys", (pk, sk), lambda: tuple(map(bytes, L.crypto_sign_keypair_not_random(s))))
        same(ctx, "encryption keys", (nb.crypto_scalarmult_base(s), s), lambda: tuple(map(bytes, L.crypto_box_keypair_not_random(s))))
        ctx.state("seed", s)
    for n in itertools.chain(range(0, 32), range(33, 70), (128, 1000)):
        ctx.begin(dict(u, seedlen=n))
        refused(ctx, "signing seed of %d bytes" % n, ValueError, L.crypto_sign_keypair_not_random, bytes(n))
        refused(ctx, "secret key of %d bytes" % n, ValueError, L.crypto_box_keypair_not_random, bytes(n))
        ctx.state("seedlen", n)
    ctx.outcome("keys " + NAMES[u["b"]])


def run_agree(ctx, u):
    L = libs()[u["b"]]
    ks = [ref.enc_keys(s) for s in seeds()[:8]] + [ref.enc_keys(s) for s in seeds()[-12:]] + sess.special()["enc"]
    for a, b in itertools.product(ks, repeat=2):
        ctx.begin(dict(u, a=a.sec, b=b.sec))
        want = nb.crypto_box_beforenm(b.pub, a.sec)
        same(ctx, "shared key", want, L.crypto_box_beforenm, b.pub, a.sec)
        same(ctx, "shared key, other side", want, L.crypto_box_beforenm, a.pub, b.sec)
        ctx.state("agree", a.sec, b.sec)
    ctx.outcome("agree " + NAMES[u["b"]])
    for low in LOW:
        for a in ks:
            ctx.begin(dict(u, low=low, a=a.sec))
            refused(ctx, "key agreement with a public key of low order", Exception, L.crypto_box_beforenm, low, a.sec)

            def facade(c):
                sl = S.slm.SaltLib(list(S.slm.LibType)[u["b"] + 1])
                refused(c, "shared key with a public key of low order", S.BadPeer, sl.compute_shared_key, a.sec, low)
            if a is ks[0] or a is ks[9]:
                fresh(ctx, facade)
            ctx.state("low", low, a.sec)
    ctx.outcome("low order " + NAMES[u["b"]])


def run_lengths(ctx, u):
    all_ = libs()
    L = all_[u["b"]]
    sig, key = ref.named_sig("c17"), ref.shared(sess.A_ENC.sec, sess.B_ENC.pub)
    nonces = [ref.nonce(1), ref.nonce(2 ** 64 - 1), bytes(range(24))]
    for n in lengths(ctx.thorough):
        m, nonce = contents(n)[u["part"]], nonces[n % 3]
        ctx.begin(dict(u, length=n))
        same(ctx, "hash", hashlib.sha512(m).digest(), L.crypto_hash, m)
        sm = nb.crypto_sign(m, sig.sec)
        same(ctx, "signed message", sm, L.crypto_sign, m, sig.sec)
        same(ctx, "opened signed message", m, L.crypto_sign_open, sm, sig.pub)
        c = nb.crypto_box_afternm(m, nonce, key)
        same(ctx, "ciphertext", c, L.crypto_box_afternm, m, nonce, key)
        same(ctx, "decrypted message", m, L.crypto_box_open_afternm, c, nonce, key)
        for o in all_:
            same(ctx, "signed message opened by another back end", m, o.crypto_sign_open, L.crypto_sign(m, sig.sec), sig.pub)
            same(ctx, "ciphertext opened by another back end", m, o.crypto_box_open_afternm, L.crypto_box_afternm(m, nonce, key), nonce, key)
        ctx.state("len", n, u["part"])
    ctx.outcome("lengths " + NAMES[u["b"]])


def run_forge(ctx, u):
    L, n = libs()[u["b"]], u["n"]
    BS, BE = S.slexc.BadSignatureException, S.slexc.BadEncryptedDataException
    sig, key, nonce = ref.named_sig("c17"), ref.shared(sess.A_ENC.sec, sess.B_ENC.pub), ref.nonce(3)
    for part in range(3):
        m = contents(n)[part]
        sm, c = nb.crypto_sign(m, sig.sec), nb.crypto_box_afternm(m, nonce, key)
        ctx.begin(dict(u, part=part, what="bits"))
        for i in range(8 * len(sm)):
            refused(ctx, "bit %d of a signed message changed" % i, BS, L.crypto_sign_open, sess.flip(sm, i), sig.pub)
        for i in range(256):
            refused(ctx, "bit %d of the public key changed" % i, BS, L.crypto_sign_open, sm, sess.flip(sig.pub, i))
        for i in range(8 * len(c)):
            refused(ctx, "bit %d of a ciphertext changed" % i, BE, L.crypto_box_open_afternm, sess.flip(c, i), nonce, key)
        for i in range(192):
            refused(ctx, "bit %d of the nonce changed" % i, BE, L.crypto_box_open_afternm, c, sess.flip(nonce, i), key)
        for i in range(256):
            refused(ctx, "bit %d of the key changed" % i, BE, L.crypto_box_open_afternm, c, nonce, sess.flip(key, i))
        ctx.begin(dict(u, part=part, what="lengths"))
        for i in range(len(sm)):
            refused(ctx, "signed message cut to %d" % i, BS, L.crypto_sign_open, sm[:i], sig.pub)
            refused(ctx, "signed message without the first %d" % (i + 1), BS, L.crypto_sign_open, sm[i + 1:], sig.pub)
        for i in range(len(c)):
            refused(ctx, "ciphertext cut to %d" % i, BE, L.crypto_box_open_afternm, c[:i], nonce, key)
            refused(ctx, "ciphertext without the first %d" % (i + 1), BE, L.crypto_box_open_afternm, c[i + 1:], nonce, key)
        for v in (0, 1, 0x0a, 0xff):
            for k in (1, 2, 16, 32, 64):
                refused(ctx, "extended signed message", BS, L.crypto_sign_open, sm + bytes([v]) * k, sig.pub)
                refused(ctx, "prefixed signed message", BS, L.crypto_sign_open, bytes([v]) * k + sm, sig.pub)
                refused(ctx, "extended ciphertext", BE, L.crypto_box_open_afternm, c + bytes([v]) * k, nonce, key)
                refused(ctx, "prefixed ciphertext", BE, L.crypto_box_open_afternm, bytes([v]) * k + c, nonce, key)
        ctx.begin(dict(u, part=part, what="foreign"))
        refused(ctx, "signature of another key", BS, L.crypto_sign_open, nb.crypto_sign(m, OTHER[0].sec), sig.pub)
        refused(ctx, "signature checked with another key", BS, L.crypto_sign_open, sm, OTHER[0].pub)
        refused(ctx, "signature of another message", BS, L.crypto_sign_open, nb.crypto_sign(m + b"x", sig.sec)[:64] + m, sig.pub)
        refused(ctx, "ciphertext of another key", BE, L.crypto_box_open_afternm, nb.crypto_box_afternm(m, nonce, OTHER[1].sec), nonce, key)
        refused(ctx, "ciphertext of another nonce", BE, L.crypto_box_open_afternm, nb.crypto_box_afternm(m, ref.nonce(4), key), nonce, key)
        refused(ctx, "tag of another message", BE, L.crypto_box_open_afternm, nb.crypto_box_afternm(m + b"x", nonce, key)[:16] + c[16:], nonce, key)
        for k in (0, 1, 16, 32, 63, 64, 65, 80, 96, 128):
            for v in (0, 0xff):
                refused(ctx, "constant signed message", BS, L.crypto_sign_open, bytes([v]) * k, sig.pub)
                refused(ctx, "constant ciphertext", BE, L.crypto_box_open_afternm, bytes([v]) * k, nonce, key)
        # after all refusals the genuine ones are still accepted
        same(ctx, "genuine signed message after forgeries", m, L.crypto_sign_open, sm, sig.pub)
        same(ctx, "genuine ciphertext after forgeries", m, L.crypto_box_open_afternm, c, nonce, key)
        ctx.state("forge", u["b"], n, part)
    ctx.outcome("forge " + NAMES[u["b"]])


def run_forge2(ctx, u):
    """All pairs of byte positions changed (each XOR 0x01/0x80 and 0xff)."""
    L = libs()[u["b"]]
    sig, key, nonce = ref.named_sig("c17"), ref.shared(sess.A_ENC.sec, sess.B_ENC.pub), ref.nonce(3)
    if u["what"] == "sign":
        msg, op, arg, exc = nb.crypto_sign(b"m", sig.sec), L.crypto_sign_open, (sig.pub,), S.slexc.BadSignatureException
    else:
        msg, op, arg, exc = nb.crypto_box_afternm(b"0123456789abcdef", nonce, key), L.crypto_box_open_afternm, (nonce, key), S.slexc.BadEncryptedDataException
    for i, j in itertools.combinations(range(len(msg)), 2):
        if (i + j) % 8 != u["part"]:
            continue
        ctx.begin(dict(u, i=i, j=j))
        for a, b in itertools.product((1, 0x80, 0xff), repeat=2):
            x = bytearray(msg)
            x[i] ^= a
            x[j] ^= b
            refused(ctx, "two bytes changed", exc, op, bytes(x), *arg)
        ctx.state(u["what"], i, j)
    ctx.outcome("forge2 " + NAMES[u["b"]])


def check_random(ctx, what, f):
    for n in list(range(0, 130)) + [255, 256, 257, 1024, 4096, 65535, 65536, 65537, 1 << 20]:
        rs = [attempt(f, n) for _ in range(3)]
        ctx.step(3)
        ctx.check(all(r[0] == "ok" and isinstance(r[1], bytes) and len(r[1]) == n for r in rs), "%s(%d): %s", what, n, [sess.show(r)[:60] for r in rs])
        if n >= 16:
            ctx.check(len({r[1] for r in rs}) == 3, "%s(%d) repeats itself", what, n)
            blocks = [r[1][i:i + 16] for r in rs for i in range(0, n - 15, 16)]
            ctx.check(len(set(blocks)) == len(blocks), "%s(%d) repeats itself within what it returns", what, n)
            ctx.check(all(r[1][i:i + 16] != bytes(16) for r in rs for i in (0, n - 16)), "%s(%d) leaves bytes unset", what, n)
    rs = [f(64) for _ in range(64)]
    ctx.check(all(len({r[i] for r in rs}) > 1 for i in range(64)), "%s: a byte position never changes", what)


def run_random(ctx, u):
    ctx.begin(u)
    check_random(ctx, NAMES[u["b"]] + ".randombytes", libs()[u["b"]].randombytes)
    ctx.state(u)
    ctx.outcome("random " + NAMES[u["b"]])


# ------------------------------------------------------------------------------------------------ selection
def fresh(ctx, f):
    """f() in a forked child, with module state as after import."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            c2 = explore.Ctx(ctx.tier)
            try:
                f(c2)
                v = ("ok", c2.transitions, None)
            except explore.Violation as e:
                v = ("violation", 0, e.msg)
            except BaseException as e:
                v = ("violation", 0, "unexpected %s: %s" % (type(e).__name__, e))
            os.write(w, pickle.dumps(v))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    ctx.check(data, "process died (status %d)", st)
    v = pickle.loads(data)
    if v[0] != "ok":
        ctx.fail(v[2])
    ctx.step(v[1])


def set_avail(mask):
    for i, c in enumerate((S.Native, S.PyNaCl, S.Tweet)):
        c.isAvailable = staticmethod(lambda a=bool(mask & (1 << i)): a)


def run_avail(ctx, u):
    LT = S.slm.LibType
    classes = (S.Native, S.PyNaCl, S.Tweet)
    ctx.begin(dict(u, mask=None))
    for t, c in zip((LT.LIB_TYPE_NATIVE, LT.LIB_TYPE_PYNACL, LT.LIB_TYPE_TWEETNACL_EXT), classes):
        r = attempt(S.slm.SaltLib.getLib, t)
        ctx.check(r[0] == "ok" and type(r[1]) is c, "getLib(%s): %s", t, sess.show(r))
    for L in libs():
        ctx.check(bool(L.isAvailable()), "%s is not available although it loaded", type(L).__name__)
    for mask in range(8):
        for form in ("static default", "static", "instance", "construct", "construct default"):
            ctx.begin(dict(u, mask=mask, form=form))

            def case(c):
                set_avail(mask)
                f = {"static default": lambda: S.slm.SaltLib.getLib(), "static": lambda: S.slm.SaltLib.getLib(LT.LIB_TYPE_BEST),
                     "instance": lambda: S.slm.SaltLib(LT.LIB_TYPE_PYNACL).getLib(), "construct": lambda: S.slm.SaltLib(LT.LIB_TYPE_BEST).api,
                     "construct default": lambda: S.slm.SaltLib().api}[form]
                r = attempt(f)
                c.step()
                if mask == 0:
                    c.check(r[0] == "exc" and isinstance(r[1], S.slexc.NoSuchLibException), "no back end available, best one: %s", sess.show(r))
                else:
                    want = [k for i, k in enumerate(classes) if mask & (1 << i)][0]
                    c.check(r[0] == "ok" and type(r[1]) is want, "availability %s, best one: %s", bin(mask), sess.show(r))
            fresh(ctx, case)
            ctx.state(mask, form)
    ctx.outcome("availability")


def facade_ok(ctx, sl, cls):
    """The facade does what NaCl does."""
    ctx.check(cls is None or type(sl.api) is cls, "facade uses %s instead of %s", type(sl.api).__name__, cls)
    for s in seeds()[:3] + seeds()[-3:]:
        k, e = ref.sig_keys(s), ref.enc_keys(s)
        same(ctx, "create_sig_keys_from_sec", (k.sec, k.pub), lambda: (lambda p: (bytes(p.sec), bytes(p.pub)))(sl.create_sig_keys_from_sec(s)))
        same(ctx, "create_sig_keys_from_sec(64)", (k.sec, k.pub), lambda: (lambda p: (bytes(p.sec), bytes(p.pub)))(sl.create_sig_keys_from_sec(k.sec)))
        same(ctx, "create_enc_keys_from_sec", (e.sec, e.pub), lambda: (lambda p: (bytes(p.sec), bytes(p.pub)))(sl.create_enc_keys_from_sec(s)))
        key = ref.shared(e.sec, sess.B_ENC.pub)
        same(ctx, "compute_shared_key", key, sl.compute_shared_key, e.sec, sess.B_ENC.pub)
        for m in (b"", b"m", bytes(200)):
            sm, c = nb.crypto_sign(m, k.sec), nb.crypto_box_afternm(m, ref.nonce(1), key)
            same(ctx, "sign", sm, sl.sign, m, k.sec)
            same(ctx, "sign_open", m, sl.sign_open, sm, k.pub)
            same(ctx, "sha512", hashlib.sha512(m).digest(), sl.sha512, m)
            same(ctx, "encrypt", c, sl.encrypt, key, ref.nonce(1), m)
            same(ctx, "decrypt", m, sl.decrypt, key, ref.nonce(1), c)
            refused(ctx, "sign_open", S.slexc.BadSignatureException, sl.sign_open, sess.flip(sm, 9), k.pub)
            refused(ctx, "decrypt", S.slexc.BadEncryptedDataException, sl.decrypt, key, ref.nonce(1), sess.flip(c, 9))
            refused(ctx, "decrypt with another nonce", S.slexc.BadEncryptedDataException, sl.decrypt, key, ref.nonce(2), c)
    for n in (0, 31, 33, 64):
        refused(ctx, "secret key of %d bytes" % n, ValueError, sl.compute_shared_key, bytes(n), sess.B_ENC.pub)
        refused(ctx, "public key of %d bytes" % n, ValueError, sl.compute_shared_key, sess.B_ENC.sec, bytes(n))
    ks = [sl.create_sig_keys() for _ in range(4)]
    es = [sl.create_enc_keys() for _ in range(4)]
    for k in ks:
        ctx.check(nb.crypto_sign_seed_keypair(bytes(k.sec)[:32]) == (bytes(k.pub), bytes(k.sec)), "create_sig_keys: inconsistent pair")
    for e in es:
        ctx.check(len(e.sec) == 32 and nb.crypto_scalarmult_base(bytes(e.sec)) == bytes(e.pub), "create_enc_keys: inconsistent pair")
    ctx.check(len({bytes(k.sec) for k in ks}) == 4 and len({bytes(k.sec) for k in es}) == 4, "created keys repeat")
    # every part of the secrets is random
    for k in (ks, es):
        ctx.check(all(len({bytes(x.sec)[i:i + 8] for x in k}) > 1 for i in (0, 8, 16, 24)), "created secret keys share bytes")


def run_facade(ctx, u):
    LT, RT = S.slm.LibType, S.slm.RngType
    cls = {LT.LIB_TYPE_NATIVE: S.Native, LT.LIB_TYPE_PYNACL: S.PyNaCl, LT.LIB_TYPE_TWEETNACL_EXT: S.Tweet, LT.LIB_TYPE_BEST: S.Native}
    for t in LT:
        for rt in RT:
            ctx.begin(dict(u, lib=str(t), rng=str(rt)))

            def case(c):
                sl = S.slm.SaltLib(t, rt)
                facade_ok(c, sl, cls[t])
                check_random(c, "facade.random_bytes", sl.random_bytes)
                check_random(c, "SaltLib.random_bytes", S.slm.SaltLib.random_bytes)
                c.check(S.slm.SaltLib() is sl, "SaltLib() is another facade")
            fresh(ctx, case)
            ctx.state(str(t), str(rt))
            for later in list(LT) + [None]:
                ctx.begin(dict(u, lib=str(t), rng=str(rt), then=str(later)))

                def source(c):
                    own, n = S.slm.SaltLib.getLib(t), []
                    real = own.randombytes

                    def count(k):
                        n.append(real(k))
                        return n[-1]
                    own.randombytes = count
                    sl = S.slm.SaltLib(t, rt)
                    if later is not None:
                        S.slm.SaltLib(later, RT.RNG_IMPL if rt == RT.RNG_URANDOM else RT.RNG_URANDOM)
                        S.slm.SaltLib.getLib(later)
                    for f in (sl.random_bytes, S.slm.SaltLib.random_bytes, lambda k: bytes(sl.create_enc_keys().sec), lambda k: bytes(sl.create_sig_keys().sec)[:32]):
                        n.clear()
                        r = bytes(f(32))
                        c.check((b"".join(n) == r) if rt == RT.RNG_IMPL else not n, "random bytes are not from the source the facade was created with (%s, %s)", t, rt)
                fresh(ctx, source)
                ctx.state(str(t), str(rt), str(later))
    ctx.outcome("facade")


SEL = ["facade", "facade-native", "facade-pynacl-impl", "facade-tweet-impl", "get-native", "get-pynacl", "get-tweet", "get-best", "keys", "fail"]


def run_select(ctx, u):
    """Selection calls in any order: getLib always yields what was asked, the facade keeps working with its first back end."""
    LT, RT = S.slm.LibType, S.slm.RngType
    made = {"facade": (LT.LIB_TYPE_BEST, RT.RNG_URANDOM, S.Native), "facade-native": (LT.LIB_TYPE_NATIVE, RT.RNG_URANDOM, S.Native),
            "facade-pynacl-impl": (LT.LIB_TYPE_PYNACL, RT.RNG_IMPL, S.PyNaCl), "facade-tweet-impl": (LT.LIB_TYPE_TWEETNACL_EXT, RT.RNG_IMPL, S.Tweet)}
    get = {"get-native": (LT.LIB_TYPE_NATIVE, S.Native), "get-pynacl": (LT.LIB_TYPE_PYNACL, S.PyNaCl), "get-tweet": (LT.LIB_TYPE_TWEETNACL_EXT, S.Tweet),
           "get-best": (LT.LIB_TYPE_BEST, S.Native)}
    k, key = ref.named_sig("c17"), ref.shared(sess.A_ENC.sec, sess.B_ENC.pub)
    for rest in itertools.product(SEL, repeat=u["depth"] - 1):
        seq = (SEL[u["first"]],) + rest
        ctx.begin(dict(u, seq=seq))

        def case(c):
            first = None
            for op in seq:
                c.step()
                if op in made:
                    t, rt, cl = made[op]
                    sl = S.slm.SaltLib(t, rt)
                    first = first or cl
                    c.check(type(sl.api) is first, "facade with %s after %s", type(sl.api).__name__, seq)
                    c.check(sl.sign_open(sl.sign(b"m", k.sec), k.pub) == b"m" and len(sl.random_bytes(20)) == 20, "facade after %s", seq)
                elif op in get:
                    r = attempt(S.slm.SaltLib.getLib, get[op][0])
                    c.check(r[0] == "ok" and type(r[1]) is get[op][1], "%s: %s", op, sess.show(r))
                    c.check(r[1].crypto_box_open_afternm(r[1].crypto_box_afternm(b"x", ref.nonce(1), key), ref.nonce(1), key) == b"x", "round trip after %s", seq)
                elif op == "keys":
                    e = S.slm.SaltLib().create_enc_keys()
                    first = first or S.Native
                    c.check(nb.crypto_scalarmult_base(bytes(e.sec)) == bytes(e.pub), "keys after %s", seq)
                else:
                    refused(c, "forgery", S.slexc.BadSignatureException, S.slm.SaltLib().sign_open, bytes(70), k.pub)
                    first = first or S.Native
        fresh(ctx, case)
        ctx.state(seq)
    ctx.outcome("select " + SEL[u["first"]])


# ------------------------------------------------------------------------------------------------ sessions on each back end
def run_session(ctx, u):
    lt = [t for t in S.slm.LibType if t.value == u["lib"]][0]
    set_avail(u["avail"])
    S.slm.SaltLib(lt)
    role, buf = u["role"], u["buf"]
    loop = sess.new_loop()
    for nth in ((0, 1) if role == "client" else (1,)):       # the peer message that is changed: M2/M3 resp. M4
        case_len = None
        bit = -1
        while case_len is None or bit < 8 * case_len:
            ctx.begin(dict(u, message=nth, bit=bit))
            peer = ref.RefServer(sess.B_SIG, sess.B_ENC) if role == "client" else ref.RefClient(sess.A_SIG, sess.A_ENC)
            count = [0]

            def tamper(m):
                nonlocal case_len
                i, count[0] = count[0], count[0] + 1
                if i == nth:
                    case_len = len(m)
                    if bit >= 0:
                        return sess.flip(m, bit)
                return m
            errs = []

            def feed(msgs):
                out = []
                for m in msgs:
                    try:
                        out += [tamper(x) for x in peer.feed(m)]
                    except ValueError as e:
                        errs.append(str(e))
                return out
            ch = sess.ScriptChannel([tamper(m) for m in peer.start()] if role == "server" else (), feed=feed, mode="eof")
            s = sess.client(ch, buf4=buf, wanted=sess.B_SIG.pub) if role == "client" else sess.server(ch, buf2=buf)
            r = loop.call(s.handshake())
            ctx.step()
            if bit < 0:
                ctx.check(r[0] == "ok" and not errs, "handshake: %s %r", sess.show(r), errs)
                ctx.check(bytes(s.session_key) == ref.shared(sess.A_ENC.sec, sess.B_ENC.pub), "session key")
                app_part(ctx, u, loop, s, ch, peer)
            elif nth == 0 and role == "client":
                # M2 only counts through the signature; its reserved flag bits are covered by the transcript as well
                ctx.check(sess.is_com(r), "M2 with bit %d changed: %s", bit, sess.show(r))
            elif bit >= 16:
                ctx.check(sess.is_badpeer(r), "message %d with bit %d changed: %s", nth, bit, sess.show(r))
            bit += 1
            ctx.state(nth, bit)
    loop.drop()
    ctx.outcome("session lib %d avail %d %s" % (u["lib"], u["avail"], role))


def app_part(ctx, u, loop, s, ch, peer):
    a = s.app_channel
    r = [loop.call(a.write(b"hello")), loop.call(a.write(b"", b"x" * 65536, b"y"))]
    ctx.check(all(x[0] == "ok" for x in r), "write: %r", r)
    ctx.check(peer.got == [b"hello", b"", b"x" * 65536, b"y"] and not getattr(ch, "errors", None), "the peer got %r", [m[:9] for m in peer.got])
    for msgs in ((b"in",), (b"", b"in2"), (b"z" * 70000,)):
        p = peer.app(*msgs)
        bits = range(16, 8 * len(p)) if len(p) < 200 else (16, 100, 16 + 127, 300, 8 * len(p) - 1)
        for b in bits:
            ch.inbox.append(sess.flip(p, b))
            r = loop.call(a.read())
            ctx.check(sess.is_badpeer(r), "packet with bit %d changed: %s", b, sess.show(r))
            ctx.step()
        ch.inbox.append(p)
        r = [loop.call(a.read()) for _ in msgs]
        ctx.check([x[1] for x in r] == list(msgs), "read: %s", [sess.show(x) for x in r])


def run_unit(u, ctx):
    globals()["run_" + u["kind"]](ctx, u)
    ctx.sample(ctx.case)
