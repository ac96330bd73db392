"""Makes the code under test importable: /repo first on sys.path, a stand-in for the missing package 'tweetnacl'.

MC_REPO may name another checkout; it exists only to try planted bugs in scratch worktrees during development.
The registered commands never set it, so they always check /repo's working tree.
"""
import os
import sys
import types
import warnings

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent"
REPO = os.environ.get("MC_REPO", "/repo")


def _stub_tweetnacl():
    """Same functions and conventions as tweetnacl.raw of python-tweetnacl, computed by PyNaCl."""
    from nacl import bindings as b
    raw = types.ModuleType("tweetnacl.raw")
    for name in ("crypto_sign", "crypto_sign_open", "crypto_sign_seed_keypair", "crypto_box_beforenm",
                 "crypto_box_afternm", "crypto_box_open_afternm", "crypto_scalarmult_base", "crypto_hash",
                 "randombytes"):
        setattr(raw, name, getattr(b, name))

    def sized(f, size):     # tweetnacl.raw checks these itself
        def g(m, k):
            if len(k) != size:
                raise ValueError
            return f(m, k)
        return g
    raw.crypto_sign, raw.crypto_sign_open = sized(b.crypto_sign, 64), sized(b.crypto_sign_open, 32)
    pkg = types.ModuleType("tweetnacl")
    pkg.raw = raw
    sys.modules["tweetnacl"] = pkg
    sys.modules["tweetnacl.raw"] = raw


def setup():
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if "tweetnacl" not in sys.modules:
        _stub_tweetnacl()


setup()


class _Lazy:
    """Namespace of the code under test; imported on first use so that an import failure is a reported violation."""

    def load(self):
        import asyncio  # noqa
        import logging
        logging.raiseExceptions = True
        import saltchannel
        where = os.path.realpath(os.path.dirname(saltchannel.__file__))
        assert where == os.path.realpath(os.path.join(REPO, "saltchannel")), where
        from saltchannel import exceptions, channel, util
        from saltchannel.util import packets as upackets, time as utime, key_pair
        from saltchannel.v2 import packets, encrypted_channel_v2, app_channel_v2
        from saltchannel.v2 import salt_client_session, salt_server_session
        from saltchannel.a1a2 import packets as apackets, a1_client_session
        from saltchannel import saltlib
        from saltchannel.saltlib import saltlib as saltlib_mod, saltlib_native, saltlib_pynacl, saltlib_tweetnaclext
        from saltchannel.saltlib import saltlib_base, exceptions as slexc
        from saltchannel.dev import mitm_channel, tunnel, client_server_a, client_server
        self.exceptions, self.channel, self.util, self.utime = exceptions, channel, util, utime
        self.packets, self.apackets, self.upackets = packets, apackets, upackets
        self.KeyPair = key_pair.KeyPair
        self.ComException, self.BadPeer = exceptions.ComException, exceptions.BadPeer
        self.NoSuchServerException = exceptions.NoSuchServerException
        self.TimeException = exceptions.TimeException
        self.ByteChannel = channel.ByteChannel
        self.SocketChannel, self.AsyncioChannel = channel.SocketChannel, channel.AsyncioChannel
        self.Client = salt_client_session.SaltClientSession
        self.Server = salt_server_session.SaltServerSession
        self.A1Client = a1_client_session.A1ClientSession
        self.EncChannel, self.Role = encrypted_channel_v2.EncryptedChannelV2, encrypted_channel_v2.Role
        self.AppChannel = app_channel_v2.AppChannelV2
        self.TimeKeeper, self.TimeChecker = utime.TimeKeeper, utime.TimeChecker
        self.NullTimeKeeper, self.NullTimeChecker = utime.NullTimeKeeper, utime.NullTimeChecker
        self.A1Packet, self.A2Packet = apackets.A1Packet, apackets.A2Packet
        self.saltlib, self.slm, self.slexc = saltlib, saltlib_mod, slexc
        self.Native, self.PyNaCl = saltlib_native.SaltLibNative, saltlib_pynacl.SaltLibPyNaCl
        self.Tweet = saltlib_tweetnaclext.SaltLibTweetNaClExt
        self.Mitm, self.mitm_channel, self.tunnel = mitm_channel.MitmChannel, mitm_channel, tunnel
        self.client_server_a, self.client_server = client_server_a, client_server
        return self


S = _Lazy()
