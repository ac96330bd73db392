"""Setup: the framework needs no build; this makes sure that the explorer enumerates what it should and that the reference
endpoints agree with each other."""
import glob
import importlib
import os

from . import explore, ref


def main():
    # 3 choices of 3 alternatives: 27 sequences; with at most one deviation 7
    for bound, want in ((None, 27), (1, 7), (0, 1), (2, 19)):
        seen = set()
        explore.explore(lambda c: seen.add(tuple(c.choose(3) for _ in range(3))), bound=bound)
        assert len(seen) == want, (bound, len(seen))
    for wanted in (None, True):
        a, b = ref.named_sig("selftest-a"), ref.named_sig("selftest-b")
        c = ref.RefClient(a, ref.named_enc("a"), wanted=b.pub if wanted else None)
        s = ref.RefServer(b, ref.named_enc("b"))
        to_s, to_c = c.start(), []
        while to_s or to_c:
            to_c += [x for m in to_s for x in s.feed(m)]
            to_s = [x for m in to_c for x in c.feed(m)]
            to_c = []
        s.feed(c.app(b"x", b"", b"y" * 65535))
        s.feed(c.app(b"z"))
        c.feed(s.app(b"q"))
        assert s.got == [b"x", b"", b"y" * 65535, b"z"] and c.got == [b"q"], (s.got, c.got)
    for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "props", "c*.py"))):
        importlib.import_module("mc.props." + os.path.basename(f)[:-3])
    print("selftest ok")
    return 0
