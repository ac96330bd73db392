"""Controlled asyncio event loop and channel doubles.

MCLoop is a real asyncio.BaseEventLoop with its selector replaced: ready callbacks run FIFO as in asyncio, and when nothing
is ready the `idle` hook decides which pending I/O operation completes. Time is virtual; pending timers fire before any I/O
completes (the network may be slower than any timeout), at most 40 in a row. If the hook has nothing to complete
and no timer is pending, the run ends with Deadlock.
"""
import asyncio
from collections import deque

from .env import S
from .explore import Violation


class Deadlock(Exception):
    pass


class _Selector:
    def __init__(self, loop):
        self.loop, self.fired = loop, 0

    def select(self, timeout=None):
        if timeout is not None and timeout <= 0:
            return []
        if timeout is not None and self.loop.slow and self.fired < 40:
            self.fired += 1     # the network may be slower than any timer of the code under test
            self.loop.vtime += timeout
            return []
        self.fired = 0
        if self.loop.idle is not None and self.loop.idle():
            return []
        if timeout is not None:
            self.loop.vtime += timeout
            return []
        raise Deadlock()

    def close(self):
        pass


class MCLoop(asyncio.BaseEventLoop):
    def __init__(self, idle=None):
        super().__init__()
        self.vtime, self.idle, self.slow = 0.0, idle, True
        self._selector = _Selector(self)
        self.leaked = []
        self.set_exception_handler(lambda loop, c: loop.leaked.append(c))

    def time(self):
        return self.vtime

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass

    def call(self, coro):
        """-> ('ok', value) | ('exc', exception) | ('pending', None); a call that cannot finish is cancelled."""
        task = self.create_task(coro)
        try:
            return ("ok", self.run_until_complete(task))
        except Deadlock:
            idle, self.idle = self.idle, None
            task.cancel()
            try:
                self.run_until_complete(task)
            except (asyncio.CancelledError, Deadlock, Exception):
                pass
            self.idle = idle
            self.reap()
            return ("pending", None)
        except Violation:
            raise
        except Exception as e:
            return ("exc", e)

    def reap(self):
        for _ in range(3):
            tasks = [t for t in asyncio.all_tasks(self) if not t.done()]
            if not tasks:
                break
            for t in tasks:
                t.cancel()
            idle, self.idle = self.idle, None
            try:
                self.run_until_complete(asyncio.wait(tasks))
            except Deadlock:
                pass
            finally:
                self.idle = idle

    def drop(self):
        """Cancel what is left and close."""
        self.reap()
        self.close()


def new_loop(idle=None):
    loop = MCLoop(idle)
    asyncio.set_event_loop(loop)
    return loop


def call_sync(f, *a, **k):
    """Blocking call -> same triple as MCLoop.call."""
    try:
        return ("ok", f(*a, **k))
    except Deadlock:
        asyncio.get_event_loop().reap()
        return ("pending", None)
    except Violation:
        raise
    except Exception as e:
        return ("exc", e)


class Op:
    """A pending I/O completion."""

    def __init__(self, kind, ch, fut):
        self.kind, self.ch, self.fut = kind, ch, fut

    @property
    def live(self):
        return not self.fut.done()


def channel_classes():
    """Channel doubles as subclasses of the real ByteChannel, created after S.load()."""
    class ScriptChannel(S.ByteChannel):
        """Reads come from `inbox` at once; an empty inbox waits for ever (mode 'wait') or fails (mode 'eof').
        Writes are recorded in `out` as (tuple of messages, is_last). hook(op, index) may raise to inject a fault.
        feed(msgs): optional peer reaction called after each write, returns messages to append to the inbox."""

        def __init__(self, inbox=(), mode="wait", feed=None, hook=None, loop=None):
            super().__init__(loop=loop)
            self.inbox, self.mode, self.feed, self.hook = deque(inbox), mode, feed, hook
            self.out, self.ops, self.reads, self.closed = [], 0, 0, False

        def _op(self, kind):
            i = self.ops
            self.ops += 1
            if self.hook is not None:
                self.hook(kind, i)

        def _read(self):
            self._op("read")
            if self.inbox:
                self.reads += 1
                return self.inbox.popleft()
            if self.mode == "eof":
                raise S.ComException("end of stream")
            return None

        def _write(self, msg, args, is_last):
            self._op("write")
            msgs = tuple(bytes(m) for m in (msg,) + args)
            self.out.append((msgs, bool(is_last)))
            if self.feed is not None:
                self.inbox.extend(self.feed(msgs))

        async def read(self):
            r = self._read()
            if r is None:
                await asyncio.get_running_loop().create_future()
            return r

        async def write(self, msg, *args, is_last=False):
            self._write(msg, args, is_last)

        def read_sync(self):
            r = self._read()
            if r is None:
                raise Deadlock()
            return r

        def write_sync(self, msg, *args, is_last=False):
            self._write(msg, args, is_last)

        def close(self):
            self.closed = True

        @property
        def sent(self):
            return [m for ms, _ in self.out for m in ms]

    class MCChannel(S.ByteChannel):
        """Suspending message channel of a Net: read waits for a completion chosen by the explorer; with `drain`, write hands
        its messages over at once and then waits for a completion."""

        def __init__(self, net, name, drain=False, loop=None):
            super().__init__(loop=loop)
            self.net, self.name, self.drain = net, name, drain
            self.inbox, self.out, self.peer, self.closed = deque(), [], None, False

        async def read(self):
            fut = asyncio.get_running_loop().create_future()
            op = Op("read", self, fut)
            self.net.pending.append(op)
            try:
                return await fut
            except asyncio.CancelledError:
                if fut.done() and not fut.cancelled() and fut.exception() is None:
                    self.inbox.appendleft(fut.result())  # message-atomic transport: an undelivered message stays
                raise

        async def write(self, msg, *args, is_last=False):
            msgs = tuple(bytes(m) for m in (msg,) + args)
            self.out.append((msgs, bool(is_last)))
            if self.peer is not None:
                self.peer.inbox.extend(msgs)
            if self.drain:
                fut = asyncio.get_running_loop().create_future()
                self.net.pending.append(Op("drain", self, fut))
                await fut

        def close(self):
            self.closed = True

        @property
        def sent(self):
            return [m for ms, _ in self.out for m in ms]

    return ScriptChannel, MCChannel


class Net:
    def __init__(self):
        self.pending = []

    def live(self):
        self.pending = [o for o in self.pending if o.live]
        return self.pending

    def enabled(self):
        return [o for o in self.live() if o.kind == "drain" or o.ch.inbox]

    def complete(self, op):
        self.pending.remove(op)
        op.fut.set_result(op.ch.inbox.popleft() if op.kind == "read" else None)

    def pipe(self, a, b):
        a.peer, b.peer = b, a

    def scheduler(self, chooser, ctx=None, extra=None):
        """Idle hook: the explorer picks one enabled completion (or one of the extra actions)."""
        def idle():
            en = self.enabled()
            acts = extra() if extra else []
            n = len(en) + len(acts)
            if not n:
                return False
            lab = "%s|%s" % (",".join(o.ch.name + o.kind[0] for o in en), ",".join(a[0] for a in acts))
            c = chooser.choose(n, lab) if n > 1 else 0
            if ctx is not None:
                ctx.step()
            if c < len(en):
                self.complete(en[c])
            else:
                acts[c - len(en)][1]()
            return True
        return idle
