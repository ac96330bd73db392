"""Doubles below the real transports: a socket for SocketChannel, an asyncio transport for SaltChannelStreamReader/Writer."""
import asyncio
import struct

from .env import S


class Blocked(BaseException):
    """A blocking receive with nothing to receive: the call would wait for ever."""


def frame(m):
    return struct.pack("<i", len(m)) + m


def frames(raw):
    """-> (complete messages, rest) of a byte stream, or None if a length is negative."""
    out, off = [], 0
    while len(raw) - off >= 4:
        n = struct.unpack("<i", raw[off:off + 4])[0]
        if n < 0:
            return None
        if len(raw) - off - 4 < n:
            break
        out.append(bytes(raw[off + 4:off + 4 + n]))
        off += 4 + n
    return out, bytes(raw[off:])


class FakeSocket:
    """Blocking stream socket. seg(available) -> number of bytes one recv may return. Faults: `read_fault` = (offset, f): once
    `offset` bytes were received the next recv calls f() (raises, or returns b'' for end of stream); `write_fault` = (k, f): the
    k-th and later sends call f()."""

    def __init__(self, incoming=b"", feed=None, seg=None, read_fault=None, write_fault=None, eof=False, send_max=None):
        self.inc, self.pos, self.feed, self.seg = bytearray(incoming), 0, feed, seg
        self.read_fault, self.write_fault, self.eof, self.send_max = read_fault, write_fault, eof, send_max
        self.sent, self.parsed, self.recvs, self.sends, self.fired, self.closed = bytearray(), 0, 0, 0, 0, False
        self.passed, self.timeout, self.late, self.shut = False, None, False, set()

    def recv(self, n, flags=0):
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        if "r" in self.shut:
            return b""
        if n < 0:
            raise ValueError("negative buffersize in recv")
        self.recvs += 1
        if n == 0:
            return b""
        avail = len(self.inc) - self.pos
        if self.read_fault is not None and not self.passed:
            if self.pos >= self.read_fault[0]:
                self.fired += 1
                r = self.read_fault[1]()
                if r is not None:
                    return r
                self.fired -= 1
                self.passed = True      # the fault is over
            else:
                avail = min(avail, self.read_fault[0] - self.pos)
        if avail <= 0:
            if self.eof:
                self.fired += 1
                return b""
            if self.timeout is not None:        # the silence may last longer than any timeout
                raise TimeoutError("timed out") if self.timeout else BlockingIOError(11, "Resource temporarily unavailable")
            raise Blocked()
        if self.timeout is not None and not self.late:     # the bytes may arrive later than any timeout, once
            self.late = True
            raise TimeoutError("timed out") if self.timeout else BlockingIOError(11, "Resource temporarily unavailable")
        self.late = False
        k = min(n, avail)
        if self.seg is not None:
            k = max(1, min(k, self.seg(self.pos, k)))
        r = bytes(self.inc[self.pos:self.pos + k])
        self.pos += k
        return r

    def recv_into(self, buf, nbytes=0, flags=0):
        r = self.recv(nbytes or len(buf), flags)
        memoryview(buf).cast("B")[:len(r)] = r
        return len(r)

    def _send(self, data):
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        if "w" in self.shut:
            raise BrokenPipeError(32, "Broken pipe")
        self.sends += 1
        if self.write_fault is not None and self.sends - 1 >= self.write_fault[0]:
            self.fired += 1
            self.write_fault[1]()
        self.sent += bytes(data)
        if self.feed is not None:
            msgs, _ = frames(self.sent[self.parsed:])
            self.parsed += sum(4 + len(m) for m in msgs)
            if msgs:
                for a in self.feed(tuple(msgs)):
                    self.inc += frame(a)

    def sendall(self, data, flags=0):
        self._send(data)

    def send(self, data, flags=0):
        d = bytes(data)[:self.send_max]
        self._send(d)
        return len(d)

    def sendmsg(self, buffers, *a):
        return self.send(b"".join(bytes(b) for b in buffers))

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, f):
        self.timeout = None if f else 0

    def shutdown(self, how):
        self.shut |= {0: {"r"}, 1: {"w"}}.get(how, {"r", "w"})

    def close(self):
        self.closed = True

    def fileno(self):
        return -1


class FakeTransport(asyncio.Transport):
    def __init__(self, end):
        super().__init__()
        self.end, self.closing = end, False

    def write(self, data):
        self.end._written(bytes(data))

    def writelines(self, list_of_data):
        self.write(b"".join(list_of_data))

    def is_closing(self):
        return self.closing

    def close(self):
        self.closing = True

    def abort(self):
        self.closing = True

    def get_extra_info(self, name, default=None):
        return default

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_write_buffer_size(self):
        return 0

    def can_write_eof(self):
        return True

    def write_eof(self):
        pass

    def is_reading(self):
        return True

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass


class StreamEnd:
    """The repository's stream reader and writer over a fake transport of `loop`; `.inc` holds bytes not yet fed to the reader.
    on_write(n) is called after the n-th transport write."""

    def __init__(self, loop, incoming=b"", feed=None):
        ca = S.client_server_a
        self.loop, self.inc, self.feed = loop, bytearray(incoming), feed
        self.sent, self.parsed, self.writes, self.lost, self.eof = bytearray(), 0, 0, False, False
        self.on_write = None
        self.reader = ca.SaltChannelStreamReader(loop=loop)
        self.protocol = ca.SaltChannelStreamReaderProtocol(self.reader, loop=loop)
        self.transport = FakeTransport(self)
        self.protocol.connection_made(self.transport)
        self.writer = ca.SaltChannelStreamWriter(self.transport, self.protocol, self.reader, loop)

    def channel(self):
        return S.AsyncioChannel(self.reader, self.writer)

    def _written(self, data):
        n = self.writes
        self.writes += 1
        if self.lost:
            return
        self.sent += data
        if self.on_write is not None:
            self.on_write(n)
        if self.feed is not None and not self.lost:
            msgs, _ = frames(self.sent[self.parsed:])
            self.parsed += sum(4 + len(m) for m in msgs)
            if msgs:
                for a in self.feed(tuple(msgs)):
                    self.inc += frame(a)

    def give(self, n=None):
        """Feed the first n waiting bytes."""
        n = len(self.inc) if n is None else n
        d = bytes(self.inc[:n])
        del self.inc[:n]
        self.protocol.data_received(d)

    def end(self):
        """Clean end of stream of the peer."""
        if not self.eof and not self.lost:
            self.eof = True
            self.protocol.eof_received()

    def lose(self, exc=None):
        if not self.lost:
            self.lost = True
            self.transport.closing = True
            self.protocol.connection_lost(exc)
