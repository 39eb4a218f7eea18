"""Controller of gated processes: every libc call of a child that touches the tree under `root`
(and every sleep) becomes a step which this module grants, fails, shortens or turns into death.

The child runs ordinary code of the repository; nothing in it knows about the gate.  lib/shim.c is
loaded through LD_PRELOAD; the check re-executes itself once so that its forked children have it.
"""
import ctypes
import mmap
import os
import pickle
import select
import signal
import socket
import subprocess
import sys

import vlib

SHIM = None


def enable():
    """Re-executes the current check under LD_PRELOAD (once); afterwards children can be gated."""
    global SHIM
    if os.environ.get("VERIF_SHIM") and os.path.exists(os.environ["VERIF_SHIM"]):
        SHIM = os.environ["VERIF_SHIM"]
        os.environ.pop("LD_PRELOAD", None)       # not for TLC and other helpers
        import atexit
        import shutil
        d, owner = os.path.dirname(SHIM), os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(d, ignore_errors=True))
        return
    import tempfile
    d = tempfile.mkdtemp(prefix="wtpshim-")
    so = os.path.join(d, "shim.so")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(vlib.VERIF, "lib", "shim.c"), "-ldl"],
                   check=True)
    os.environ["VERIF_SHIM"] = so
    os.environ["LD_PRELOAD"] = so
    sys.stdout.flush()
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)


class Clock:
    """Virtual monotonic clock shared by all children of a world."""

    def __init__(self):
        self.mm = mmap.mmap(-1, 4096)
        self.ref = ctypes.c_longlong.from_buffer(self.mm)
        self.ref.value = 1000 * 10**9
        self.wall = ctypes.c_longlong.from_buffer(self.mm, 8)     # wall clock = monotonic + wall
        self.wall.value = 1_700_000_000 * 10**9

    @property
    def ns(self):
        return self.ref.value

    def advance(self, ns):
        self.ref.value += int(ns)


class Hang(Exception):
    pass


class Child:
    """One gated process.  `pending` is the step it waits for: (op, path, arg) or None when over."""

    def __init__(self, world, fn, name):
        self.name = name
        self.result = None           # value returned by fn, or None when it died
        self.over = False
        self.killed = False
        self.ops = 0                 # granted steps
        self.buf = b""
        self.world = world
        a, b = socket.socketpair()
        rr, rw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                os.close(rr)
                for c in world.children:
                    for fd in c.fds():
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                lib = ctypes.CDLL(None)
                addr = ctypes.addressof(world.clock.ref)
                err = os.dup(2)
                nul = os.open(os.devnull, os.O_WRONLY)
                os.dup2(nul, 2)                     # the graph library reports provoked faults there
                lib.vshim_start(b.fileno(), os.fsencode(world.root), ctypes.c_void_p(addr))
                try:
                    value = fn(lambda text: lib.vshim_mark(text.encode()))
                finally:
                    lib.vshim_stop()
                with os.fdopen(rw, "wb") as f:
                    f.write(pickle.dumps(value))
            except BaseException:
                import traceback
                os.dup2(err, 2)
                traceback.print_exc()
                os._exit(7)
            os._exit(0)
        b.close()
        os.close(rw)
        self.sock, self.res, self.pid = a, rr, pid
        self.pending = None
        self._await()

    def fds(self):
        return [] if self.over else [self.sock.fileno(), self.res]

    def _await(self):
        """Waits for the next request of this child (or its end)."""
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.sock], [], [], self.world.limit)
            if not r:
                self.kill()
                raise Hang("%s gave no sign of life at step %d" % (self.name, self.ops))
            part = self.sock.recv(65536)
            if not part:
                self._end()
                return
            self.buf += part
        line, self.buf = self.buf.split(b"\n", 1)
        f = line.decode("utf-8", "replace").split("\t")
        self.pending = (f[0], f[1] if len(f) > 1 else "", f[2] if len(f) > 2 else "")

    def _end(self):
        self.over = True
        self.pending = None
        self.sock.close()
        data = b""
        while True:
            part = os.read(self.res, 1 << 16)
            if not part:
                break
            data += part
        os.close(self.res)
        _, self.status = os.waitpid(self.pid, 0)
        if data and self.status == 0:
            self.result = pickle.loads(data)
        elif os.WIFEXITED(self.status) and os.WEXITSTATUS(self.status) == 7:
            raise vlib.MachineryError("gated driver failed")

    def grant(self, reply=b"c", advance=True):
        """Grants the pending step and runs the child up to its next request."""
        if advance and self.pending[0] == "sleep" and reply == b"c":
            self.world.clock.advance(max(1, int(self.pending[1])))
        self.ops += 1
        self.sock.sendall(reply + b"\n")
        self._await()

    def kill(self):
        if not self.over:
            self.killed = True
            os.kill(self.pid, signal.SIGKILL)
            while True:
                try:
                    if not self.sock.recv(65536):
                        break
                except OSError:
                    break
            self._end()


class World:
    """A scratch directory tree, a virtual clock and the processes working on it."""

    def __init__(self, root, limit=30):
        self.root = root
        self.clock = Clock()
        self.children = []
        self.limit = limit

    def spawn(self, fn, name):
        c = Child(self, fn, name)
        self.children.append(c)
        return c

    def finish(self, order=None, cap=60000):
        """Round-robins all children to their end."""
        live = [c for c in (order or self.children) if not c.over]
        n = 0
        while live:
            for c in live:
                while not c.over:
                    asleep = c.pending[0] == "sleep"
                    c.grant()
                    n += 1
                    if n > cap:
                        raise Hang("no end after %d steps" % cap)
                    if asleep and len(live) > 1:
                        break
            live = [c for c in live if not c.over]

    def close(self):
        for c in self.children:
            c.kill()


def run_alone(root, fn, on_step=None, name="p", limit=30, cap=20000):
    """Runs one gated process to its end.  on_step(child, op, path, arg, k) may return a reply
    (bytes) to use instead of b'c', or 'kill'."""
    w = World(root, limit)
    try:
        c = w.spawn(fn, name)
        k = 0
        while not c.over:
            rep = on_step(c, *c.pending, k) if on_step else None
            if rep == "kill":
                c.kill()
                break
            c.grant(rep or b"c")
            k += 1
            if k > cap:
                raise Hang("no end after %d steps" % cap)
        return c
    finally:
        w.close()


def lock_free(path):
    """Whether the advisory lock on `path` can be taken right now (observer outside the gate)."""
    import fcntl
    try:
        fd = os.open(path, os.O_RDWR)
    except FileNotFoundError:
        return True
    try:
        fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
        fcntl.flock(fd, fcntl.LOCK_UN)
        return True
    except OSError:
        return False
    finally:
        os.close(fd)
