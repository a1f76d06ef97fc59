"""P07: persistent queue: crash points, reopen, ancestors."""
import io
import types

from .common import *


class SymBytes:
    """A byte string whose content is known but whose length is a symbolic
    prefix (what reached the disk before the crash)."""

    def __init__(self, data, n):
        self.data, self.n = data, n

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step not in (None, 1):
            return self._force()[s]
        a = s.start or 0
        b = len(self.data) if s.stop is None else s.stop
        if a < 0 or b < 0:
            return self._force()[s]
        # length of data[:n][a:b]
        n = self.n
        want = max(0, b - a)
        if n >= a + want:
            return self.data[a : a + want]
        if n <= a:
            return b""
        return SymBytes(self.data[a : a + want], n - a)

    def sym_len(self):
        return self.n

    def _force(self):
        n = self.n.__index__() if isinstance(self.n, core.SymNum) else self.n
        return self.data[:n]

    def __len__(self):
        return len(self._force())

    def __buffer__(self, flags):
        return memoryview(self._force())

    def __bytes__(self):
        return self._force()

    def __eq__(self, o):
        return self._force() == bytes(o)

    def __add__(self, o):
        return self._force() + bytes(o)

    def __iter__(self):
        return iter(self._force())


class Disk:
    """Files with buffered writes and an event log.  `volatile` bytes (written,
    not yet flushed) may reach the disk in part when the process is killed."""

    def __init__(self):
        self.files = {}  # path -> bytes | SymBytes
        self.dirs = set()
        self.log = []

    def exists(self, p):
        return p in self.files or p in self.dirs

    def makedirs(self, p, exist_ok=False, **kw):
        while p not in ("", "/"):
            self.dirs.add(p)
            p = os.path.dirname(p)

    def open(self, p, mode="r", *a, **kw):
        if "r" in mode and "+" not in mode:
            if p not in self.files:
                raise FileNotFoundError(p)
            c = self.files[p]
            if isinstance(c, SymBytes):
                return _SymReader(c)
            return io.BytesIO(c)
        if os.path.dirname(p) not in self.dirs:
            raise FileNotFoundError(os.path.dirname(p))
        if "a" in mode:
            f = _Writer(self, p)
            self.files.setdefault(p, b"")
            self.log.append(("open", p))
            return f
        self.files[p] = b""
        self.log.append(("create", p))
        return _Writer(self, p)

    def listing(self):
        return sorted(self.files)

    def replace(self, a, b):
        self.files[b] = self.files.pop(a)
        self.log.append(("rename", a, b))


class _SymReader:
    def __init__(self, c):
        self.c = c
        self.pos = 0

    def read(self, n=-1):
        if self.pos == 0 and (n is None or n < 0):
            self.pos = None
            return self.c
        b = self.c._force() if isinstance(self.c, SymBytes) else self.c
        self.c = b
        p = self.pos or 0
        out = b[p:] if n is None or n < 0 else b[p : p + n]
        self.pos = p + len(out)
        return out

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Writer:
    def __init__(self, disk, p):
        self.disk, self.p, self.buf, self.closed = disk, p, b"", False

    def write(self, data):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        data = bytes(data)
        self.buf += data
        self.disk.log.append(("write", self.p, data))
        return len(data)

    def flush(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.disk.files[self.p] += self.buf
        self.buf = b""
        self.disk.log.append(("flush", self.p))

    def fileno(self):
        return -1

    def tell(self):
        return len(self.disk.files[self.p]) + len(self.buf)

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _install(S, P, disk, chunk_size):
    import pfrl.collections.persistent_collections as pc

    path = types.SimpleNamespace(**{k: getattr(os.path, k) for k in ("join", "dirname", "basename", "split", "splitext", "abspath", "normpath", "isabs")})
    path.exists = disk.exists
    path.isfile = lambda p: p in disk.files
    path.isdir = lambda p: p in disk.dirs
    shim = types.SimpleNamespace(path=path, makedirs=disk.makedirs, listdir=lambda d: sorted({os.path.relpath(f, d).split("/")[0] for f in disk.files if f.startswith(d + "/")}),
                                 replace=disk.replace, rename=disk.replace, fsync=lambda fd: None, sep="/")
    P.set(pc, "os", shim)
    P.set(pc, "open", disk.open)
    P.set(pc, "len", lambda x: x.sym_len() if isinstance(x, SymBytes) else len(x))
    if chunk_size is not None:
        P.set(pc.PersistentRandomAccessQueue, "chunk_size", property(lambda self: chunk_size))
    return pc


def _at_cut(S, log, cut):
    """Disk contents if the process dies after log[:cut]."""
    flushed, pend = {}, {}
    for ev in log[:cut]:
        if ev[0] == "create":
            flushed[ev[1]], pend[ev[1]] = b"", b""
        elif ev[0] == "open":
            flushed.setdefault(ev[1], b"")
            pend.setdefault(ev[1], b"")
        elif ev[0] == "write":
            pend[ev[1]] += ev[2]
        elif ev[0] == "flush":
            flushed[ev[1]] += pend[ev[1]]
            pend[ev[1]] = b""
        elif ev[0] == "rename":
            flushed[ev[2]], pend[ev[2]] = flushed.pop(ev[1]), pend.pop(ev[1])
    files = {}
    for p in sorted(flushed):
        f, v = flushed[p], pend[p]
        if not v:
            files[p] = f
            continue
        S.cover("torn write")
        m = S.int("bytes_of_%s_on_disk" % os.path.basename(p), 0, len(v))
        n = len(f) + m
        files[p] = SymBytes(f + v, n) if S.symbolic else (f + v)[:n]
    return files


def _tail(xs, maxlen):
    return list(xs) if maxlen is None else list(xs)[max(0, len(xs) - maxlen):]


def _items(k):
    return ["item-%d-%s" % (i, "x" * (3 * (i % 3))) for i in range(k)]


def crash(S, n_items, maxlen, chunk_size, reopen_first):
    """Append; the process dies at any point; reopen; append; reopen."""
    with sym_env(S, use_torch=False) as P:
        disk = Disk()
        pc = _install(S, P, disk, chunk_size)
        base = "/q/base"
        items = _items(n_items)
        q = pc.PersistentRandomAccessQueue(base, maxlen)
        alive = [q]
        pre = 0
        if reopen_first:
            pre = n_items // 2
            for x in items[:pre]:
                q.append(x)
            q.close()
            q = pc.PersistentRandomAccessQueue(base, maxlen)
            alive.append(q)
        start = len(disk.log)
        done_at = []
        for x in items[pre:]:
            q.append(x)
            done_at.append(len(disk.log))
        cut = start + S.choice("killed_after_event", len(disk.log) - start + 1)
        completed = pre + sum(1 for d in done_at if d <= cut)
        disk2 = Disk()
        disk2.dirs = set(disk.dirs)
        disk2.files = _at_cut(S, disk.log, cut)
        disk2.log = []
        P.restore_to = None
        # the dead process never touches the disk again
        for a in alive:
            t = getattr(a, "tail", None)
            if t is not None:
                t.full = True
        pc = _install(S, P, disk2, chunk_size)
        r = pc.PersistentRandomAccessQueue(base, maxlen)
        got = list(r)
        ok = [_tail(items[:completed], maxlen)]
        if completed < n_items:
            ok.append(_tail(items[:completed + 1], maxlen))
        S.check(got in ok, "recovered %s; appended before the crash: %s" % (got, items[:completed]))
        if len(got) and got[-1] == items[min(completed, n_items - 1)] and completed < n_items:
            S.cover("in-flight item recovered")
        if got == ok[0]:
            S.cover("in-flight item lost")
        hist = items[:completed] if got == ok[0] else items[:completed + 1]
        for x in ("new-1", "new-2"):
            r.append(x)
            hist = hist + [x]
        S.check(list(r) == _tail(hist, maxlen), "appending after recovery: %s" % list(r))
        r.close()
        r2 = pc.PersistentRandomAccessQueue(base, maxlen)
        S.check(list(r2) == _tail(hist, maxlen), "second reopen: %s, expected %s" % (list(r2), _tail(hist, maxlen)))
        r2.close()
        S.cover("done")


def history(S, T, maxlen, chunk_size):
    """Open/close/append/extend/popleft/read histories equal the in-memory queue;
    a reopened queue holds the newest appended items."""
    with sym_env(S, use_torch=False) as P:
        disk = Disk()
        pc = _install(S, P, disk, chunk_size)
        q = pc.PersistentRandomAccessQueue("/q/b", maxlen)
        ref, allx = [], []
        c = 0
        for t in range(T):
            op = S.choice("op%d" % t, 5)
            if op == 0:
                c += 1
                q.append(c)
                ref.append(c)
                allx.append(c)
            elif op == 1:
                xs = [c + 1, c + 2]
                c += 2
                q.extend(iter(xs) if t % 2 else list(xs))
                ref.extend(xs)
                allx.extend(xs)
            elif op == 2:
                if not ref:
                    continue
                S.check(q.popleft() == ref.pop(0), "popleft returns the oldest item")
                S.cover("popleft")
            elif op == 3:
                q.close()
                q = pc.PersistentRandomAccessQueue("/q/b", maxlen)
                # data popped from memory stays on disk: the newest items come back
                ref = _tail(allx, maxlen)
                S.cover("reopen")
            else:
                i = S.int("index%d" % t, -c - 2, c + 2)
                ok = bool(and_(i >= -len(ref), i < len(ref)))
                try:
                    g = q[i]
                except IndexError:
                    S.check(not ok, "IndexError for a valid index")
                else:
                    S.check(ok and g == ref[i.__index__()], "item at index")
                    S.cover("read")
            ref = _tail(ref, maxlen)
            S.check(list(q) == ref and len(q) == len(ref), "contents %s, expected %s" % (list(q), ref))
        q.close()


def ancestors(S, sizes, maxlen, chunk_size):
    """A chain of queues, each opened on top of the previous one.  The number of
    items in each is symbolic up to `sizes`."""
    with sym_env(S, use_torch=False) as P:
        disk = Disk()
        pc = _install(S, P, disk, chunk_size)
        anc = None
        total = []
        for lvl, mx in enumerate(sizes):
            k = S.choice("items_of_level%d" % lvl, mx + 1)
            base = "/q/level%d" % lvl
            q = pc.PersistentRandomAccessQueue(base, maxlen, ancestor=anc)
            S.check(list(q) == _tail(total, maxlen), "starts with the ancestors' newest items: %s, expected %s" % (list(q), _tail(total, maxlen)))
            for i in range(k):
                x = "L%d-%d" % (lvl, i)
                q.append(x)
                total.append(x)
            S.check(list(q) == _tail(total, maxlen), "contents: %s, expected %s" % (list(q), _tail(total, maxlen)))
            q.close()
            q = pc.PersistentRandomAccessQueue(base, maxlen, ancestor=anc)
            S.check(list(q) == _tail(total, maxlen), "reopened on its ancestor: %s, expected %s" % (list(q), _tail(total, maxlen)))
            q.close()
            anc = base
        S.cover("done")


def replay_buffer(S, T, capacity, num_steps):
    """PersistentReplayBuffer: reopening yields the n-step experiences emitted."""
    with sym_env(S, use_torch=False) as P:
        disk = Disk()
        _install(S, P, disk, None)
        from pfrl.replay_buffers import PersistentReplayBuffer, ReplayBuffer

        b = PersistentReplayBuffer("/q/rb", capacity) if num_steps == 1 else None
        m = ReplayBuffer(capacity)
        for t in range(T):
            op = S.choice("op%d" % t, 3)
            if op < 2:
                term = S.flag("terminal%d" % t)
                kw = dict(state=t, action=t, reward=t, next_state=t + 1, next_action=None, is_state_terminal=term)
                b.append(**kw)
                m.append(**kw)
            else:
                b.memory.close()
                b = PersistentReplayBuffer("/q/rb", capacity)
                S.cover("reopen")
            S.check(len(b) == len(m), "length")
            S.check([e for e in b.memory] == [e for e in m.memory], "experiences")
        b.memory.close()
        S.cover("done")


FN = ["PersistentRandomAccessQueue.__init__", "PersistentRandomAccessQueue._load_meta", "PersistentRandomAccessQueue._load_ancestor",
      "PersistentRandomAccessQueue.append", "PersistentRandomAccessQueue.extend", "PersistentRandomAccessQueue.popleft",
      "_ChunkWriter.append", "_ChunkReader.read_chunk_index", "_ChunkReader.read_chunk", "_ChunkReader.read_chunks", "PersistentReplayBuffer"]
ASSUMPTIONS = [
    "the file system is a model: written bytes become durable at flush/close; of bytes written but not flushed any prefix may be on disk when the process dies; files are independent; no media corruption",
    "the crash happens during appends and chunk rotation, not while the queue's directory and metadata are first created",
    "chunk size (2 GiB in the code) is also set to small values to exercise rotation",
]

HARNESSES = [
    Harness(crash,
            quick=[dict(n_items=3, maxlen=None, chunk_size=None, reopen_first=False), dict(n_items=3, maxlen=2, chunk_size=30, reopen_first=False),
                   dict(n_items=4, maxlen=3, chunk_size=40, reopen_first=True), dict(n_items=4, maxlen=None, chunk_size=20, reopen_first=True), dict(n_items=2, maxlen=1, chunk_size=None, reopen_first=True)],
            thorough=grid(n_items=[5], maxlen=[None, 1, 2, 4], chunk_size=[None, 10, 30, 60], reopen_first=[False, True]),
            covers=["torn write", "in-flight item lost", "in-flight item recovered", "done"], functions=FN,
            bounds="<= 4 (5) appended items, every crash point between file operations, every length of the torn writes (symbolic)"),
    Harness(history,
            quick=grid(T=[4], maxlen=[None, 2, 3], chunk_size=[None, 30]),
            thorough=grid(T=[5], maxlen=[None, 1, 2, 3], chunk_size=[None, 10, 30]),
            covers=["popleft", "reopen", "read"], functions=FN, bounds="<= 4 (5) operations"),
    Harness(ancestors,
            quick=grid(sizes=[[3, 2], [4, 2, 2]], maxlen=[3, None, 5], chunk_size=[None, 30]),
            thorough=grid(sizes=[[4, 3, 3], [3, 2, 2, 2]], maxlen=[1, 2, 3, None, 5], chunk_size=[None, 10, 30]),
            covers=["done"], functions=FN, bounds="chains of <= 3 (4) queues with <= 4 items each"),
    Harness(replay_buffer, quick=grid(T=[5], capacity=[None, 3], num_steps=[1]), thorough=grid(T=[7], capacity=[None, 1, 3], num_steps=[1]),
            covers=["reopen", "done"], functions=FN, bounds="<= 5 (7) operations"),
]
