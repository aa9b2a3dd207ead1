"""Recording layer under Python's file objects, and a crash model on the recorded log.

Recorder patches open() and the os functions that change names or force data to
disk. Every *raw* write (what reaches the kernel, after Python's buffering) is
logged. states() enumerates what a crash may leave:
  kill:  every prefix of the log, the next write torn at given offsets
  power: additionally, data not yet fsync'ed may be lost in any prefix and name
         changes may be persisted only up to an earlier point
"""

import builtins
import io
import itertools
import os

_real = dict(open=builtins.open, rename=os.rename, replace=os.replace, remove=os.remove,
             unlink=os.unlink, fsync=os.fsync, osopen=os.open, write=os.write, truncate=os.truncate)


class Recorder:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.log = []
        self.names = {}
        self.nino = 0
        self.fds = {}
        self.initial = {}
        for f in sorted(os.listdir(self.root)):
            p = os.path.join(self.root, f)
            if os.path.isfile(p):
                with _real["open"](p, "rb") as fd:
                    self.initial[f] = fd.read()
                self.names[f] = self._new()
        self.init_names = dict(self.names)

    def _new(self):
        self.nino += 1
        return self.nino

    def rel(self, p):
        try:
            p = os.path.realpath(os.fspath(p))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode()
        if p.startswith(self.root + os.sep):
            return p[len(self.root) + 1 :]
        return None

    def opened(self, name, trunc):
        if name not in self.names:
            self.names[name] = self._new()
            self.log.append(("create", name, self.names[name]))
        elif trunc:
            self.log.append(("trunc", self.names[name], 0))
        return self.names[name]

    # -- patched functions ------------------------------------------------------

    def install(self):
        rec = self

        class Raw(io.FileIO):
            def write(self, b):
                off = self.tell() if not self._app else os.fstat(self.fileno()).st_size
                data = bytes(b)
                n = io.FileIO.write(self, b)
                rec.log.append(("write", self._ino, off, data[:n]))
                return n

            def truncate(self, size=None):
                size = self.tell() if size is None else size
                rec.log.append(("trunc", self._ino, size))
                return io.FileIO.truncate(self, size)

        def vopen(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            name = None if isinstance(file, int) else rec.rel(file)
            if name is None or not set(mode) & set("wax+"):
                return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            raw = Raw(file, mode.replace("b", "").replace("t", ""))
            raw._app = "a" in mode
            raw._ino = rec.opened(name, "w" in mode)
            rec.fds[raw.fileno()] = raw._ino
            if "b" in mode and buffering == 0:
                return raw
            buf = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(raw)
            if "b" in mode:
                return buf
            t = io.TextIOWrapper(buf, encoding=encoding, errors=errors, newline=newline, line_buffering=buffering == 1)
            return t

        def vrename(a, b, *x, **k):
            ra, rb = rec.rel(a), rec.rel(b)
            _real["replace"](a, b)
            if ra is not None and rb is not None:
                rec.names[rb] = rec.names.pop(ra)
                rec.log.append(("rename", ra, rb))

        def vunlink(a, *x, **k):
            ra = rec.rel(a)
            _real["unlink"](a)
            if ra is not None:
                rec.names.pop(ra, None)
                rec.log.append(("unlink", ra))

        def vfsync(fd):
            n = fd if isinstance(fd, int) else fd.fileno()
            _real["fsync"](n)
            if n in rec.fds:
                rec.log.append(("fsync", rec.fds[n]))

        def vosopen(path, flags, *a, **k):
            fd = _real["osopen"](path, flags, *a, **k)
            name = rec.rel(path)
            if name is not None and flags & (os.O_WRONLY | os.O_RDWR):
                rec.fds[fd] = rec.opened(name, bool(flags & os.O_TRUNC))
            return fd

        def vwrite(fd, data):
            off = os.lseek(fd, 0, os.SEEK_CUR) if fd in rec.fds else 0
            n = _real["write"](fd, data)
            if fd in rec.fds:
                rec.log.append(("write", rec.fds[fd], off, bytes(data)[:n]))
            return n

        builtins.open = io.open = vopen
        os.rename = os.replace = vrename
        os.remove = os.unlink = vunlink
        os.fsync = os.fdatasync = vfsync
        os.open = vosopen
        os.write = vwrite

    def uninstall(self):
        builtins.open = io.open = _real["open"]
        os.rename, os.replace, os.remove, os.unlink = (_real[k] for k in ("rename", "replace", "remove", "unlink"))
        os.fsync = _real["fsync"]
        os.open = _real["osopen"]
        os.write = _real["write"]

    # -- crash model --------------------------------------------------------------

    def base(self):
        return dict(self.init_names), {self.init_names[f]: d for f, d in self.initial.items()}

    @staticmethod
    def _wr(data, ino, off, b):
        d = data.get(ino, b"")
        if len(d) < off:
            d = d + b"\0" * (off - len(d))
        data[ino] = d[:off] + b + d[off + len(b) :]

    @classmethod
    def apply(cls, names, data, op):
        k = op[0]
        if k == "create":
            names[op[1]] = op[2]
            data.setdefault(op[2], b"")
        elif k == "trunc":
            data[op[1]] = data.get(op[1], b"")[: op[2]]
        elif k == "write":
            cls._wr(data, op[1], op[2], op[3])
        elif k == "rename":
            if op[1] in names:
                names[op[2]] = names.pop(op[1])
        elif k == "unlink":
            names.pop(op[1], None)

    @staticmethod
    def files(names, data):
        return {f: data.get(i, b"") for f, i in names.items()}

    def kill_states(self, cuts=True):
        """Yields (label, torn, files)."""
        names, data = self.base()
        yield (0, False), self.files(names, data)
        for k, op in enumerate(self.log):
            if cuts and op[0] == "write" and len(op[3]) > 1:
                for c in sorted({1, len(op[3]) // 2, len(op[3]) - 1}):
                    d2 = dict(data)
                    self._wr(d2, op[1], op[2], op[3][:c])
                    yield (k, c), self.files(names, d2)
            self.apply(names, data, op)
            yield (k + 1, False), self.files(names, data)

    def power_states(self, back=4):
        """Yields (label, files): power loss after k operations."""
        meta = [k for k, op in enumerate(self.log) if op[0] in ("create", "rename", "unlink", "trunc")]
        for k in range(len(self.log) + 1):
            mk = [m for m in meta if m < k]
            # name changes persisted up to any of the last `back` points
            limits = [k] + [m for m in mk[-back:]]
            synced = {}
            for i in range(k):
                if self.log[i][0] == "fsync":
                    synced[self.log[i][1]] = i
            dirty = sorted({self.log[i][1] for i in range(k) if self.log[i][0] == "write" and i > synced.get(self.log[i][1], -1)})
            for lim in limits:
                for choice in itertools.product((0, 1, 2), repeat=len(dirty)):
                    ch = dict(zip(dirty, choice))
                    names, data = self.base()
                    for i in range(k):
                        op = self.log[i]
                        if op[0] == "write":
                            if i > synced.get(op[1], -1) and op[1] in ch:
                                if ch[op[1]] == 0:
                                    continue
                                if ch[op[1]] == 1:
                                    op = ("write", op[1], op[2], op[3][: len(op[3]) // 2])
                                    self.apply(names, data, op)
                                    ch = {**ch, op[1]: 0}
                                    continue
                            self.apply(names, data, op)
                        elif op[0] == "fsync":
                            pass
                        elif i < lim:
                            self.apply(names, data, op)
                        elif op[0] == "create":
                            data.setdefault(op[2], b"")
                    yield (k, lim, choice), self.files(names, data)
