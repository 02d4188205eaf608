"""The simulated operating system.

One small POSIX file/stream model, driven by an explicit fault plan. It is used
twice: by the machine simulator (lib/machine.py) to answer the system calls of
pnut-generated executables, and by the reference interpreter (lib/minic.py) to
say what the C program would have seen. Every answer is a function of the
initial files, the call sequence and the plan: no clocks, no host state.

Fault plan: a list of rules
  {"op": read|write|open|close|lseek|unlink|mmap, "obj": NAME, "n": k, "do": ...}
fires on the k-th call (from 0) of that operation on that object, or with
"pos": p instead of "n" on the first call (every call, with "persist") that
starts at stream position p.
  do: "err" (errno), "short" (k bytes at most), "eof", "ret" (value)
"""
import os
ENOENT, EINTR, EIO, EBADF, EAGAIN, ENOMEM, EACCES, EFAULT, EISDIR, EINVAL, ENFILE, EMFILE, EFBIG, ENOSPC, ESPIPE, EROFS, EPIPE = \
    2, 4, 5, 9, 11, 12, 13, 14, 21, 22, 23, 24, 27, 28, 29, 30, 32
EDQUOT = 122
ERRNAME = {2: "ENOENT", 4: "EINTR", 5: "EIO", 9: "EBADF", 11: "EAGAIN", 12: "ENOMEM", 13: "EACCES", 14: "EFAULT", 21: "EISDIR",
           22: "EINVAL", 23: "ENFILE", 24: "EMFILE", 27: "EFBIG", 28: "ENOSPC", 29: "ESPIPE", 30: "EROFS", 32: "EPIPE", 122: "EDQUOT"}
O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 1, 2, 0o100, 0o200, 0o1000, 0o2000
# The same flags on macOS
MAC_CREAT, MAC_TRUNC, MAC_EXCL, MAC_APPEND = 0x200, 0x400, 0x800, 0x8


class Obj:
    __slots__ = ("name", "data", "kind", "mode")

    def __init__(self, name, data=b"", kind="file", mode=0o644):
        self.name, self.data, self.kind, self.mode = name, bytearray(data), kind, mode


class Desc:
    __slots__ = ("obj", "pos", "acc", "append")

    def __init__(self, obj, acc, append=False):
        self.obj, self.pos, self.acc, self.append = obj, 0, acc, append


class Kernel:
    def __init__(self, files=None, stdin=b"", plan=None, fdbase=None, modes=None, mac=False, norm=False):
        self.norm = norm                  # paths may have . and .. components
        self.files = {n: Obj(n, d) for n, d in (files or {}).items()}
        for n, m in (modes or {}).items():
            if m == "dir":
                self.files[n] = Obj(n, b"", "dir")
            elif n in self.files:
                self.files[n].mode = m
        self.stdin, self.stdout, self.stderr = Obj("<stdin>", stdin, "in"), Obj("<stdout>", b"", "out"), Obj("<stderr>", b"", "out")
        self.trace = Obj("<trace>", b"", "out")
        self.fds = {0: Desc(self.stdin, 0), 1: Desc(self.stdout, 1), 2: Desc(self.stderr, 1), 99: Desc(self.trace, 1)}
        self.plan = {}
        self.posplan = {}
        for r in plan or []:
            if "pos" in r:
                self.posplan.setdefault((r["op"], r["obj"]), {})[r["pos"]] = dict(r)
            else:
                self.plan[(r["op"], r["obj"], r["n"])] = r
        self.count = {}
        self.calls = []                    # (op, object, n, position) of every call that may be given a fault
        self.hist = []
        self.injected = {}
        self.fdmap = list(fdbase or [])   # forced descriptor numbers for successive opens
        self.mac = mac
        self.exited = None

    # -- fault plan
    def _rule(self, op, name, pos=None):
        k = self.count.get((op, name), 0)
        self.count[(op, name)] = k + 1
        self.calls.append((op, name, k, pos))
        r = self.plan.get((op, name, k))
        if r is None and pos is not None:
            pp = self.posplan.get((op, name))
            if pp:
                r = pp.get(pos)
                if r is not None and not r.get("persist"):
                    if r.get("fired"):
                        r = None
                    else:
                        r["fired"] = True
        if r is not None:
            what = r["do"] + (":" + ERRNAME.get(r.get("errno"), str(r.get("errno"))) if r["do"] == "err" else "")
            key = op + " " + what
            self.injected[key] = self.injected.get(key, 0) + 1
        return r

    def _name(self, fd):
        d = self.fds.get(fd)
        return d.obj.name if d else "<bad>"

    # -- operations; results are >= 0 or -errno
    def read(self, fd, n):
        """-> (ret, data)"""
        d = self.fds.get(fd)
        if d is None or d.acc == 1:
            ret, data = -EBADF, b""
        else:
            r = self._rule("read", d.obj.name, d.pos)
            if r is not None and r["do"] == "err":
                ret, data = -r["errno"], b""
            elif r is not None and r["do"] == "eof":
                ret, data = 0, b""
            elif d.obj.kind == "dir":
                ret, data = -EISDIR, b""
            else:
                m = n
                if r is not None and r["do"] == "short":
                    m = min(n, r["k"])
                pp = self.posplan.get(("read", d.obj.name))
                if pp:              # a fault placed at a position is met there, whatever the size of the requests
                    for q in pp:
                        if d.pos < q < d.pos + m:
                            m = q - d.pos
                data = bytes(d.obj.data[d.pos:d.pos + m])
                d.pos += len(data)
                ret = len(data)
        self.hist.append(("read", fd, n, ret, data))
        return ret, data

    def write(self, fd, data):
        d = self.fds.get(fd)
        if d is None or d.acc == 0:
            ret = -EBADF
        else:
            if d.append or d.obj.kind == "out":
                d.pos = len(d.obj.data)
            r = self._rule("write", d.obj.name, d.pos)
            if r is not None and r["do"] == "err":
                ret = -r["errno"]
            elif d.pos + len(data) > 1 << 22:     # file size limit of the simulated process
                ret = -EFBIG
            else:
                m = len(data)
                if r is not None and r["do"] == "short":
                    m = min(m, r["k"])
                o = d.obj.data
                if d.pos > len(o):
                    o.extend(bytes(d.pos - len(o)))
                o[d.pos:d.pos + m] = data[:m]
                d.pos += m
                ret = m
        self.hist.append(("write", fd, bytes(data), ret))
        return ret

    def open(self, path, flags, mode=0):
        acc = flags & 3
        creat, trunc, append, excl = (MAC_CREAT, MAC_TRUNC, MAC_APPEND, MAC_EXCL) if self.mac else (O_CREAT, O_TRUNC, O_APPEND, O_EXCL)
        if self.norm and path not in self.files:
            path = os.path.normpath(path)
        r = self._rule("open", path)
        o = self.files.get(path)
        if r is not None and r["do"] == "err":
            ret = -r["errno"]
        elif acc == 3:
            ret = -EINVAL
        elif o is None and not flags & creat:
            ret = -ENOENT
        elif o is not None and flags & creat and flags & excl:
            ret = -17
        elif o is not None and o.kind == "dir" and acc != 0:
            ret = -EISDIR
        elif o is not None and ((acc in (0, 2) and not o.mode & 0o400) or (acc in (1, 2) and not o.mode & 0o200)):
            ret = -EACCES
        else:
            if o is None:
                o = self.files[path] = Obj(path, b"", "file", 0o644)
            if flags & trunc and acc:
                del o.data[:]
            fd = 0
            while fd in self.fds:
                fd += 1
            if r is not None and r["do"] == "fd" and r["fd"] not in self.fds:
                fd = r["fd"]
            self.fds[fd] = Desc(o, acc, bool(flags & append))
            ret = fd
        self.hist.append(("open", path, flags, (mode if flags & creat else None), ret))
        return ret

    def close(self, fd):
        if fd in self.fds:
            r = self._rule("close", self._name(fd))
            del self.fds[fd]
            ret = -r["errno"] if r is not None and r["do"] == "err" else 0
        else:
            ret = -EBADF
        self.hist.append(("close", fd, ret))
        return ret

    def lseek(self, fd, off, wh):
        d = self.fds.get(fd)
        if d is None:
            ret = -EBADF
        elif d.obj.kind in ("in", "out"):
            ret = -ESPIPE
        else:
            r = self._rule("lseek", d.obj.name)
            if r is not None and r["do"] == "err":
                ret = -r["errno"]
            elif wh not in (0, 1, 2):
                ret = -EINVAL
            else:
                p = off + (0 if wh == 0 else d.pos if wh == 1 else len(d.obj.data))
                if p < 0 or p > 0x7fffffff:       # the largest file this file system holds
                    ret = -EINVAL
                else:
                    d.pos = ret = p
        self.hist.append(("lseek", fd, off, wh, ret))
        return ret

    def unlink(self, path):
        r = self._rule("unlink", path)
        if r is not None and r["do"] == "err":
            ret = -r["errno"]
        elif path not in self.files:
            ret = -ENOENT
        elif self.files[path].kind == "dir":
            ret = -EISDIR
        else:
            del self.files[path]
            ret = 0
        self.hist.append(("unlink", path, ret))
        return ret

    def exit(self, code):
        self.exited = code & 255
        self.hist.append(("exit", self.exited))

    def snapshot(self):
        return {n: bytes(o.data) for n, o in sorted(self.files.items()) if o.kind == "file"}
