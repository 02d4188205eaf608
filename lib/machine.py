"""Loads a pnut-generated executable into the x86 machine simulator and runs it
against the simulated kernel. Loader and system-call ABIs: Linux i386, Linux
x86-64, macOS x86-64."""
import ctypes, os, struct
import kernel as K
import build

_lib = None
_buf = ctypes.create_string_buffer(1 << 16)


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(build.x86sim())
        u64, vp, i = ctypes.c_uint64, ctypes.c_void_p, ctypes.c_int
        for n, res, args in [("sim_new", vp, [i]), ("sim_free", None, [vp]), ("sim_map", i, [vp, u64, u64, i, i]), ("sim_unmap", i, [vp, u64, u64]),
                             ("sim_poke", u64, [vp, u64, ctypes.c_char_p, u64]), ("sim_copyout", u64, [vp, u64, ctypes.c_char_p, u64]),
                             ("sim_peek", u64, [vp, u64, ctypes.c_char_p, u64]), ("sim_regs", ctypes.POINTER(ctypes.c_uint64), [vp]),
                             ("sim_getpc", u64, [vp]), ("sim_setpc", None, [vp, u64]), ("sim_icount", u64, [vp]), ("sim_info", u64, [vp, i]),
                             ("sim_run", i, [vp, u64]), ("sim_setcf", None, [vp, i])]:
            f = getattr(_lib, n)
            f.restype, f.argtypes = res, args
    return _lib


class LoadError(Exception):
    pass


STOP = {1: "syscall", 2: "limit", 3: "fault", 4: "illegal", 5: "unsupported", 6: "divide", 7: "trap"}
PAGE = 4096


def parse_elf(img):
    if img[:4] != b"\x7fELF":
        raise LoadError("not an ELF file")
    cls = img[4]
    if img[5] != 1 or img[6] != 1:
        raise LoadError("bad ELF ident")
    if cls == 1:
        et, em, ev, entry, phoff, shoff, fl, ehs, phs, phn = struct.unpack_from("<HHIIIIIHHH", img, 16)
        if em != 3 or ehs != 52 or phs != 32:
            raise LoadError("bad ELF32 header")
    elif cls == 2:
        et, em, ev, entry, phoff, shoff, fl, ehs, phs, phn = struct.unpack_from("<HHIQQQIHHH", img, 16)
        if em != 62 or ehs != 64 or phs != 56:
            raise LoadError("bad ELF64 header")
    else:
        raise LoadError("bad ELF class")
    if et != 2 or ev != 1 or phn < 1:
        raise LoadError("not an executable ELF file")
    segs = []
    for k in range(phn):
        o = phoff + k * phs
        if o + phs > len(img):
            raise LoadError("truncated program header")
        if cls == 1:
            pt, off, va, pa, fs, ms, pf, al = struct.unpack_from("<IIIIIIII", img, o)
        else:
            pt, pf, off, va, pa, fs, ms, al = struct.unpack_from("<IIQQQQQQ", img, o)
        if pt != 1:
            continue
        if off + fs > len(img):
            raise LoadError("truncated segment")
        if ms < fs or off % PAGE != va % PAGE:
            raise LoadError("bad segment")
        # page-granular mapping, as the kernel does
        lo, hi = va & ~(PAGE - 1), (va + ms + PAGE - 1) & ~(PAGE - 1)
        body = img[off - (va - lo):off - (va - lo) + (hi - lo)]
        fend = va - lo + fs
        if ms > fs:
            body = body[:fend]
        prot = (1 if pf & 4 else 0) | (2 if pf & 2 else 0) | (4 if pf & 1 else 0)
        segs.append((lo, hi - lo, prot, body))
    return 32 if cls == 1 else 64, entry, segs


def parse_macho(img):
    if len(img) < 4096:
        raise LoadError("Mach-O file below 4096 bytes")
    magic, cpu, sub, ft, ncmds, size, fl, _ = struct.unpack_from("<IIIIIIII", img, 0)
    if magic != 0xfeedfacf or cpu != 0x01000007 or ft != 2:
        raise LoadError("bad Mach-O header")
    o, segs, entry = 32, [], None
    for _ in range(ncmds):
        cmd, cs = struct.unpack_from("<II", img, o)
        if cs < 8 or o + cs > 32 + size:
            raise LoadError("bad load command")
        if cmd == 0x19:
            name, va, vs, fo, fs, mp, ip = struct.unpack_from("<16sQQQQII", img, o + 8)
            if fs:
                if fo + fs > len(img) or vs < fs or va % PAGE:
                    raise LoadError("bad segment")
                hi = (vs + PAGE - 1) & ~(PAGE - 1)
                prot = (1 if ip & 1 else 0) | (2 if ip & 2 else 0) | (4 if ip & 4 else 0)
                segs.append((va, hi, prot, img[fo:fo + hi]))
        elif cmd == 5:
            entry = struct.unpack_from("<Q", img, o + 16 + 16 * 8)[0]
        o += cs
    if entry is None or not segs:
        raise LoadError("no entry point or no segment")
    return 64, entry, segs


LINUX32 = {1: "exit", 252: "exit", 3: "read", 4: "write", 5: "open", 6: "close", 19: "lseek", 10: "unlink", 192: "mmap", 91: "munmap", 45: "brk"}
LINUX64 = {60: "exit", 231: "exit", 0: "read", 1: "write", 2: "open", 3: "close", 8: "lseek", 87: "unlink", 9: "mmap", 11: "munmap", 12: "brk"}
MAC64 = {0x2000001: "exit", 0x2000003: "read", 0x2000004: "write", 0x2000005: "open", 0x2000006: "close", 0x20000c7: "lseek", 0x200000a: "unlink",
         0x20000c5: "mmap", 0x2000049: "munmap"}
ABI = {"i386": LINUX32, "x64": LINUX64, "mac": MAC64}


class Result:
    """How a simulated process ended: kind 'exit' (code), 'fault', 'illegal',
    'divide', 'limit', 'unsupported', 'badsyscall', 'load'."""
    __slots__ = ("kind", "code", "detail", "icount", "maps")

    def __init__(self, kind, code=None, detail="", icount=0, maps=None):
        self.kind, self.code, self.detail, self.icount, self.maps = kind, code, detail, icount, maps or []

    def __repr__(self):
        return "%s(%s)%s" % (self.kind, self.code, " " + self.detail if self.detail else "")


DEF = dict(argv=["prog"], env=[], limit=20_000_000, mmap=None, stack_top=None, stack_size=8 << 20, poison=0, auxv=True)


def run(img, target, kern, argv=("prog",), env=(), limit=20_000_000, mmap=None, stack_top=None, stack_size=8 << 20, poison=0xA5, mmap_fail=None):
    """Runs the executable image to the end. mmap: list of addresses for successive mmap calls."""
    L = lib()
    try:
        mode, entry, segs = parse_macho(img) if target == "mac" else parse_elf(img)
        if mode != (32 if target == "i386" else 64):
            raise LoadError("wrong class")
    except (LoadError, struct.error) as e:
        return Result("load", detail=str(e))
    s = L.sim_new(mode)
    try:
        return _run(L, s, mode, entry, segs, target, kern, argv, env, limit, mmap, stack_top, stack_size, poison, mmap_fail)
    finally:
        L.sim_free(s)


def _b(x):
    return x if isinstance(x, bytes) else x.encode("latin1")


def _run(L, s, mode, entry, segs, target, kern, argv, env, limit, mmap, stack_top, stack_size, poison, mmap_fail):
    W = 8 if mode == 64 else 4
    for lo, size, prot, body in segs:
        if L.sim_map(s, lo, size, prot, 1 if prot & 4 else 0):
            return Result("load", detail="segments overlap")
        L.sim_poke(s, lo, bytes(body), len(body))
    if stack_top is None:
        stack_top = 0xbfffe000 if mode == 32 else 0x7fffffffe000
    L.sim_map(s, (stack_top - stack_size) & -4096, stack_size + (stack_top & 4095 and 4096), 3, 0)
    # strings, then the vectors
    strs = [_b(a) for a in argv]
    envs = [_b(e) for e in env]
    p = stack_top - 64
    addrs = []
    for x in reversed(strs + envs):
        p -= len(x) + 1
        L.sim_poke(s, p, x + b"\0", len(x) + 1)
        addrs.append(p)
    addrs.reverse()
    na = len(strs)
    vec = [len(strs)] + addrs[:na] + [0] + addrs[na:] + [0]
    if target == "mac":
        vec += [addrs[0] if addrs else 0, 0]     # apple[]
    else:
        vec += [6, 4096, 25, p, 0, 0]            # auxv: AT_PAGESZ, AT_RANDOM, AT_NULL
    sp = (p - len(vec) * W) & ~15
    L.sim_poke(s, sp, struct.pack("<%d%s" % (len(vec), "Q" if W == 8 else "I"), *[v & (2 ** (8 * W) - 1) for v in vec]), len(vec) * W)
    if poison:
        L.sim_poke(s, sp - 65536, bytes([poison]) * 65536, 65536)   # the stack below is not promised to be zero
    r = L.sim_regs(s)
    for i in range(16):
        r[i] = 0
    r[4] = sp
    L.sim_setpc(s, entry)
    abi = ABI[target]
    maps = []
    mm = list(mmap or [])
    nextmap = 0x70000000 if mode == 32 else 0x7ffff0000000
    nmap = 0
    while True:
        st = L.sim_run(s, limit)
        ic = L.sim_icount(s)
        if st == 2:
            return Result("limit", icount=ic, maps=maps)
        if st != 1:
            d = "pc=%#x" % L.sim_info(s, 2)
            if st == 3:
                d += " %s %#x" % ({1: "read", 2: "write", 4: "exec"}.get(L.sim_info(s, 1), "?"), L.sim_info(s, 0))
            return Result(STOP[st], detail=d, icount=ic, maps=maps)
        via = L.sim_info(s, 0)
        if (via == 0x80) != (mode == 32):
            return Result("badsyscall", detail="entry %#x" % via, icount=ic, maps=maps)
        if mode == 32:
            nr, a = r[0], (r[3], r[1], r[2], r[6], r[7], r[5])
        else:
            nr, a = r[0], (r[7], r[6], r[2], r[10], r[8], r[9])
        op = abi.get(nr)
        if mode == 32:
            sg = lambda v: v - (1 << 32) if v & 0x80000000 else v
        else:
            sg = lambda v: v - (1 << 64) if v >> 63 else v
        i32 = lambda v: (v & 0xffffffff) - (1 << 32) if v & 0x80000000 else v & 0xffffffff

        def cstr(addr):
            global _buf
            out = b""
            while len(out) < 65536:
                n = L.sim_peek(s, addr + len(out), _buf, 4096)
                if n == 0:
                    return None
                c = _buf.raw[:n]
                z = c.find(b"\0")
                if z >= 0:
                    return (out + c[:z]).decode("latin1")
                out += c
            return None
        if op == "exit":
            kern.exit(a[0] & 0xffffffff)
            return Result("exit", kern.exited, icount=ic, maps=maps)
        elif op == "read":
            n = a[2]
            fd = i32(a[0])
            if n >= 1 << (8 * W - 1):
                kern.hist.append(("read", fd, sg(n), -K.EINVAL, b""))
                ret = -K.EINVAL
            else:
                # a bad buffer is refused before any byte moves
                probe = L.sim_peek(s, a[1], _buf, 1) if n else 1
                if n and not probe:
                    kern.hist.append(("read", fd, n, -K.EFAULT, b""))
                    ret = -K.EFAULT
                else:
                    ret, data = kern.read(fd, n)
                    if ret > 0 and L.sim_copyout(s, a[1], data, len(data)) != len(data):
                        ret = -K.EFAULT
        elif op == "write":
            n, fd = a[2], i32(a[0])
            if n >= 1 << (8 * W - 1):
                kern.hist.append(("write", fd, b"?", -K.EINVAL))
                ret = -K.EINVAL
            else:
                if n <= 65536:
                    buf = _buf
                else:
                    n = min(n, 64 << 20)
                    buf = ctypes.create_string_buffer(n)
                got = L.sim_peek(s, a[1], buf, n) if n else 0
                if n and not got:
                    kern.hist.append(("write", fd, b"<bad buffer>", -K.EFAULT))
                    ret = -K.EFAULT
                else:
                    ret = kern.write(fd, ctypes.string_at(buf, got))
        elif op == "open":
            path = cstr(a[0])
            if path is None:
                kern.hist.append(("open", None, i32(a[1]), None, -K.EFAULT))
                ret = -K.EFAULT
            else:
                ret = kern.open(path, i32(a[1]), a[2] & 0xffff)
        elif op == "close":
            ret = kern.close(i32(a[0]))
        elif op == "lseek":
            ret = kern.lseek(i32(a[0]), sg(a[1]), i32(a[2]))
            if mode == 32 and ret > 0x7fffffff:
                ret = -75
        elif op == "unlink":
            path = cstr(a[0])
            ret = kern.unlink(path) if path is not None else -K.EFAULT
        elif op == "mmap":
            size, prot, flags = a[1], a[2], a[3]
            rule = kern.plan.get(("mmap", "", nmap))
            nmap += 1
            ok = (flags & 0x1000 if target == "mac" else flags & 0x20) and i32(a[4]) == -1 and size
            if rule is not None:
                kern.injected["mmap err:ENOMEM"] = kern.injected.get("mmap err:ENOMEM", 0) + 1
                ret = -K.ENOMEM
            elif not ok:
                ret = -K.EINVAL
            else:
                size = (size + PAGE - 1) & ~(PAGE - 1)
                base = mm.pop(0) if mm else None
                if base is None or L.sim_map(s, base, size, prot & 7, 0):
                    base = nextmap - size
                    while base > 65536 and L.sim_map(s, base, size, prot & 7, 0):
                        base -= 1 << 20
                    if base > 65536:
                        nextmap = base - 65536
                if base > 65536:
                    maps.append((base, size))
                    ret = base
                else:
                    ret = -K.ENOMEM          # no room in the address space
        elif op == "munmap":
            ret = -K.EINVAL if L.sim_unmap(s, a[0], a[1]) else 0
        elif op == "brk":
            ret = 0
        else:
            return Result("badsyscall", detail="number %#x" % nr, icount=ic, maps=maps)
        if target == "mac":
            if ret < 0:
                r[0] = -ret
                L.sim_setcf(s, 1)
            else:
                r[0] = ret & (2 ** 64 - 1)
                L.sim_setcf(s, 0)
            r[2] = 0
        else:
            r[0] = ret & (0xffffffff if mode == 32 else 2 ** 64 - 1)
