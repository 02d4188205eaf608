"""Fault plans: chosen from the calls a fault-free run makes, so that every fault
lands inside the workload."""
import kernel as K

READ_ERR = [K.EIO, K.EINTR, K.EAGAIN, K.EBADF, K.EFAULT]
WRITE_ERR = [K.ENOSPC, K.EIO, K.EPIPE, K.EINTR, K.EAGAIN, K.EFBIG]
OPEN_ERR = [K.EMFILE, K.ENFILE, K.EACCES, K.EINTR, K.ENOMEM, K.ENOENT, K.EROFS]
BIG_FDS = [3, 9, 10, 100, 255, 256, 1023, 65535, 65536, 1048575, 0x7ffffff0]


def rule(c, op, obj, n):
    k = c(3)
    r = {"op": op, "obj": obj, "n": n}
    if op == "read":
        if k == 0:
            r.update(do="err", errno=READ_ERR[c(len(READ_ERR))])
        elif k == 1:
            r.update(do="short", k=1 + c(4))
        else:
            r.update(do="eof")
    elif op == "write":
        if k < 2:
            r.update(do="err", errno=WRITE_ERR[c(len(WRITE_ERR))])
        else:
            r.update(do="short", k=c(4))
    elif op == "open":
        if k == 0:
            r.update(do="err", errno=OPEN_ERR[c(len(OPEN_ERR))])
        else:
            r.update(do="fd", fd=BIG_FDS[c(len(BIG_FDS))])
    elif op == "close":
        r.update(do="err", errno=[K.EIO, K.EINTR, K.EBADF][c(3)])
    else:
        r.update(do="err", errno=[K.EIO, K.EINVAL, K.EACCES, K.ESPIPE][c(4)])
    return r


def add_fault(c, calls, plan, ops=None):
    """Appends one rule for a call of the recorded run that has none yet; True if it did."""
    taken = {(r["op"], r["obj"], r.get("n")) for r in plan}
    cand = [x for x in calls if (ops is None or x[0] in ops) and x[:3] not in taken and x[1] != "<trace>"]
    if not cand:
        return False
    # half of the faults near the end of what is known, the others anywhere
    x = cand[c(len(cand))]
    plan.append(rule(c, x[0], x[1], x[2]))
    return True


def pos_fault(c, obj, size, do=None):
    """A fault of a stream at a position, however the reads are cut."""
    k = c(3)
    r = {"op": "read", "obj": obj, "pos": c(size + 1)}
    if k == 0:
        r.update(do="err", errno=READ_ERR[c(3)], persist=True)
    elif k == 1:
        r.update(do="err", errno=READ_ERR[c(3)])
    else:
        r.update(do="eof")
    return r
