"""Model disk: what survives a power loss after a recorded sequence of file operations."""


def parse(logpath):
    b = open(logpath, "rb").read()
    out, i = [], 0
    while i < len(b):
        j = b.index(b"\n", i)
        op, seq, fd, a, c, off, ln = b[i:j].decode().split("\t")
        ln = int(ln)
        out.append((op, int(fd), a, c, int(off), b[j + 1:j + 1 + ln]))
        i = j + 1 + ln
    return out


def powerloss(before, log, upto, rng):
    """before: {path: bytes}.  Metadata operations reach the disk in order, but possibly only some of them; data of a file
    is only safe after fsync, otherwise any part of it may be missing (torn or zero) after the loss.  -> {path: bytes}, kind"""
    inodes = {}       # id -> [durable bytes, [pending data ops]]
    names = {}        # path -> id
    for i, (p, c) in enumerate(sorted(before.items())):
        inodes[i] = [c, []]
        names[p] = i
    fds = {}
    meta = []         # ("set", path, id) | ("del", path) | ("mv", a, b)
    nextid = len(inodes)
    cur = dict(names)
    synced = 0
    for (op, fd, a, c, off, data) in log[:upto]:
        if op == "OPEN":
            if c == "new":
                inodes[nextid] = [b"", []]
                cur[a] = nextid
                meta.append(("set", a, nextid))
                nextid += 1
            fds[fd] = [cur.get(a), 0]
            if cur.get(a) is None:
                continue
            if c == "trunc":
                inodes[cur[a]][1].append(("trunc", 0))
        elif op == "WRITE" and fd in fds and fds[fd][0] is not None:
            inodes[fds[fd][0]][1].append(("write", off, data))
        elif op == "TRUNC" and fd in fds and fds[fd][0] is not None:
            inodes[fds[fd][0]][1].append(("trunc", off))
        elif op == "FSYNC":
            if fd in fds and fds[fd][0] is not None:
                ino = inodes[fds[fd][0]]
                for d in ino[1]:
                    ino[0] = apply(ino[0], d)
                ino[1] = []
            else:
                synced = len(meta)      # a directory
        elif op == "SYNCALL":
            for ino in inodes.values():
                for d in ino[1]:
                    ino[0] = apply(ino[0], d)
                ino[1] = []
            synced = len(meta)
        elif op == "RENAME":
            if a in cur:
                meta.append(("mv", a, c))
                cur[c] = cur.pop(a)
        elif op == "LINK":
            if a in cur:
                meta.append(("set", c, cur[a]))
                cur[c] = cur[a]
        elif op == "UNLINK":
            if a in cur:
                meta.append(("del", a))
                cur.pop(a)
        elif op == "CLOSE":
            fds.pop(fd, None)
    m = rng.randint(synced, len(meta)) if rng.random() < 0.6 else len(meta)
    disk = dict(names)
    for e in meta[:m]:
        if e[0] == "set":
            disk[e[1]] = e[2]
        elif e[0] == "mv":
            if e[1] in disk:
                disk[e[2]] = disk.pop(e[1])
        else:
            disk.pop(e[1], None)
    out = {}
    torn = 0
    for p, i in sorted(disk.items()):
        c, pend = inodes[i]
        mode = rng.choice(["none", "all", "some", "torn"]) if pend else "all"
        for d in pend:
            if mode == "none" or (mode == "some" and rng.random() < 0.5):
                if d[0] == "write" and mode == "some":
                    c = apply(c, ("write", d[1], b"\0" * len(d[2])))   # length is there, data is not
                torn += 1
                continue
            if mode == "torn" and d[0] == "write":
                k = rng.randint(0, len(d[2]))
                c = apply(c, ("write", d[1], d[2][:k]))
                torn += 1
                continue
            c = apply(c, d)
        out[p] = c
    return out, {"metadata_lost": len(meta) - m, "data_lost": torn}


def apply(c, d):
    if d[0] == "trunc":
        return c[:d[1]] + b"\0" * (d[1] - len(c))
    off = d[1] if d[1] >= 0 else len(c)
    c = c + b"\0" * (off - len(c))
    return c[:off] + d[2] + c[off + len(d[2]):]
