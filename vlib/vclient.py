"""Reference model of a driver (client) speaking the i-PI socket protocol.

It is a reactive state machine on the virtual network: it parses what i-PI sends
byte by byte, computes a known function of the structure it was given and answers.
Every answer is a choice point for the failures a client can show.
"""

import json

import numpy as np

HDR = 12


def hdr(s):
    return s.upper().ljust(HDR).encode()


def model(pos, h):
    """The reference potential: any result can be traced to its own structure."""
    pos = np.asarray(pos, float).reshape(-1)
    w = 1.0 + np.arange(len(pos)) * 0.25
    pot = float(np.dot(w, pos) + 0.125 * np.sum(pos**2) + np.trace(h))
    f = -(w + 0.25 * pos)
    vir = np.outer(f[:3], pos[:3]) + 0.5 * h
    return pot, f, vir


def model_extra(pos, kind):
    s = repr([float(x) for x in np.asarray(pos).reshape(-1)[:3]])
    if kind == "none":
        return ""
    if kind == "raw":
        return "sig=" + s
    return json.dumps({"sig": s, "v": [1.0, 2.5]})


FAULTS = ("ok", "fin", "rst", "partial-fin", "partial-rst", "frag", "ok-fin", "slow")


class Client:
    def __init__(self, net, choose, name, opts):
        self.net, self.choose, self.name = net, choose, name
        self.sched = net.sched
        self.o = opts
        self.inbuf = bytearray()
        self.state = "needinit" if opts.get("needinit") else "ready"
        self.batch = opts.get("batch", 1)
        self.init_seen = None
        self.shm = None
        self.dead = False
        self.sent = 0  # bytes sent so far
        self.exited = False
        self.log = []
        self.computed = 0
        self.faults = opts.get("faults", FAULTS)
        self.last_at = 0.0
        self.result = None
        self.end = None

    # -- input --------------------------------------------------------------
    def feed(self, data):
        if self.dead:
            return
        self.inbuf.extend(data)
        while not self.dead and self._parse():
            pass

    def _need(self, n):
        return len(self.inbuf) >= n

    def _parse(self):
        b = self.inbuf
        if len(b) < HDR:
            return False
        h = bytes(b[:HDR]).decode("latin1").strip().lower()
        if h == "status":
            del b[:HDR]
            self.log.append("status")
            self.reply("status", hdr(self.state))
            return True
        if h == "exit":
            del b[:HDR]
            self.exited = True
            self.dead = True
            self.log.append("exit")
            return False
        if h == "init":
            if not self._need(HDR + 8):
                return False
            n = int(np.frombuffer(bytes(b[HDR + 4 : HDR + 8]), np.int32)[0])
            if not self._need(HDR + 8 + n):
                return False
            rid = int(np.frombuffer(bytes(b[HDR : HDR + 4]), np.int32)[0])
            s = bytes(b[HDR + 8 : HDR + 8 + n]).decode()
            del b[: HDR + 8 + n]
            self.init_seen = (rid, s)
            self.log.append("init")
            if self.state != "needinit":
                raise AssertionError("protocol: INIT in state " + self.state)
            self.state = "ready"
            return True
        if h == "posdata":
            if self.o.get("shm"):
                return self._posdata_shm()
            if self.batch > 1:
                return self._posdata_batch()
            o = HDR + 144
            if not self._need(o + 4):
                return False
            nat = int(np.frombuffer(bytes(b[o : o + 4]), np.int32)[0])
            if not self._need(o + 4 + 24 * nat):
                return False
            cell = np.frombuffer(bytes(b[HDR : HDR + 72]), float).reshape(3, 3)
            icell = np.frombuffer(bytes(b[HDR + 72 : o]), float).reshape(3, 3)
            pos = np.frombuffer(bytes(b[o + 4 : o + 4 + 24 * nat]), float)
            del b[: o + 4 + 24 * nat]
            self._compute([(pos, cell, icell)], nat)
            return True
        if h == "getforce":
            del b[:HDR]
            self.log.append("getforce")
            if self.state != "havedata":
                raise AssertionError("protocol: GETFORCE in state " + self.state)
            self.state = "needinit" if self.o.get("reinit") else "ready"
            self.reply("force", self._payload())
            return True
        raise AssertionError("protocol: unknown header %r" % h)

    def _posdata_batch(self):
        b, n = self.inbuf, self.batch
        if not self._need(HDR + 4):
            return False
        nat = int(np.frombuffer(bytes(b[HDR : HDR + 4]), np.int32)[0])
        tot = HDR + 4 + n * 144 + n * 24 * nat
        if not self._need(tot):
            return False
        o = HDR + 4
        cells = np.frombuffer(bytes(b[o : o + n * 144]), float).reshape(n, 2, 3, 3)
        o += n * 144
        pos = np.frombuffer(bytes(b[o:tot]), float).reshape(n, 3 * nat)
        del b[:tot]
        self._compute([(pos[i], cells[i][0], cells[i][1]) for i in range(n)], nat)
        return True

    def _posdata_shm(self):
        b, n = self.inbuf, self.batch
        if not self._need(HDR + 4):
            return False
        nat = int(np.frombuffer(bytes(b[HDR : HDR + 4]), np.int32)[0])
        o = HDR + 4
        if self.shm is None:
            names = []
            for _ in range(6):
                if not self._need(o + 4):
                    return False
                k = int(np.frombuffer(bytes(b[o : o + 4]), np.int32)[0])
                if not self._need(o + 4 + k):
                    return False
                names.append(bytes(b[o + 4 : o + 4 + k]).decode())
                o += 4 + k
            SM = self.o["shm"]
            shapes = [(n, 3 * nat), (n, 3, 3), (n, 3, 3), (n,), (n, 3 * nat), (n, 3, 3)]
            self.shm = [
                np.ndarray(sh, float, buffer=SM(name=nm).buf) for sh, nm in zip(shapes, names)
            ]
        del b[:o]
        p, h, ih = self.shm[:3]
        self._compute([(p[i].copy(), h[i].copy(), ih[i].copy()) for i in range(n)], nat)
        return True

    def _compute(self, structs, nat):
        if self.state != "ready":
            raise AssertionError("protocol: POSDATA in state " + self.state)
        for p, h, ih in structs:
            if np.abs(h @ ih - np.eye(3)).max() > 1e-9:
                raise AssertionError("protocol: inverse cell does not match the cell")
        self.log.append("posdata")
        self.computed += 1
        self.nat = nat
        self.result = [
            model(p, h) + (model_extra(p, self.o.get("extra", "json")),) for p, h, ih in structs
        ]
        self.state = "havedata"

    def _payload(self):
        out = hdr("forceready")
        res = self.result
        if self.o.get("shm"):
            for i, (u, f, v, x) in enumerate(res):
                self.shm[3][i] = u
                self.shm[4][i] = f
                self.shm[5][i] = v
        else:
            out += b"".join(np.float64(r[0]).tobytes() for r in res)
            out += np.int32(self.nat).tobytes()
            out += b"".join(r[1].tobytes() for r in res)
            out += b"".join(np.ascontiguousarray(r[2]).tobytes() for r in res)
        for r in res:
            x = r[3].encode()
            out += np.int32(len(x)).tobytes() + x
        return out

    # -- output -------------------------------------------------------------
    def die(self, how, when):
        self.dead = True
        (self.net.fin if how == "fin" else self.net.reset)(self.end, when)

    def reply(self, kind, data):
        f = self.faults[self.choose(len(self.faults), "reply:%s:%s" % (self.name, kind))]
        now = self.sched.now
        d = self.o.get("delay", {}).get(kind, 0.02)
        t = max(now + d, self.last_at)
        self.last_at = t
        n = self.net
        cut = self.o.get("cut")
        if cut is not None and self.sent + len(data) > cut[0]:
            # the connection is lost after exactly cut[0] bytes of output
            f = "cut-" + cut[1]
            self.log.append((kind, f))
            n.deliver(self.end, data[: cut[0] - self.sent], t)
            self.die(cut[1], t + 0.001)
            return
        self.sent += len(data)
        self.log.append((kind, f))
        if f == "ok":
            n.deliver(self.end, data, t)
        elif f in ("fin", "rst"):
            self.die(f, t)
        elif f in ("partial-fin", "partial-rst"):
            n.deliver(self.end, data[: len(data) // 2], t)
            self.die(f[8:], t + 0.001)
        elif f == "frag":
            a, c = len(data) // 3, 2 * len(data) // 3
            n.deliver(self.end, data[:a], t)
            n.deliver(self.end, data[a:c], t + 0.15)
            n.deliver(self.end, data[c:], t + 0.30)
            self.last_at = t + 0.30
        elif f == "ok-fin":
            n.deliver(self.end, data, t)
            self.die("fin", t + 0.001)
        elif f == "slow":
            self.last_at = t + self.o.get("slow", 7.0)
            n.deliver(self.end, data, self.last_at)
        elif f == "mute":  # hangs for ever
            self.dead = True
        else:
            raise KeyError(f)
