"""Runs `planus view` in a pseudo terminal and records what spec/ViewerJudge.tla judges."""
import fcntl, hashlib, os, re, select, shutil, signal, struct, subprocess, termios, time
from clilib import *

BYTES = {"tab": b"\t", "enter": b"\r", "esc": b"\x1b", "bs": b"\x7f", "up": b"\x1b[A", "down": b"\x1b[B", "right": b"\x1b[C", "left": b"\x1b[D",
         "pgup": b"\x1b[5~", "pgdn": b"\x1b[6~", "home": b"\x1b[H", "end": b"\x1b[F", "del": b"\x1b[3~", "C-c": b"\x03",
         "C-up": b"\x1b[1;5A", "C-down": b"\x1b[1;5B", "C-right": b"\x1b[1;5C", "C-left": b"\x1b[1;5D"}


class Screen:
    """as much of a terminal as the viewer uses"""

    def __init__(self, w, h):
        self.w, self.h = w, h
        self.alt, self.cursor, self.attr, self.buf = False, True, 0, b""
        self.x = self.y = 0
        self.odd = []
        self.clear()

    def clear(self):
        self.cells = [[(" ", 0)] * self.w for _ in range(self.h)]

    def resize(self, w, h):
        """what the application is to draw anew is wiped"""
        self.w, self.h = w, h
        self.clear()

    def feed(self, b):
        self.buf += b
        while self.buf:
            c = self.buf[0]
            if c == 27:
                m = re.match(rb"\x1b\[([<-?]?)([0-9;]*)([@-~])", self.buf)
                if m:
                    self.csi(m[1], [int(x or 0) for x in m[2].split(b";")], m[3])
                    self.buf = self.buf[m.end():]
                    continue
                m = re.match(rb"\x1b[78=>]", self.buf)
                if m:
                    self.buf = self.buf[2:]
                    continue
                if len(self.buf) > 40:
                    self.odd.append(self.buf[:20])
                    self.buf = self.buf[1:]
                    continue
                return
            n = 1 if c < 128 else 2 if c < 224 else 3 if c < 240 else 4
            if len(self.buf) < n:
                return
            t = self.buf[:n].decode("utf-8", "replace")
            self.buf = self.buf[n:]
            if t == "\r":
                self.x = 0
            elif t == "\n":
                self.y = min(self.h - 1, self.y + 1)
            elif c >= 32:
                if self.x < self.w and self.y < self.h:
                    self.cells[self.y][self.x] = (t, self.attr)
                self.x += 1

    def csi(self, pre, a, f):
        if f in (b"H", b"f"):
            self.y, self.x = max(1, a[0]) - 1, (max(1, a[1]) if len(a) > 1 else 1) - 1
        elif f == b"m":
            k = 0
            while k < len(a):
                x = a[k]
                if x in (38, 48, 58):
                    k += 2 if k + 1 < len(a) and a[k + 1] == 5 else 4
                elif x == 0:
                    self.attr = 0
                elif x in (1, 4, 7):
                    self.attr |= {1: 1, 4: 2, 7: 4}[x]
                elif x == 22:
                    self.attr &= ~1
                elif x == 24:
                    self.attr &= ~2
                elif x == 27:
                    self.attr &= ~4
                k += 1
        elif f == b"J":
            self.clear()
        elif f in b"hl" and pre == b"?":
            for x in a:
                if x == 1049:
                    self.alt = f == b"h"
                    self.clear()
                elif x == 25:
                    self.cursor = f == b"h"
        elif f not in (b"n", b"c"):
            self.odd.append((pre, a, f))

    def shown(self):
        return ["".join(t for t, _ in r) for r in self.cells], ["".join(str(a) for _, a in r) for r in self.cells]


class Viewer:
    """one run in a pseudo terminal"""

    def __init__(self, exe, args, cwd, w, h, tty=True):
        self.m, self.s = os.openpty()
        self.size(w, h)
        self.screen = Screen(w, h)
        self.before = termios.tcgetattr(self.s)
        env = dict(os.environ, RUST_BACKTRACE="0", TERM="xterm-256color")
        env.pop("NO_COLOR", None)
        slave = self.s

        def own():
            os.setsid()
            if tty:
                fcntl.ioctl(slave, termios.TIOCSCTTY, 0)
        self.err = open(os.path.join(cwd, "stderr"), "w+b")
        self.out = None if tty else open(os.path.join(cwd, "stdout"), "w+b")
        self.p = subprocess.Popen([exe] + args, cwd=cwd, env=env, stdin=slave if tty else subprocess.DEVNULL, stdout=slave if tty else self.out,
                                  stderr=self.err, preexec_fn=own)
        self.text = b""

    def size(self, w, h):
        fcntl.ioctl(self.s, termios.TIOCSWINSZ, struct.pack("HHHH", h, w, 0, 0))

    def resize(self, w, h):
        self.screen.resize(w, h)
        self.size(w, h)

    def pump(self, t):
        r, _, _ = select.select([self.m], [], [], t)
        if r:
            b = os.read(self.m, 65536)
            self.text += b
            self.screen.feed(b)
            return True
        return False

    def raw(self):
        return not termios.tcgetattr(self.s)[3] & (termios.ICANON | termios.ECHO)

    def send(self, b):
        os.write(self.m, b)
        end = time.time() + 10
        while time.time() < end and self.p.poll() is None:      # until it has been read
            if struct.unpack("i", fcntl.ioctl(self.s, termios.FIONREAD, b"\0\0\0\0"))[0] == 0:
                return
            self.pump(0.001)

    def settle(self, want, limit=10):
        """pumps until the screen is as wanted, or does not become so"""
        end = time.time() + limit
        while time.time() < end:
            while self.pump(0):
                pass
            if self.screen.shown() == want and self.screen.alt:
                return
            if self.p.poll() is not None:
                while self.pump(0.05):
                    pass
                return
            self.pump(0.02)

    def ended(self, limit):
        end = time.time() + limit
        while time.time() < end and self.p.poll() is None:
            self.pump(0.005)
        while self.pump(0.02):
            pass
        return self.p.poll() is not None

    def state(self):
        return {"raw": self.raw(), "alt": self.screen.alt, "cursor": self.screen.cursor}

    def close(self):
        if self.p.poll() is None:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        same = termios.tcgetattr(self.s) == self.before
        os.close(self.m)
        os.close(self.s)
        return same


def dig(x):
    return hashlib.sha256(json.dumps(x).encode()).hexdigest()[:16]


def run_viewer(c, exe, k, files, main, name, data, keys=(), screens=(), size=(100, 30), tty=True):
    """files: [(name, bytes)]; data: bytes or None; keys: key names and ["screen", w, h];
    screens: for each of them and the start what the inspector draws, None where it has ended"""
    d = os.path.join(c.dir, "view", str(k))
    root = os.path.join(d, "j")
    os.makedirs(root)
    for n, b in files:
        os.makedirs(os.path.dirname(os.path.join(root, n)), exist_ok=True)
        open(os.path.join(root, n), "wb").write(bytes(B(b)))
    if data is not None:
        open(os.path.join(root, "data.bin"), "wb").write(bytes(data))
    pre = snapshot(root)
    v = Viewer(exe, ["view", "j/" + files[main][0], name, "j/data.bin"], d, *size, tty=tty)
    steps, detail = [], ""

    def step(act, want):
        nonlocal detail
        steps.append(dict(v.state(), act=act, got=dig(v.screen.shown()), want=dig(want)))
        if v.screen.shown() != want and not detail:
            detail = "after %s\n%s\ninstead of\n%s" % (act, "\n".join(v.screen.shown()[0]), "\n".join(want[0]))
    if screens:
        v.settle(screens[0])
        if v.screen.alt or v.p.poll() is None:
            step("start", screens[0])
        for key, want in zip(keys, screens[1:]):
            if v.p.poll() is not None or steps and steps[-1]["got"] != steps[-1]["want"]:
                break
            if isinstance(key, list):
                if want is None:
                    continue
                v.resize(key[1], key[2])
                v.settle(want)
                step("resize", want)
            else:
                v.send(BYTES.get(key) or key.encode())
                if want is None:
                    v.ended(10)
                    steps.append(dict(v.state(), act="quit", got="", want=""))
                    break
                v.settle(want)
                step(key, want)
        if v.p.poll() is None and (not steps or steps[-1]["act"] != "quit"):
            v.p.kill()
            v.p.wait()
    else:
        end = time.time() + 20
        while time.time() < end and v.p.poll() is None and not v.screen.alt:
            v.pump(0.005)
        if v.screen.alt:
            v.ended(0.1)
            steps.append(dict(v.state(), act="start", got="", want=""))
            v.send(b"q")
            if v.ended(10):
                steps.append(dict(v.state(), act="quit", got="", want=""))
            else:
                v.p.kill()
                v.p.wait()
        else:
            v.ended(20)
    code = v.p.poll()
    st = v.state()
    same = v.close()
    if not same:
        st["raw"] = True
    v.err.seek(0)
    se = ANSI.sub("", v.err.read().decode("utf-8", "replace"))
    if v.out:
        v.out.seek(0)
    so = (v.text if tty else v.out.read()).decode("utf-8", "replace").replace("\r\n", "\n")
    near = [] if steps else [B(x[2:]) for x in so.split("\n") if x.startswith("- ")]
    rec = {"files": [{"name": B(n), "b": B(b)} for n, b in files], "main": [main + 1], "name": B(name), "data": data is not None, "tty": tty,
           "code": -99 if code is None else code, "errs": len(re.findall(r"^(?:error|Error)\b", se, re.M)), "said": bool(se.strip() or so.strip()), "near": near,
           "same": snapshot(root) == pre, "steps": steps, "after": st, "detail": detail + "".join("\nodd output %r" % x for x in v.screen.odd[:3]) + se[:300]}
    shutil.rmtree(d)
    return rec
