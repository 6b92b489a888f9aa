"""Drives an interactive bcalc in a pseudo terminal (used by demos; copied beside demo.sh)."""
import os, pty, re, select, struct, fcntl, termios, time

BIN = os.path.abspath("target/debug/bcalc")
UP, DOWN, RIGHT, LEFT = "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D"
HOME, END, DELETE = "\x1b[H", "\x1b[F", "\x1b[3~"


class Session:
    def __init__(self, *args, data=None, cols=400, rows=30, cwd=None, extra=None):
        env = {k: v for k, v in os.environ.items() if k != "_B_UTIL_DATA_DIR"}
        if data:
            env["_B_UTIL_DATA_DIR"] = data
        env["TERM"] = "xterm"
        env.update(extra or {})
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            fcntl.ioctl(0, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
            if cwd:
                os.chdir(cwd)
            os.execve(BIN, [BIN, *args], env)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        self.status = None
        self.out = b""
        self.start = self.wait_prompt()

    def read(self, timeout):
        r, _, _ = select.select([self.fd], [], [], timeout)
        if not r:
            return None
        try:
            d = os.read(self.fd, 65536)
        except OSError:
            d = b""
        return d

    def wait_prompt(self, timeout=60):
        """Everything printed up to the next cursor query (answered here) or the end."""
        end = time.time() + timeout
        buf = b""
        while time.time() < end:
            d = self.read(0.2)
            if d is None:
                continue
            if d == b"":
                break
            buf += d
            self.out += d
            if b"\x1b[6n" in buf:
                os.write(self.fd, b"\x1b[1;1R")
                break
        return buf.decode("utf8", "replace")

    def keys(self, s):
        if isinstance(s, str):
            s = s.encode()
        os.write(self.fd, s)

    def settle(self, quiet=0.3):
        buf = b""
        while True:
            d = self.read(quiet)
            if not d:
                self.out += buf
                return buf.decode("utf8", "replace")
            buf += d

    def line(self, s="", timeout=60):
        """Sends keys and Enter; the submitted line and its answer."""
        self.keys(s + "\r")
        t = self.wait_prompt(timeout)
        t = re.sub(r"\x1b\[[0-9;?]*[A-Za-z]", "", t).replace("\r", "")
        rows = t.split("\n")
        shown = rows[0].split("# ")[-1]
        return shown, "\n".join(rows[1:]).rstrip("\n")

    def ask(self, s, timeout=60):
        return self.line(s, timeout)[1]

    def close(self, key="\x04"):
        try:
            self.keys(key)
        except OSError:
            pass
        end = time.time() + 20
        while time.time() < end:
            d = self.read(0.2)
            if d == b"":
                break
            if d:
                self.out += d
        os.close(self.fd)
        _, self.status = os.waitpid(self.pid, 0)
        return self.status


def check(what, got, want):
    if got != want:
        print("FAILED %s: got %r, want %r" % (what, got, want))
        raise SystemExit(1)
