import os, sys, pty, re, time, fcntl, termios, struct, select, signal, subprocess as sp
CLI = os.environ["OGMA_CLI"]


def check(ok, what):
    if not ok:
        print("does not hold:", what)
        sys.exit(1)


def cli(*args, **k):
    "run the program: (status, output, errors)"
    p = sp.run([CLI, *args], capture_output=True, text=True, timeout=60, **k)
    return p.returncode, p.stdout, p.stderr


def put(f, s):
    d = os.path.dirname(f)
    if d:
        os.makedirs(d, exist_ok=True)
    open(f, "w").write(s)


class Shell:
    "the shell in a pseudo terminal"

    def __init__(self, *args, cwd="."):
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            os.chdir(cwd)
            os.environ["TERM"] = "xterm"
            os.execv(CLI, [CLI, *args])
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", 40, 200, 0, 0))
        self.read(1.0)

    def read(self, quiet):
        s = b""
        while select.select([self.fd], [], [], quiet)[0]:
            try:
                b = os.read(self.fd, 65536)
            except OSError:
                break
            if not b:
                break
            s += b
        t = re.sub(r"\x1b\[[0-9;?]*[A-Za-z]|\x1b[()=>][0-9A-Za-z]?", "\x00", s.decode("utf8", "replace"))
        return re.sub("\x00+", " ", t)

    def enter(self, line, quiet=0.6):
        "the screen text drawn from the line being entered on"
        os.write(self.fd, line.encode())
        self.read(0.3)
        os.write(self.fd, b"\r")
        return self.read(quiet)

    def close(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
