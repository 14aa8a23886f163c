"""Client for the doctor-syn driver (see driver/src/main.rs)."""
import os, select, subprocess, time

from common import CheckError, Stuck

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class DriverDied(Stuck):
    """The library aborted the process (stack overflow, abort) or hung on one call."""


def esc(s):
    return str(s).replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n').replace('\r', '\\r')


def unesc(s):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            i += 1
            out.append({'t': '\t', 'n': '\n', 'r': '\r'}.get(s[i], s[i]))
        else:
            out.append(c)
        i += 1
    return ''.join(out)


class Driver:
    def __init__(self, exe, timeout=240):
        self.exe = exe
        self.timeout = timeout
        self.noise = []          # text the library itself printed
        self.calls = 0
        self.p = None

    def start(self):
        self.buf = b''
        self.pid = os.getpid()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)

    def close(self):
        if self.p and self.pid == os.getpid():
            self.p.kill()
            self.p.wait()
            self.p = None

    def call(self, *fields):
        """Returns (tag, [fields])."""
        if self.p is None or self.pid != os.getpid() or self.p.poll() is not None:
            self.start()
        self.calls += 1
        line = '\t'.join(esc(f) for f in fields)
        try:
            self.p.stdin.write(line.encode() + b'\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            raise DriverDied('driver died before: ' + line)
        self.noise = []
        end = time.time() + self.timeout
        while True:
            nl = self.buf.find(b'\n')
            if nl >= 0:
                l = self.buf[:nl].decode()
                self.buf = self.buf[nl + 1:]
                if l.startswith('@@\t'):
                    parts = l.split('\t')
                    if parts[1] == 'BAD':
                        raise CheckError('harness error: %s for %s' % (unesc(parts[2]), line[:500]))
                    return parts[1], [unesc(x) for x in parts[2:]]
                if l:
                    self.noise.append(l)
                continue
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                self.close()
                raise DriverDied('no answer within %ss: %s' % (self.timeout, line[:2000]))
            chunk = os.read(self.p.stdout.fileno(), 1 << 16)
            if not chunk:
                self.close()
                raise DriverDied('driver process ended on: ' + line[:2000])
            self.buf += chunk
