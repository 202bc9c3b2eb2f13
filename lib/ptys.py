"""A session on a pseudo terminal."""
import fcntl, os, pty, re, select, signal, struct, termios, time

INPUTRC = ('set show-all-if-ambiguous on\nset completion-query-items 0\nset page-completions off\nset bell-style none\n'
           'set completion-display-width 0\nset enable-bracketed-paste off\nset visible-stats off\n')


class Ended(Exception):
    pass


class Pty:
    def __init__(self, env, argv, cwd, e=None, timeout=10):
        extra = e or {}
        irc = env.write('inputrc', INPUTRC)
        e = {'PATH': os.environ['PATH'], 'HOME': '/nonexistent', 'LC_ALL': 'C', 'TMPDIR': env.scratch, 'TERM': 'dumb',
             'INPUTRC': irc, 'MALLOC_PERTURB_': '153'}
        e.update(extra)
        self.timeout = 30 if env.replaying else timeout
        self.raw = b''
        self.n = 4711000
        master, slave = pty.openpty()
        fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack('HHHH', 50, 2000, 0, 0))
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(master)
                os.setsid()
                fcntl.ioctl(slave, termios.TIOCSCTTY, 0)
                for fd in (0, 1, 2):
                    os.dup2(slave, fd)
                os.chdir(cwd)
                os.execve(argv[0], argv, e)
            finally:
                os._exit(127)
        os.close(slave)
        self.fd = master
        self.status = None

    def read_until(self, pattern, start):
        """Read until the pattern matches the output from start; the match."""
        end = time.time() + self.timeout
        while True:
            m = re.compile(pattern).search(self.raw, start)
            if m:
                return m
            t = end - time.time()
            if t <= 0:
                raise Ended('no answer')
            r, _, _ = select.select([self.fd], [], [], t)
            if r:
                try:
                    d = os.read(self.fd, 65536)
                except OSError:
                    d = b''
                if not d:
                    raise Ended('ended')
                self.raw += d

    def prompt(self):
        self.read_until(rb'BIC> ', 0)

    def line(self, keys):
        """Type keys and a newline; the text that appears until the next prompt."""
        start = len(self.raw)
        os.write(self.fd, keys.encode('latin-1') + b'\n')
        # A line of its own that marks the end of the output.
        self.n += 1
        mark = b'%d' % self.n
        os.write(self.fd, mark + b';\n')
        m = self.read_until(rb'\n' + mark + rb'\r\n(?:[^\n]*\n)*?[^\n]*BIC> ', start)
        text = self.raw[start:m.start()]
        # what the terminal itself has echoed while no line was being read
        text = re.sub(rb'(?m)^' + mark + rb';\r\n', b'', text)
        return text.decode('latin-1')

    def close(self):
        try:
            os.close(self.fd)
        except OSError:
            pass
        end = time.time() + 5
        while time.time() < end:
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p:
                return os.waitstatus_to_exitcode(st)
            time.sleep(0.005)
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        return None

    def end(self):
        """End the session with end of file; the exit status (negative for a signal)."""
        try:
            os.write(self.fd, b'\x15\x04')
            self.read_until(rb'(?!)', len(self.raw))
        except (Ended, OSError):
            pass
        return self.close()
