"""Talks to a unit driver (harness/lineio.hpp)."""
import os
import subprocess
import tempfile
import threading


class DriverDied(Exception):
    pass


class Driver:
    def __init__(self, exe, timeout=60):
        self.exe = exe
        self.proc = None
        self.timeout = timeout

    def start(self):
        self.err = tempfile.TemporaryFile()
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
        self.proc = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)

    def ask(self, cmds):
        """answers, one per command; the driver dying on the way is an exception"""
        if self.proc is None:
            self.start()
        data = ("\n".join(cmds) + "\n.\n").encode()
        w = None
        if len(data) < 30000:
            self.send(data)
        else:       # the driver answers while we write: do not block on both pipes
            w = threading.Thread(target=self.send, args=(data,), daemon=True)
            w.start()
        self.hung = False
        proc = self.proc

        def late():
            self.hung = True
            proc.kill()
        t = threading.Timer(self.timeout, late)
        t.daemon = True
        t.start()
        out = []
        try:
            while True:
                l = self.proc.stdout.readline()
                if not l:
                    raise self.died(cmds, out)
                l = l.decode("latin1").rstrip("\n")
                if l == ".":
                    return out
                out.append(l)
        finally:
            t.cancel()
            if w:
                w.join(5)

    def send(self, data):
        try:
            self.proc.stdin.write(data)
            self.proc.stdin.flush()
        except (OSError, AttributeError, ValueError):
            pass

    def died(self, cmds, out):
        rc = self.proc.wait()
        self.err.seek(0)
        e = self.err.read().decode("latin1")
        self.proc.stdin.close()
        self.proc.stdout.close()
        self.proc = None
        keep = [x for x in e.splitlines() if "ERROR" in x or "runtime error" in x or "Assert" in x or "assert" in x or x.strip().startswith("#")][:9]
        cmd = cmds[len(out)] if len(out) < len(cmds) else "?"
        if self.hung:
            return DriverDied("no answer within %d s on '%s'" % (self.timeout, cmd[:200]))
        return DriverDied("the code crashed (exit %s) on '%s' or one before it: %s" % (rc, cmd[:200], " | ".join(keep)[:1200] or e[-600:]))

    def close(self):
        if self.proc:
            try:
                self.proc.stdin.close()
                self.proc.kill()
                self.proc.wait()
                self.proc.stdout.close()
            except OSError:
                pass
            self.proc = None
