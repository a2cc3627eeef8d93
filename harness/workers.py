"""Forked worker processes that run commands and can be killed at chosen points."""
import multiprocessing
import os
import signal
import sys
import traceback


class Died(Exception):
    pass


class Worker(object):
    """setup() -> handler(cmd dict) -> result, run in a child process of its own."""
    ctx = multiprocessing.get_context('fork')

    def __init__(self, make):
        self.make = make
        self.proc = None

    def start(self):
        if self.proc is not None:
            return
        self.pipe, other = self.ctx.Pipe()
        self.proc = self.ctx.Process(target=self._main, args=(other, self.pipe), daemon=True)
        self.proc.start()
        other.close()

    def _main(self, pipe, parent):
        parent.close()
        signal.alarm(0)
        sys.stdout = sys.stderr = open(os.devnull, 'w')
        handler = self.make(pipe.send)
        while True:
            try:
                cmd = pipe.recv()
            except EOFError:
                os._exit(0)
            try:
                r = ('ok', handler(cmd))
            except Exception as e:
                r = (e.__class__.__name__, traceback.format_exc())
            pipe.send(('done',) + r)

    def send(self, cmd):
        self.start()
        self.pipe.send(cmd)

    def messages(self, timeout=60):
        """progress messages sent by the handler until it is done (or dead)"""
        while True:
            try:
                if not self.pipe.poll(timeout):
                    self.kill()
                    yield ('done', 'hang', '')
                    return
                m = self.pipe.recv()
            except (EOFError, ConnectionResetError, OSError):
                self.kill()
                yield ('dead',)
                return
            yield m
            if isinstance(m, tuple) and m and m[0] == 'done':
                return

    def call(self, cmd, timeout=60):
        self.send(cmd)
        for m in self.messages(timeout):
            pass
        if m[0] == 'dead':
            return 'dead', None
        return m[1], m[2]

    def kill(self):
        if self.proc is None:
            return
        try:
            os.kill(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.join()
        try:
            self.pipe.close()
        except OSError:
            pass
        self.proc = None
