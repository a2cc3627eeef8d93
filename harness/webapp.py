"""Runs zounds' web applications on loopback ports, each on its own loop, through start(port)."""
import http.client
import io
import socket
import sys
import threading
import tornado.ioloop
import featureflow as ff

_local = threading.local()
_instance = tornado.ioloop.IOLoop.instance


def _per_thread(*a, **k):
    loop = getattr(_local, 'loop', None)
    return loop if loop is not None else _instance(*a, **k)


def install():
    """one loop for every application rather than one for the whole process"""
    tornado.ioloop.IOLoop.instance = staticmethod(_per_thread)


def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Running(object):
    def __init__(self, app):
        install()
        self.app = app
        self.error = None
        self.loop = None
        for _ in range(5):
            self.port = free_port()
            ready = threading.Event()

            def go():
                loop = tornado.ioloop.IOLoop()
                _local.loop = loop
                self.loop = loop
                loop.add_callback(ready.set)
                try:
                    app.start(self.port)
                except BaseException as e:
                    self.error = e
                    ready.set()
            self.error = None
            self.thread = threading.Thread(target=go, daemon=True)
            self.thread.start()
            ready.wait(20)
            if not isinstance(self.error, OSError):
                break
        if self.error is not None:
            raise self.error

    def call(self, method, path, body=None, headers=None, timeout=15):
        """(status, headers, body)"""
        c = http.client.HTTPConnection('127.0.0.1', self.port, timeout=timeout)
        try:
            c.request(method, path, body=body, headers=headers or {})
            r = c.getresponse()
            return r.status, dict((k.lower(), v) for k, v in r.getheaders()), r.read() if r.status != 101 else b''
        finally:
            c.close()

    def settle(self):
        """waits until the application has done what it does after answering"""
        for _ in range(2):
            done = threading.Event()
            self.loop.add_callback(done.set)
            if not done.wait(15):
                raise RuntimeError('the application hangs')

    def stop(self):
        self.loop.add_callback(self.loop.stop)
        self.thread.join(5)
        try:
            self.loop.close(all_fds=True)
        except Exception:
            pass


class Quiet(object):
    """tornado logs every refused request"""

    def __enter__(self):
        import logging
        self.loggers = [logging.getLogger(x) for x in ('tornado.access', 'tornado.application', 'tornado.general')]
        self.old = [(x.disabled, x.propagate) for x in self.loggers]
        for x in self.loggers:
            x.disabled = True

    def __exit__(self, *a):
        for x, (d, p) in zip(self.loggers, self.old):
            x.disabled = d


class CountingDatabase(ff.InMemoryDatabase):
    """counts what is read"""
    reads = 0

    def read_stream(self, *a, **k):
        type(self).reads += 1
        return super(CountingDatabase, self).read_stream(*a, **k)
