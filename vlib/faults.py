"""Fault injection at the file system: the n-th operation (open, read, write, list, make, copy...) under a folder fails
once or for good."""
import builtins
import errno
import os
import shutil
import sys
import time

from . import env


def site():
    """the two innermost places in the code under test this operation comes from"""
    f = sys._getframe(2)
    out = []
    while f is not None and len(out) < 2:
        if f.f_code.co_filename.startswith(env.SRC):
            out.append((os.path.basename(f.f_code.co_filename), f.f_lineno))
        f = f.f_back
    return tuple(out)


class Injector:
    """counts operations on paths under `root`; operation number `at` raises `err`, with `lasting` every later one on
    the same path as well. With at=None only counts; `log` then holds (kind, ending of the file name, place in the
    code) of every operation."""

    def __init__(self, root, at=None, err=errno.EIO, kinds=None, lasting=False):
        self.lasting = lasting
        self.broken = None
        self.log = []
        self.root = os.path.realpath(root) + os.sep
        self.at, self.err, self.kinds = at, err, kinds
        self.n = 0
        self.fired = None
        self.seen = {}
        self._saved = []

    def hit(self, kind, path, file=None, data=None):
        try:
            p = os.fspath(path)
        except TypeError:
            return
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.realpath(p) if not os.path.isabs(p) else os.path.normpath(p)
        if not (p + os.sep).startswith(self.root):
            return
        if self.kinds and kind not in self.kinds:
            return
        self.n += 1
        self.seen[kind] = self.seen.get(kind, 0) + 1
        if self.at is None:
            name = os.path.basename(file if kind == 'copy' and isinstance(file, str) else p)
            self.log.append((kind, '.'.join(name.split('.')[1:])[-12:], site()))
        if self.broken == p or self.at is not None and self.n == self.at:
            if self.lasting:
                self.broken = p
            self.fired = (kind, p[len(self.root):])
            self.fire(file, data)
            raise OSError(self.err, os.strerror(self.err), p)

    def fire(self, file, data):
        pass

    def __enter__(self):
        inj = self
        real_open = builtins.open

        class File:
            """a file whose reads and writes are counted"""

            def __init__(self, f, path, writing):
                self.__dict__.update(_f=f, _p=path, _w=writing)

            def __getattr__(self, name):
                return getattr(self._f, name)

            def __setattr__(self, name, value):
                setattr(self._f, name, value)

            def __enter__(self):
                self._f.__enter__()
                return self

            def __exit__(self, *a):
                return self._f.__exit__(*a)

            def __iter__(self):
                inj.hit('read', self._p)
                return iter(self._f)

            def read(self, *a):
                inj.hit('read', self._p)
                return self._f.read(*a)

            def readline(self, *a):
                inj.hit('read', self._p)
                return self._f.readline(*a)

            def write(self, data):
                inj.hit('write', self._p, self._f, data)
                return self._f.write(data)

            def close(self):
                return self._f.close()

        def open_(file, mode='r', *a, **k):
            if isinstance(file, int):
                return real_open(file, mode, *a, **k)
            w = any(c in mode for c in 'wax+')
            inj.hit('open-write' if w else 'open-read', file)
            return File(real_open(file, mode, *a, **k), file, w)

        def wrap(mod, name, kind):
            real = getattr(mod, name)

            def f(path, *a, **k):
                if k.get('dir_fd') is None:
                    inj.hit(kind, path, *((a[0], path) if kind == 'copy' and a else ()))
                return real(path, *a, **k)

            self._saved.append((mod, name, real))
            setattr(mod, name, f)

        self._saved.append((builtins, 'open', real_open))
        builtins.open = open_
        for name, kind in (('listdir', 'list'), ('mkdir', 'mkdir'), ('rename', 'rename'), ('replace', 'rename'),
                           ('stat', 'stat')):
            if name != 'stat':
                wrap(os, name, kind)
        for name in ('remove', 'unlink', 'rmdir'):
            wrap(os, name, 'remove')
        real_rmtree = shutil.rmtree

        def rmtree(path, ignore_errors=False, *a, **k):
            if os.path.lexists(path):
                try:
                    inj.hit('rmtree', path)
                except OSError:
                    if ignore_errors:
                        return  # nothing was removed and nobody hears of it
                    raise
            return real_rmtree(path, ignore_errors, *a, **k)

        self._saved += [(shutil, 'rmtree', real_rmtree), (time, 'sleep', time.sleep)]
        shutil.rmtree = rmtree
        time.sleep = lambda s: None
        for name in ('copy', 'copy2', 'copyfile', 'move'):
            wrap(shutil, name, 'copy')
        return self

    def __exit__(self, *a):
        for mod, name, real in self._saved:
            setattr(mod, name, real)
        self._saved = []
        return False


class Killer(Injector):
    """the process dies at the operation, in the middle of it when something is being written"""
    part = 0.5

    def fire(self, file, data):
        if isinstance(file, (str, os.PathLike)):  # a copy breaks off
            if os.path.isfile(data) and not os.path.isdir(file):
                with open(data, 'rb') as f:
                    half = f.read()
                fd = os.open(file, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                os.write(fd, half[:int(len(half) * self.part)])
                os.close(fd)
        elif file is not None and data:
            file.write(data[:int(len(data) * self.part)])
            if self.part > 0.2:
                file.flush()
        os._exit(77)
