"""File-system monitor: every change the code under test asks the interpreter for is recorded (audit hook)."""
import os
import sys

_active = []
_installed = False
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _resolve(path, dir_fd=-1):
    if isinstance(path, int):
        return None
    path = os.fsdecode(path)
    if not os.path.isabs(path):
        base = os.readlink(f'/proc/self/fd/{dir_fd}') if isinstance(dir_fd, int) and dir_fd >= 0 else os.getcwd()
        path = os.path.join(base, path)
    # the last component itself is what is changed, its folder may be reached through links
    path = os.path.normpath(path) if '..' not in path.split(os.sep) else path
    head, tail = os.path.split(path)
    if tail in ('..', '.', ''):
        return os.path.realpath(path)
    return os.path.join(os.path.realpath(head), tail)


def _hook(event, args):
    if not _active:
        return
    try:
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, int) or not flags & WRITE or os.path.isdir(path):  # a nameless file of tempfile
                return
            got = [_resolve(path)]
            if os.path.islink(got[0]):
                got.append(os.path.realpath(got[0]))
        elif event in ('os.remove', 'os.rmdir'):
            got = [_resolve(args[0], args[1])]
        elif event == 'os.mkdir':
            got = [_resolve(args[0], args[2])]
        elif event in ('os.rename', 'os.link'):
            got = [_resolve(args[0], args[2]), _resolve(args[1], args[3])]
            if event == 'os.link':
                got = got[1:]
        elif event == 'os.symlink':
            got = [_resolve(args[1], args[2])]
        elif event in ('os.truncate', 'os.chmod', 'os.chown', 'os.utime'):
            got = [_resolve(args[0])]
        elif event in ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn', 'socket.connect', 'socket.bind'):
            got = [f'<{event} {args!r}>'[:200]]
        else:
            return
    except Exception as e:
        got = [f'<unresolved {event} {args!r} {e!r}>']
    for w in list(_active):
        for g in got:
            if g is not None:
                w.events.append((event, g))


class Watch:
    def __init__(self):
        self.events = []

    def __enter__(self):
        global _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        _active.append(self)
        return self

    def __exit__(self, *a):
        _active.remove(self)
        return False

    def outside(self, trees, files=(), mkdirs=(), existed=None):
        """events that touch anything but: the trees, the files, and making of the folders above them; with `existed`
        (was it there before?) also drafts: made beside an output by the run and gone when it is over"""
        trees = [os.path.realpath(t) for t in trees]
        files = [_resolve(f) for f in files]
        up = set()
        for t in list(trees) + list(files) + [os.path.realpath(m) for m in mkdirs]:
            while t != '/':
                t = os.path.dirname(t)
                up.add(t)
        up |= {os.path.realpath(m) for m in mkdirs}
        bad = []
        for ev, p in self.events:
            if p in files or any(p == t or p.startswith(t + os.sep) for t in trees):
                continue
            if ev == 'os.mkdir' and p in up:
                continue
            if existed and p.startswith('/'):
                draft = next((d for d in (os.path.dirname(x) for x in trees + files) if p.startswith(d + os.sep)), None)
                if draft is not None:
                    draft = os.path.join(draft, p[len(draft) + 1:].split(os.sep)[0])
                    if not existed(draft) and not os.path.lexists(draft):
                        continue
            bad.append((ev, p))
        return bad
