"""Abstract operating system: the environment, the home directory and a finite set of directories, with interference by
another process just before chosen operations."""
import posixpath

from .evalr import Undecided


class Sys:
    """environment and file system of one phase"""
    def __init__(self, env=(), home='/home/u', dirs=(), files=()):
        self.env, self.home, self.dirs, self.files = dict(env), home, tuple(dirs), tuple(files)


class OsSpec:
    """load: phase in which the modules are imported; runs: successive phases of the calls; other: {k: (directories)} created by
    another process just before the k-th file-system operation"""
    def __init__(self, runs, load=None, other=()):
        self.runs, self.load, self.other = tuple(runs), load or runs[0], dict(other)

    def __repr__(self):
        r = self.runs[0]
        return 'env=%s home=%s dirs=%s%s%s' % (r.env, r.home, sorted(r.dirs), ' interference=%s' % self.other if self.other else '',
                                               ' then env=%s' % self.runs[1].env if len(self.runs) > 1 else '')


def up(p):
    out = []
    p = posixpath.normpath(p)
    while p not in ('/', '.', ''):
        out.append(p)
        p = posixpath.dirname(p)
    return out


class World:
    def __init__(self, spec):
        self.spec = spec
        self.k = 0
        self.nops = 0
        self.log = []           # modifications
        self.enter(0)

    def enter(self, k):
        s = self.spec.runs[min(k, len(self.spec.runs) - 1)]
        self.k = k
        self.env, self.home = dict(s.env), s.home
        self.dirs = set()
        for d in s.dirs:
            self.dirs |= set(up(d))
        self.files = set(s.files)

    def isdir(self, p):
        p = posixpath.normpath(p) if p else ''
        return p in ('/', '.') or p in self.dirs

    def exists(self, p):
        return self.isdir(p) or (bool(p) and posixpath.normpath(p) in self.files)

    def interfere(self):
        for d in self.spec.other.get(self.nops, ()):
            self.dirs |= set(up(d))
        self.nops += 1

    def mkdir(self, p, what):
        if not p:
            raise FileNotFoundError(p)
        q = posixpath.normpath(p)
        if self.exists(q):
            raise FileExistsError(p)
        if not self.isdir(posixpath.dirname(q) or '.'):
            raise FileNotFoundError(p)
        self.dirs.add(q)
        self.log.append(('create', q))

    def call(self, phase, name, args, kw):
        saved = None
        if phase == 'load':
            saved = (self.env, self.home, self.dirs, self.files)
            s = self.spec.load
            self.env, self.home, self.files = dict(s.env), s.home, set(s.files)
            self.dirs = set()
            for d in s.dirs:
                self.dirs |= set(up(d))
        try:
            return self._call(name, args, kw)
        finally:
            if saved:
                self.env, self.home, self.dirs, self.files = saved

    def text(self, p):
        if not isinstance(p, str):
            raise TypeError('expected str, not %s' % type(p).__name__)
        return p

    def expanduser(self, p):
        p = self.text(p)
        if p == '~' or p.startswith('~/'):
            return self.home + p[1:]
        return p

    def _call(self, name, args, kw):
        if name == 'sa_mark.os':
            self.enter(self.k + 1)
            return None
        if name in ('os.environ.get', 'os.getenv'):
            d = args[1] if len(args) > 1 else kw.get('default')
            return self.getenv(args[0] if args else kw.get('key'), d)
        if name == 'os.environ.__getitem__':
            v = self.getenv(args[0])
            if v is None:
                raise KeyError(args[0])
            return v
        if name == 'os.environ.__contains__':
            return self.getenv(args[0]) is not None
        if name == 'os.environ.setdefault':
            v = self.getenv(args[0])
            if v is None:
                self.log.append(('environment', args[0]))
                self.env[args[0]] = v = args[1]
            return v
        if name == 'os.path.expanduser':
            return self.expanduser(args[0])
        if name == 'os.path.expandvars':
            p = self.text(args[0])
            for k, v in list(self.env.items()) + [('HOME', self.home)]:
                p = p.replace('${%s}' % k, v).replace('$' + k, v)
            return p
        if name in ('os.path.abspath', 'os.path.realpath'):
            return posixpath.normpath(posixpath.join('/cwd', self.text(args[0])))
        if name == 'os.getcwd':
            return '/cwd'
        if name in ('os.path.exists', 'os.path.lexists', 'os.path.isdir', 'os.path.isfile', 'os.access', 'os.stat', 'os.listdir', 'os.scandir'):
            self.interfere()
            p = self.text(args[0])
            if name == 'os.path.isdir':
                return self.isdir(p)
            if name == 'os.path.isfile':
                return self.exists(p) and not self.isdir(p)
            if name == 'os.stat' or name == 'os.listdir' or name == 'os.scandir':
                if not self.exists(p):
                    raise FileNotFoundError(p)
                if name == 'os.listdir':
                    return []
                raise Undecided(name)
            return self.exists(p)
        if name in ('os.mkdir', 'os.makedirs'):
            self.interfere()
            p = self.text(args[0] if args else kw.get('path', kw.get('name')))
            mode = args[1] if len(args) > 1 else kw.get('mode', 0o777)
            ok = args[2] if len(args) > 2 else kw.get('exist_ok', False)
            if name == 'os.mkdir':
                self.mkdir(p, name)
            else:
                if not p:
                    raise FileNotFoundError(p)
                if ok and self.isdir(p):
                    return None
                if self.exists(p):
                    raise FileExistsError(p)
                for q in reversed(up(p)):
                    if not self.exists(q):
                        self.mkdir(q, name)
            if mode & 0o700 != 0o700:
                self.log.append(('mode', oct(mode)))
            return None
        if name in ('shutil.rmtree', 'os.rmdir', 'os.removedirs', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.chmod', 'os.utime', 'os.chdir', 'os.umask',
                    'os.symlink', 'shutil.move', 'shutil.copy', 'shutil.copytree', 'tempfile.mkdtemp', 'tempfile.mkstemp', 'tempfile.TemporaryDirectory'):
            self.interfere()
            self.log.append((name, str(args[0]) if args else ''))
            if name in ('shutil.rmtree', 'os.rmdir', 'os.removedirs', 'os.rename') and args and isinstance(args[0], str):
                q = posixpath.normpath(args[0])
                if not self.exists(q) and name != 'shutil.rmtree':
                    raise FileNotFoundError(q)
                self.dirs = {d for d in self.dirs if d != q and not d.startswith(q + '/')}
            return None
        if name in ('builtins.open', 'io.open'):
            self.interfere()
            mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
            if any(c in mode for c in 'wax+'):
                self.log.append(('write', str(args[0])))
            raise Undecided('open')
        raise Undecided(name)

    def getenv(self, k, d=None):
        if k == 'HOME':
            return self.home
        return self.env.get(self.text(k), d)
