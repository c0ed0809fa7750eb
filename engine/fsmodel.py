"""Model file system: names are (symbolic) strings, a file has a content id.

Every operation is atomic; `after` is called after each one, so that a task
can state its crash-point invariant between any two operations."""
import types
import z3
from . import core, loader, shims
from .core import CTX, SBool, SInt, Sym, Unsupported, tobool

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()


def zs(x):
    if isinstance(x, SStr):
        return x._z
    if isinstance(x, str):
        return z3.StringVal(x)
    raise TypeError('expected str, bytes or os.PathLike object, not %s' % type(x).__name__)


class SStr:
    """symbolic string"""
    _vc_str = True

    def __init__(self, z):
        self._z = z

    def __add__(self, o):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        return SStr(z3.simplify(z3.Concat(self._z, zs(o))))

    def __radd__(self, o):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        return SStr(z3.simplify(z3.Concat(zs(o), self._z)))

    def __eq__(self, o):
        if not isinstance(o, (str, SStr)):
            return False
        return SBool(self._z == zs(o))

    def __ne__(self, o):
        if not isinstance(o, (str, SStr)):
            return True
        return SBool(self._z != zs(o))

    def endswith(self, o):
        if isinstance(o, tuple):
            return SBool(z3.Or(*[z3.SuffixOf(zs(x), self._z) for x in o]))
        return SBool(z3.SuffixOf(zs(o), self._z))

    def startswith(self, o):
        return SBool(z3.PrefixOf(zs(o), self._z))

    def __contains__(self, o):
        return CTX.branch(z3.Contains(self._z, zs(o)))

    def __bool__(self):
        return CTX.branch(z3.Length(self._z) > 0)

    def _vc_len(self):
        return SInt(z3.Length(self._z))

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __str__(self):
        return '<symstr>'
    __repr__ = __str__

    def __format__(self, spec):
        raise Unsupported('format of a symbolic string')

    def __getattr__(self, n):
        if n.startswith('_vc') or n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('str.%s on a symbolic string' % n)


class FS:
    def __init__(self, name='fs'):
        ex0 = CTX.fresh_fn(name + '_exists0', S, B)
        ct0 = CTX.fresh_fn(name + '_content0', S, I)
        self.ex = lambda n: ex0(n)
        self.ct = lambda n: ct0(n)
        self.objs = {}          # content id -> python object
        self.after = None
        self.nops = 0
        self.next = 0
        self.handles = []
        self.access = lambda n: z3.BoolVal(True)     # permission of an existing file

    def frozen(self):
        return self.ex, self.ct

    def _upd(self, name, exists, content=None):
        n, ex, ct = zs(name), self.ex, self.ct

        def nex(j):
            c = z3.simplify(j == n)
            e = exists if isinstance(exists, z3.ExprRef) else z3.BoolVal(exists)
            return e if z3.is_true(c) else ex(j) if z3.is_false(c) else z3.If(c, e, ex(j))

        def nct(j):
            c = z3.simplify(j == n)
            return content if z3.is_true(c) else ct(j) if z3.is_false(c) else z3.If(c, content, ct(j))
        self.ex = nex
        if content is not None:
            self.ct = nct

    def _done(self, op):
        self.nops += 1
        if self.after:
            self.after(op)

    def newid(self, obj=None):
        """fresh content id, different from all initial contents"""
        self.next += 1
        c = z3.IntVal(-1000 - self.next)
        self.objs[-1000 - self.next] = obj
        return c

    def exists(self, name):
        return SBool(self.ex(zs(name)))

    def require(self, name):
        if not CTX.branch(self.ex(zs(name))):
            raise FileNotFoundError(2, 'No such file')

    def rename(self, a, b):
        self.require(a)
        za, zb = zs(a), zs(b)
        c = self.ct(za)
        ex = self.ex
        self._upd(b, True, c)
        # source disappears unless it is the same name
        same = z3.simplify(za == zb)
        if not z3.is_true(same):
            if z3.is_false(same):
                self._upd(a, False)
            else:
                self._upd(a, same)
        self._done('rename')

    def remove(self, a):
        self.require(a)
        self._upd(a, False)
        self._done('remove')

    def copy(self, a, b, **k):
        self.require(a)
        # non atomic: destination truncated first, then filled
        c = self.ct(zs(a))
        self._upd(b, True, self.newid('partial'))
        self._done('copy-begin')
        self._upd(b, True, c)
        self._done('copy-end')
        return b

    def open(self, name, mode='r', *a, **k):
        if not isinstance(mode, str):
            raise TypeError('mode')
        f = FObj(self, name, mode)
        if 'r' in mode:
            self.require(name)
        elif 'w' in mode:
            self._upd(name, True, self.newid('empty'))
            self._done('open-w')
        elif 'a' in mode:
            if not CTX.branch(self.ex(zs(name))):
                self._upd(name, True, self.newid('empty'))
                self._done('open-a')
        elif 'x' in mode:
            if CTX.branch(self.ex(zs(name))):
                raise FileExistsError(17, 'File exists')
            self._upd(name, True, self.newid('empty'))
            self._done('open-x')
        return f

    def write_obj(self, name, obj):
        self._upd(name, True, self.newid(obj))
        self._done('write')

    def read_obj(self, name):
        z = z3.simplify(self.ct(zs(name)))
        if not z3.is_int_value(z):
            # decide between the known contents
            for k in self.objs:
                if CTX.branch(z == k):
                    return self.objs[k]
            raise Unsupported('content of a file the task did not define')
        return self.objs[z.as_long()]


class FObj:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode = fs, name, mode
        self.closed = False

    def write(self, x):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if 'r' in self.mode and '+' not in self.mode:
            raise OSError('not writable')
        self.fs.write_obj(self.name, ('text', x))

    def flush(self):
        pass

    def fileno(self):
        return 3

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def freeze(o):
    """what a pickle/npz file keeps: a copy of the container structure"""
    if isinstance(o, dict):
        return {k: freeze(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(freeze(v) for v in o)
    f = getattr(o, '_vc_freeze', None)
    return f() if f else o


class PickleModel(types.ModuleType):
    HIGHEST_PROTOCOL = 5

    def dump(self, obj, f, protocol=None, **k):
        if f.closed:
            raise ValueError('I/O operation on closed file')
        if 'b' not in f.mode:
            raise TypeError("write() argument must be str, not bytes")
        if 'r' in f.mode and '+' not in f.mode:
            raise OSError('not writable')
        f.fs.write_obj(f.name, ('pickle', freeze(obj)))

    def load(self, f, **k):
        if f.closed:
            raise ValueError('I/O operation on closed file')
        if 'b' not in f.mode:
            raise TypeError("a bytes-like object is required, not 'str'")
        o = f.fs.read_obj(f.name)
        if not (isinstance(o, tuple) and o[0] == 'pickle'):
            raise ValueError('not a pickle')
        return freeze(o[1])

    def dumps(self, obj, protocol=None):
        raise Unsupported('pickle.dumps')
    loads = dumps


CUR = [None]


def fs():
    if CUR[0] is None:
        raise Unsupported('file-system access')
    return CUR[0]


class OSPath(types.ModuleType):
    def exists(self, n):
        return fs().exists(n)
    lexists = isfile = exists

    def isdir(self, n):
        return False

    def join(self, *a):
        r = a[0]
        for x in a[1:]:
            r = r + '/' + x
        return r

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('os.path.' + n)


class OSModel(types.ModuleType):
    F_OK, R_OK, W_OK, X_OK = 0, 4, 2, 1
    sep = '/'
    error = OSError

    def rename(self, a, b):
        fs().rename(a, b)
    replace = rename

    def remove(self, a):
        fs().remove(a)
    unlink = remove

    def access(self, n, mode):
        f = fs()
        return SBool(z3.And(f.ex(zs(n)), f.access(zs(n))))

    def fsync(self, fd):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('os.' + n)


class ShutilModel(types.ModuleType):
    def copy(self, a, b, **k):
        return fs().copy(a, b)
    copyfile = copy2 = copy

    def move(self, a, b):
        fs().rename(a, b)
        return b

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('shutil.' + n)


def models():
    o = OSModel('os')
    o.path = OSPath('os.path')
    p = PickleModel('pickle')
    return {'os': o, 'os.path': o.path, 'pickle': p, 'cPickle': p, 'shutil': ShutilModel('shutil')}


def use(fsobj):
    CUR[0] = fsobj
    loader.FILES['open'] = fsobj.open if fsobj is not None else None
    return fsobj


class Npz:
    """an open .npz archive (read lazily from the file it was opened on)"""
    _vc_state = True

    def __init__(self, d, cid):
        from .sdict import SDict, ArrVal
        self.d, self.cid, self.broken = d, cid, False

    @property
    def files(self):
        return self.d.keys()
    keys = lambda self: self.d.keys()

    def __contains__(self, n):
        return n in self.d

    def __getitem__(self, n):
        if self.broken:
            raise ValueError('the archive was overwritten while open')
        return self.d[n]

    def __bool__(self):
        return bool(self.d)

    def items(self):
        if self.broken:
            raise ValueError('the archive was overwritten while open')
        return self.d.items()

    def _vc_space(self):
        return self.d._vc_space()

    def close(self):
        self.broken = True


class Savez:
    def __call__(self, f, *a, **k):
        raise Unsupported('savez of explicit arrays')

    def _vc_kw(self, a, d):
        if len(a) != 1:
            raise Unsupported('savez of positional arrays')
        f = fs()
        n = a[0]
        if not CTX.branch(z3.SuffixOf(z3.StringVal('.npz'), zs(n))):
            n = n + '.npz'
        old = CTX.branch(f.ex(zs(n)))
        if old:
            for h in f.handles:
                if CTX.branch(h.cid == f.ct(zs(n))):
                    h.broken = True
        f.write_obj(n, ('npz', d.copy()))


def npload(n, *a, **k):
    from .sdict import ArrVal
    f = fs()
    f.require(n)
    o = f.read_obj(n)
    if not (isinstance(o, tuple) and o[0] == 'npz'):
        raise Unsupported('numpy.load of another kind of file')
    d = o[1].copy()
    d.wrap = ArrVal
    h = Npz(d, z3.simplify(f.ct(zs(n))))
    f.handles.append(h)
    return h
