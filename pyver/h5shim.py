"""Trusted stand-in for h5py (symbolic runs only; the run-time checks of the same contracts use the real h5py).
Contract: a file is a tree of groups and datasets with attributes, shared by every handle open on the path; a dataset gives back the
values it was created with (strings as bytes unless asstr is used); the children of a group are listed in the order of their names;
creating a name twice, reading an absent one, writing through a read-only handle and using a closed handle fail."""
import os
import posixpath
import types
from . import arrays
from .core import Unsupported

STORE = {}          # real path -> node of the root group
OPEN = {}           # real path -> modes of the open handles
ALLOWED = (str, bytes, int, float)


class _Node:
    def __init__(self):
        self.children = {}
        self.attrs = {}


class _Data:
    def __init__(self, v):
        self.v = v
        self.attrs = {}


class _Link:
    def __init__(self, path):
        self.path = path


SoftLink = _Link


class StrType:
    """marker of the variable-length string type"""
    kind = 'O'

    def __repr__(self):
        return 'str'


def special_dtype(vlen=None, **kw):
    if vlen is str:
        return StrType()
    raise Unsupported("h5py type")


string_dtype = lambda *a, **k: StrType()


def _plain(v):
    """value as stored: copied, of a kind the format has"""
    from .core import is_sym
    from fractions import Fraction
    if isinstance(v, arrays.SArr):
        return v.copy()
    if is_sym(v) or isinstance(v, (Fraction,) + ALLOWED):
        return v
    if isinstance(v, (list, tuple)):
        if all(isinstance(x, str) for x in v):
            return list(v)
        return arrays.as_arr(v).copy()
    raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")


class AttributeManager:
    def __init__(self, node, file):
        self._n, self._f = node, file

    def __getitem__(self, k):
        self._f._use()
        return self._n.attrs[k]

    def __setitem__(self, k, v):
        self._f._use(True)
        self._n.attrs[k] = _plain(v)

    def __delitem__(self, k):
        self._f._use(True)
        del self._n.attrs[k]

    def create(self, k, v, **kw):
        self[k] = v

    def __contains__(self, k):
        self._f._use()
        return k in self._n.attrs

    def keys(self):
        self._f._use()
        return sorted(self._n.attrs)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._n.attrs)

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]

    def get(self, k, default=None):
        return self[k] if k in self else default

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v


class _Obj:
    def __init__(self, node, name, file):
        self._n, self._name, self._f = node, name, file

    @property
    def name(self):
        self._f._use()
        return self._name

    @property
    def attrs(self):
        return AttributeManager(self._n, self._f)

    @property
    def file(self):
        return self._f

    @property
    def parent(self):
        return self._f[posixpath.dirname(self._name)]

    def __bool__(self):
        return self._f._open


class Dataset(_Obj):
    def __getitem__(self, k):
        self._f._use()
        v = self._n.v
        if isinstance(v, str):
            if k != ():
                raise ValueError("Illegal slicing argument for scalar dataspace")
            return v.encode()
        if isinstance(v, list):
            v = [x.encode() for x in v]
            return v if k == () else v[k]
        if isinstance(v, arrays.SArr):
            v = v.copy()
            return v if isinstance(k, tuple) and k == () or k is Ellipsis else v[k]
        if k != ():
            raise ValueError("Illegal slicing argument for scalar dataspace")
        return v

    def asstr(self, *a, **k):
        self._f._use()
        v = self._n.v
        if not isinstance(v, (str, list)):
            raise TypeError("dset.asstr() can only be used on datasets with an HDF5 string datatype")

        class View:
            def __getitem__(s, k):
                return v if isinstance(v, str) else (list(v) if k == () else v[k])
        return View()

    @property
    def shape(self):
        v = self._n.v
        return (len(v),) if isinstance(v, list) else (v.shape if isinstance(v, arrays.SArr) else ())

    def __len__(self):
        return self.shape[0]

    def __array__(self):
        raise Unsupported("implicit conversion of a dataset")


class Group(_Obj):
    def _find(self, path):
        self._f._use()
        if isinstance(path, bytes):
            path = path.decode()
        if not isinstance(path, str):
            raise TypeError(f"Accessing a group is done with bytes or str, not {type(path)}")
        node, name = (self._f._root, '/') if path.startswith('/') else (self._n, self._name)
        for part in [p for p in path.split('/') if p not in ('', '.')]:
            if not isinstance(node, _Node) or part not in node.children:
                raise KeyError(f"Unable to synchronously open object (object '{part}' doesn't exist)")
            node, name = node.children[part], posixpath.join(name, part)
            if isinstance(node, _Link):
                base = self._f if node.path.startswith('/') else self._f[posixpath.dirname(name)]
                node = base._find(node.path)[0]
        return node, name

    def _wrap(self, node, name):
        return Group(node, name, self._f) if isinstance(node, _Node) else Dataset(node, name, self._f)

    def __getitem__(self, path):
        return self._wrap(*self._find(path))

    def __contains__(self, path):
        try:
            self._find(path)
            return True
        except KeyError:
            return False

    def get(self, path, default=None, **kw):
        return self[path] if path in self else default

    def keys(self):
        self._f._use()
        return sorted(self._n.children)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._n.children)

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]

    def _place(self, name, new):
        self._f._use(True)
        if not isinstance(name, str):
            raise TypeError("name of a node must be str")
        node, parts = (self._f._root if name.startswith('/') else self._n), [p for p in name.split('/') if p not in ('', '.')]
        full = '/' if name.startswith('/') else self._name
        if not parts:
            raise ValueError("Unable to create group (name already exists)")
        for p in parts[:-1]:
            full = posixpath.join(full, p)
            if p not in node.children:
                node.children[p] = _Node()
            node = node.children[p]
            if isinstance(node, _Link):
                node = self._f._find(node.path)[0]
            if not isinstance(node, _Node):
                raise ValueError("Unable to create (component not a group)")
        if parts[-1] in node.children:
            raise ValueError("Unable to synchronously create (name already exists)")
        node.children[parts[-1]] = new
        return new, posixpath.join(full, parts[-1])

    def create_group(self, name, **kw):
        return self._wrap(*self._place(name, _Node()))

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if data is None:
            raise Unsupported("empty dataset")
        v = _plain(data)
        if isinstance(v, arrays.SArr):
            k = arrays.kind_of_dtype(dtype) if dtype is not None and not isinstance(dtype, StrType) else None
            if k is not None and k != v.dtype.kind:
                v = v.astype(dtype)
        elif kw.get('compression') is not None and not isinstance(v, list):
            raise TypeError("Scalar datasets don't support chunk/filter options")
        return self._wrap(*self._place(name, _Data(v)))

    def __setitem__(self, name, v):
        if isinstance(v, _Link):
            self._place(name, v)
        elif isinstance(v, _Obj):
            self._place(name, v._n)
        else:
            self.create_dataset(name, data=v)

    def __delitem__(self, path):
        self._f._use(True)
        self._find(path)
        full = path if path.startswith('/') else posixpath.join(self._name, path)
        parent = self._f._find(posixpath.dirname(full))[0]
        del parent.children[posixpath.basename(full)]

    def visititems(self, func):
        self._f._use()

        def walk(node, rel):
            for k in sorted(node.children):
                x = node.children[k]
                if isinstance(x, _Link):
                    continue
                name = posixpath.join(rel, k)
                r = func(name, self._wrap(x, posixpath.join(self._name, name)))
                if r is not None:
                    return r
                if isinstance(x, _Node):
                    r = walk(x, name)
                    if r is not None:
                        return r
            return None
        return walk(self._n, '')

    def visit(self, func):
        return self.visititems(lambda n, o: func(n))


class File(Group):
    def __init__(self, name, mode='r', **kw):
        if not isinstance(name, (str, os.PathLike)):
            raise TypeError("file name")
        self._p = os.path.realpath(str(name))
        self.filename = str(name)
        self._open = False
        there = os.path.exists(self._p)
        if there and self._p not in STORE:
            raise OSError("Unable to synchronously open file (file signature not found)")
        if not there:
            STORE.pop(self._p, None)
        opened = OPEN.setdefault(self._p, [])
        if mode in ('r', 'r+') and not there:
            raise FileNotFoundError(f"Unable to synchronously open file (unable to open file: name = '{name}')")
        if mode in ('w-', 'x') and there:
            raise FileExistsError("Unable to synchronously create file (file exists)")
        if mode == 'w' and opened:
            raise OSError("Unable to synchronously create file (file is already open)")
        if mode in ('r+', 'a') and opened and 'r' in opened:
            raise OSError("Unable to synchronously open file (file is already open for read-only)")
        if mode not in ('r', 'r+', 'w', 'w-', 'x', 'a'):
            raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
        if mode in ('w', 'w-', 'x') or not there:
            with open(self._p, 'w'):
                pass
            STORE[self._p] = _Node()
        self._root = STORE[self._p]
        self.mode = 'r' if mode == 'r' else 'r+'
        self._open = True
        opened.append(self.mode)
        self._n, self._name = self._root, '/'

    @property
    def _f(self):
        return self

    def _use(self, write=False):
        if not self._open:
            raise ValueError("Invalid location identifier (closed file)")
        if write and self.mode == 'r':
            raise ValueError("Unable to synchronously create (no write intent on file)")

    def close(self):
        if self._open:
            self._open = False
            OPEN[self._p].remove(self.mode)

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def table():
    m = types.ModuleType('h5py')
    for n in ('File', 'Group', 'Dataset', 'SoftLink', 'AttributeManager', 'special_dtype', 'string_dtype'):
        setattr(m, n, globals()[n])
    return {'h5py': m}


def reset():
    STORE.clear()
    OPEN.clear()
