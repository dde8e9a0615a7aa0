"""Hostile Python: things that are hard or impossible to bind.

Every gadget defines only names starting with `zz` (module scope, class scope) or files named `zz*` (package scope);
`{n}` stands for such a name. ODD gadgets additionally change properties of the module itself."""

MODULE = [
    # names that are no Rust identifiers
    "globals()['zz not ident {n}'] = 1",
    "globals()['zz-{n}'] = lambda: 0",
    "globals()['zz.{n}'] = 'dotted'",
    "globals()['zz\\u2603{n}'] = 3",
    "globals()['zz\\n{n}'] = 3",
    "globals()['zz\"{n}'] = type('zz\"{n}', (), dict(__module__=__name__))",
    "{n} = type('zz we ird', (), dict(__module__=__name__, a=1))",
    "globals()['zz {n}'] = type('zz {n}', (), dict(__module__=__name__, m=lambda self: 0))",
    "globals()['zz #{n}'] = _t.TypeVar('zzT')",
    # strings that cannot be encoded
    "globals()['zz\\udc80{n}'] = 3",
    "{n} = '\\udc80'",
    "def {n}(a: '\\udc80', b='\\udc81') -> 'list[\\udc82]': pass",
    "def {n}(a=1): pass\n{n}.__doc__ = 'doc \\udc80'\n{n}.__name__ = {n}.__qualname__ = '\\udc80'",
    "def {n}(a=1): pass\n{n}.__module__ = 'zz\\udc80'",
    "class {n}:\n    zza: '\\udc80' = 1\n    def zzm(self, a: '\\udc80'): '\\udc80'\n    @property\n    def zzp(self) -> 'list[\\udc80]': '\\udc80'\nsetattr({n}, 'zz\\udc80', 1)",
    "class _M{n}(type):\n    def __repr__(c): return '\\udc80'\nclass {n}(metaclass=_M{n}): pass\ndef zz{n}(a: {n}) -> {n}: pass",
    # objects that cannot be inspected
    "class _Z{n}:\n    def __getattribute__(self, n): raise RuntimeError(n)\n{n} = _Z{n}()",
    "class _Z{n}:\n    @property\n    def __module__(self): raise ValueError('no module')\n{n} = _Z{n}()",
    "class _Z{n}:\n    @property\n    def __class__(self): raise ValueError('no class')\n{n} = _Z{n}()",
    "class _Z{n}:\n    __module__ = 5\n{n} = _Z{n}()",
    "class _Z{n}:\n    __module__ = ''\n{n} = _Z{n}()",
    "class _Z{n}:\n    __module__ = 'a b.c-d'\n{n} = _Z{n}()",
    "class _Z{n}:\n    __module__ = '..'\n{n} = _Z{n}()",
    "class _Z{n}:\n    def __str__(self): raise RuntimeError('str')\n    __repr__ = __str__\n    __format__ = None\n{n} = _Z{n}()",
    "class _Z{n}:\n    def __str__(self): return 5\n{n} = _Z{n}()",
    "class _Z{n}:\n    def __eq__(self, o): raise RuntimeError('eq')\n    def __hash__(self): raise RuntimeError('hash')\n    def __bool__(self): raise RuntimeError('bool')\n    def __len__(self): raise RuntimeError('len')\n{n} = _Z{n}()",
    "class _M{n}(type):\n    def __dir__(c): raise RuntimeError('dir')\nclass {n}(metaclass=_M{n}):\n    a = 1",
    "class _M{n}(type):\n    def __dir__(c): return 5\nclass {n}(metaclass=_M{n}):\n    a = 1",
    "class _M{n}(type):\n    def __dir__(c): return ['a', 3, None, 'zz no', 'missing']\nclass {n}(metaclass=_M{n}):\n    a = 1",
    "class _M{n}(type):\n    def __getattribute__(c, n): raise RuntimeError(n)\nclass {n}(metaclass=_M{n}):\n    a = 1",
    "class _M{n}(type):\n    def __getattribute__(c, n):\n        if n in ('__module__', '__name__', '__qualname__'): raise RuntimeError(n)\n        return type.__getattribute__(c, n)\nclass {n}(metaclass=_M{n}):\n    a = 1",
    "class _M{n}(type):\n    def __instancecheck__(c, o): raise RuntimeError('isinstance')\n    def __subclasscheck__(c, o): raise RuntimeError('issubclass')\nclass {n}(metaclass=_M{n}):\n    def m(self): pass",
    "class _M{n}(type):\n    def __str__(c): raise RuntimeError('str')\n    __repr__ = __str__\nclass {n}(metaclass=_M{n}):\n    def m(self, x: 'zz'): pass",
    "class _M{n}(type):\n    def __eq__(c, o): raise RuntimeError('eq')\n    def __hash__(c): return 1\nclass {n}(metaclass=_M{n}):\n    def m(self): pass",
    "class {n}:\n    @property\n    def __doc__(self): raise RuntimeError('doc')\n    def m(self): pass",
    "class _D{n}:\n    def __get__(self, o, t=None): raise RuntimeError('descriptor')\nclass {n}:\n    a = _D{n}()\n    b = 1",
    "class _D{n}:\n    def __get__(self, o, t=None): raise SystemExit(3)\nclass {n}:\n    a = _D{n}()\n    b = 1",
    "class _D{n}:\n    def __get__(self, o, t=None): return t\nclass {n}:\n    a = _D{n}()",
    "class _D{n}:\n    fget = fset = 5\nclass {n}:\n    a = _D{n}()",
    "class _D{n}:\n    @property\n    def fget(self): raise SystemExit('fget')\nclass {n}:\n    a = _D{n}()",
    "class {n}:\n    a = property()\n    b = property(None, lambda: 0)\n    c = property(lambda: 1, lambda s: 0)\n    d = property(len, print)",
    "{n} = type('', (), dict(__module__=__name__))",
    "class {n}:\n    pass\n{n}.__name__ = 'zz other'\n{n}.__qualname__ = 'zz.<locals>.x'",
    "class {n}:\n    pass\n{n}.__module__ = None",
    "class {n}:\n    pass\n{n}.__module__ = '<weird>'",
    "class {n}:\n    locals()['zz we'] = 1\n    locals()['zz-fn'] = lambda self: 0\n    locals()['1'] = property(lambda s: 0)",
    # signatures
    "def {n}(a): pass\n{n}.__signature__ = 3",
    "def {n}(a): pass\n{n}.__signature__ = property(lambda: 0)",
    "import inspect as _in\ndef {n}(a): pass\n{n}.__signature__ = _in.Signature([_in.Parameter('zz', 1, annotation=5), _in.Parameter('default', 1, default=object())], return_annotation='')",
    "def {n}(a): pass\n{n}.__wrapped__ = {n}",
    "def {n}(a): pass\n{n}.__wrapped__ = 5",
    "def {n}(a, b): pass\n{n}.__annotations__ = dict(a=3, b=[1, 2], **{{'return': {{}}}})",
    "def {n}(a: '[', b: 'list[', c: ']', d: 'int]', e: '', f: ' ', g: '|', h: 'Union[', i: 'a b', j: ',', k: 'dict[int', l: '[]', m: '...') -> 'tuple[': pass",
    "def {n}(a: \"Literal['x,y]']\", b: 'Annotated[int, \"a]\"]', c: '\"q', d: \"'\", e: '\\\\', f: 'dict[,]', g: 'tuple[()]', h: 'list[]', i: 'Callable[[, int]', j: 'Union[]', k: 'Optional[]', l: ']['): pass",
    "def {n}(a: 'x' * 5000, b: 'list[' * 60 + ']' * 60) -> 'None | ' * 100: pass",
    "def {n}(a: _t.Literal['x', 3, None], b: _t.Annotated[int, 'meta'], c: _t.ForwardRef('zz'), d: _t.Generic, e: _t.NoReturn, f: _t.LiteralString, g: _t.Final[int] = 3) -> _t.Never: pass",
    "class _A{n}:\n    def __str__(self): raise RuntimeError('ann')\n    __repr__ = __str__\ndef {n}(a: _A{n}()) -> _A{n}(): pass",
    "class _A{n}:\n    def __repr__(self): return 'list[a b, }}{{'\ndef {n}(a: _A{n}()) -> _A{n}(): pass",
    "class _A{n}:\n    def __getattribute__(self, n): raise RuntimeError('ann ' + n)\ndef {n}(a: _A{n}()): pass",
    "class _E{n}:\n    def __eq__(self, o): raise RuntimeError('default eq')\n    __hash__ = None\n    def __bool__(self): raise RuntimeError\n    def __repr__(self): raise RuntimeError\ndef {n}(a=_E{n}(), *, b=_E{n}()): pass",
    "{n} = eval('lambda self, *self_: 0')\n{n}.__name__ = 'zz name'",
    "def {n}(*, self=1): pass",
    "def {n}(a, *self): pass",
    "def {n}(**self): pass",
    "def {n}(_, __, ___): pass",
    "exec('def {n}(' + ', '.join('a%d' % i for i in range(300)) + '): pass')",
    "{n} = _ft.partial({{}}.get)",
    "{n} = _ft.partial(lambda a, b, c: 0, c=5)",
    "{n} = _ft.partial(int, base=2)",
    "{n} = _ft.partial(_ft.partial(print, 1), 2)",
    "{n} = _ft.singledispatch(lambda a: 0)",
    "{n} = _ft.lru_cache()(lambda a, b=1: 0)",
    "{n} = _ft.partialmethod(lambda s, a: 0, 1)",
    "{n} = staticmethod(lambda a: 0)",
    "{n} = classmethod(lambda a: 0)",
    "{n} = property(lambda a: 0)",
    "{n} = 'abc'.upper",
    "{n} = [].append",
    "{n} = dict.fromkeys",
    "{n} = str.join",
    "{n} = int.__add__",
    "class {n}:\n    __call__ = 5\n    __init__ = None",
    "class {n}:\n    __init__ = property(lambda s: 0)\n    __call__ = property(lambda s: 0)",
    "class {n}:\n    __init__ = staticmethod(lambda: 0)\n    __new__ = classmethod(lambda *a: 0)",
    "class {n}:\n    def __new__(cls, a, b=1): return 5",
    "class {n}:\n    def m(): pass\n    def n(*args): pass\n    def o(**kw): pass\n    def p(self, self_, *, zz): pass",
    "class {n}:\n    def m(s, self): pass\n    @staticmethod\n    def n(self, a): pass\n    @classmethod\n    def o(klass, self=1): pass",
    "class {n}:\n    m = _ft.partialmethod(lambda s, a: 0, 1)\n    n = _ft.cached_property(lambda s: 0)\n    o = _ft.partial(print)\n    p = print\n    q = 'abc'.upper\n    r = int\n    s = _t.TypeVar('T')\n    t = _sys\n    u = _ft.singledispatchmethod(lambda s, a: 0)",
    # unusual kinds of classes and objects
    "import enum as _en\nclass {n}(_en.Enum):\n    A = 1\n    B = 'b'\n    def m(self): pass",
    "import enum as _en\nclass {n}(_en.IntFlag):\n    A = 1\n    B = 2",
    "import dataclasses as _dc\n@_dc.dataclass\nclass {n}:\n    a: int\n    b: 'str' = 'x'\n    c: list = _dc.field(default_factory=list)",
    "{n} = _t.NamedTuple('{n}', [('a', int), ('struct', str)])",
    "class {n}(_t.TypedDict):\n    a: int",
    "class {n}(_t.Protocol):\n    a: int\n    def m(self) -> int: ...",
    "_T{n} = _t.TypeVar('_T{n}')\nclass {n}(_t.Generic[_T{n}]):\n    def m(self, a: _T{n}) -> _t.List[_T{n}]: pass",
    "class {n}:\n    __slots__ = ('a', 'struct', '_p')",
    "import abc as _abc\nclass {n}(_abc.ABC):\n    @property\n    @_abc.abstractmethod\n    def a(self): pass",
    "class {n}(Exception):\n    pass",
    "class {n}(dict):\n    def __missing__(self, k): return k",
    "class {n}(type):\n    def m(cls): pass",
    "class {n}(int):\n    pass\n{n}x = {n}(3)",
    "import ctypes as _ct\nclass {n}(_ct.Structure):\n    _fields_ = [('a', _ct.c_int)]",
    "import unittest.mock as _um\n{n} = _um.MagicMock()",
    "import unittest.mock as _um\n{n} = _um.MagicMock(spec=int)",
    "import unittest.mock as _um\nclass {n}:\n    a = _um.MagicMock()",
    "import unittest.mock as _um\ndef {n}(a: _um.MagicMock(), b=_um.MagicMock()) -> _um.MagicMock(): pass",
    "import unittest.mock as _um\n{n} = _um.create_autospec(lambda a, b: 0)",
    "import weakref as _wr\nclass _W{n}: pass\n{n} = _wr.proxy(_W{n}())",
    "import weakref as _wr\nclass _W{n}: pass\n_k{n} = _W{n}()\n{n} = _wr.proxy(_k{n})",
    "import types as _ty\n{n} = _ty.SimpleNamespace(a=1)",
    "import types as _ty\n{n} = _ty.MappingProxyType({{}})",
    "import types as _ty\n{n} = _ty.ModuleType('zz mod')",
    "import types as _ty\n{n} = _ty.ModuleType('')",
    "import types as _ty\n{n} = _ty.ModuleType('zzmod')\ndel {n}.__name__",
    "import types as _ty\n{n} = _ty.ModuleType(__name__ + '.{n}')\n{n}.f = lambda: 0",
    "import types as _ty\n{n} = _ty.MethodType(lambda s, a: 0, 5)",
    "import types as _ty\n{n} = _ty.new_class('{n}')",
    "{n} = _sys.modules[__name__]",
    "{n} = _sys",
    "import os.path as {n}",
    "{n} = _t.Any",
    "{n} = _t.Union[int, str]",
    "{n} = _t.Callable[..., 'zz']",
    "{n} = list[int] | None",
    "{n} = _t.TypeVarTuple('{n}')",
    "{n} = _t.ForwardRef('zz')",
    "type {n}[T] = list[T]",
    "def {n}[T](a: T) -> list[T]: pass",
    # (on its own: Python 3.12 would mangle private names after it)
    "exec('class {n}[T]:\\n    def m(self, a: T) -> T: pass')",
    "{n} = (i for i in ())",
    "async def _ag{n}():\n    yield 1\n{n} = _ag{n}()",
    "{n} = float('nan')",
    "{n} = 10 ** 5000",
    "{n} = memoryview(b'x')",
    "{n} = object()",
    "{n} = Ellipsis",
    "{n} = int",
    "{n} = type",
    "{n} = object",
    "{n} = super",
    "{n} = type(None)",
    "{n} = type(lambda: 0)",
    "{n} = _sys.stdout",
    "{n} = __builtins__",
    "{n} = __spec__",
    "{n} = __loader__",
    "{n}: int",
    "class {n}:\n    class Inner:\n        def m(self): pass\n    class Outer(Inner): pass\n    i = Inner()",
    "def _mk{n}():\n    class zzlocal:\n        def m(self): pass\n    return zzlocal\n{n} = _mk{n}()\n{n}i = _mk{n}()()",
    # docstrings
    "def {n}(): pass\n{n}.__doc__ = 5",
    "def {n}(): pass\n{n}.__doc__ = '\\x00 nul \\x1b \\r \\u2028 \\ufeff \\u202e'",
    "def {n}(): pass\n{n}.__doc__ = '`' * 200 + '~' * 200 + '/' * 50 + '\\n' * 50",
    "class _S{n}(str):\n    def __str__(self): raise RuntimeError\n    def __len__(self): return 5\ndef {n}(): pass\n{n}.__doc__ = _S{n}('doc')",
    "class {n}:\n    __doc__ = 5",
]

CLASS = [
    "def {n}(self, a: '\\udc80' = 1) -> '\\udc80': '\\udc80'",
    "locals()['zz\\udc80{n}'] = 1",
    "locals()['zz we ird{n}'] = 1",
    "locals()['zz-{n}'] = lambda self: 0",
    "{n} = property()",
    "{n} = property(None, lambda: 0)",
    "{n} = type('zzInner', (), {{}})",
    "{n} = __import__('functools').partial(print, 1)",
    "{n} = __import__('functools').partialmethod(lambda s, a: 0, 1)",
    "{n} = __import__('functools').cached_property(lambda s: 0)",
    "{n} = __import__('typing').TypeVar('T')",
    "{n} = __import__('sys')",
    "{n} = 'abc'.upper",
    "{n} = print",
    "{n} = int",
    "{n} = type('D', (), dict(__get__=lambda s, o, t=None: 1 / 0))()",
    "{n} = type('D', (), dict(__get__=lambda s, o, t=None: __import__('sys').exit(4)))()",
    "{n} = type('D', (), dict(fget=property(lambda s: 1 / 0)))()",
    "{n} = type('D', (), dict(__module__=7))()",
    "{n} = type('D', (), dict(__module__=property(lambda s: 1 / 0)))()",
    "{n} = type('D', (), dict(__getattribute__=lambda s, n: 1 / 0))()",
    "def {n}(): pass",
    "def {n}(*args, **kwargs): pass",
    "def {n}(*, self=1): pass",
    "def {n}(s, *self): pass",
    "def {n}(self, a: '[', b: '', c: 'x y'): pass",
    "def {n}(self): pass\n    {n}.__signature__ = 4",
    "def {n}(self): pass\n    {n}.__doc__ = 4",
    "def {n}(self): pass\n    {n}.__wrapped__ = {n}",
    "{n} = staticmethod(len)",
    "{n} = classmethod(lambda *a: 0)",
    "{n} = staticmethod(5)",
    "{n} = classmethod(5)",
    "{n} = __import__('unittest.mock').mock.MagicMock()",
    "{n}: int",
]

PACKAGE = {  # additional submodules: file name -> content
    "raises": ("zz_{n}.py", "raise RuntimeError('no')\n"),
    "import error": ("zz_{n}.py", "import zz_missing_module\n"),
    "syntax error": ("zz_{n}.py", "def (:\n"),
    "exits": ("zz_{n}.py", "import sys\nsys.exit(3)\n"),
    "interrupts": ("zz_{n}.py", "raise KeyboardInterrupt\n"),
    "base exception": ("zz_{n}.py", "class E(BaseException): pass\nraise E\n"),
    "generator exit": ("zz_{n}.py", "raise GeneratorExit\n"),
    "odd exception": ("zz_{n}.py", "class E(Exception):\n    def __str__(self): raise RuntimeError\n    __repr__ = __str__\nraise E\n"),
    "recursion": ("zz_{n}.py", "def f(): return f()\nf()\n"),
    "bad name": ("zz-{n}.py", "x = 1\n"),
    "spaced name": ("zz {n}.py", "def f(): pass\n"),
    "dotted name": ("zz.{n}.py", "x = 1\n"),
    "digit name": ("1zz{n}.py", "x = 1\n"),
    "vanishes": ("zz_{n}.py", "import sys\ndel sys.modules[__name__]\n"),
    "none": ("zz_{n}.py", "import sys\nsys.modules[__name__] = None\n"),
    "replaced": ("zz_{n}.py", "import sys\nclass R:\n    def f(self): pass\nsys.modules[__name__] = R()\n"),
    "replaced class": ("zz_{n}.py", "import sys\nclass R:\n    a = 1\nsys.modules[__name__] = R\n"),
    "nameless": ("zz_{n}.py", "del __name__\ndef f(): pass\n"),
    "renamed": ("zz_{n}.py", "__name__ = 'zz we ird'\ndef f(): pass\n"),
    "renamed empty": ("zz_{n}.py", "__name__ = ''\nx = 1\n"),
    "number name": ("zz_{n}.py", "__name__ = 5\nx = 1\n"),
    "raising dir": ("zz_{n}.py", "def __dir__(): raise RuntimeError\n"),
    "odd dir": ("zz_{n}.py", "def __dir__(): return [1, 'a', None]\n"),
    "raising getattr": ("zz_{n}.py", "def __getattr__(n): raise RuntimeError(n)\n"),
    "exiting getattr": ("zz_{n}.py", "def __getattr__(n): raise SystemExit(n)\nx = 1\n"),
    "any getattr": ("zz_{n}.py", "def __getattr__(n): return n\nx = 1\n"),
    "odd path": ("zz_{n}.py", "__path__ = 5\nx = 1\n"),
    "odd path list": ("zz_{n}.py", "__path__ = [1, None, object()]\nx = 1\n"),
    "raising path": ("zz_{n}.py", "class P:\n    def __iter__(self): raise RuntimeError\n__path__ = P()\nx = 1\n"),
    "null bytes": ("zz_{n}.py", "x = '\x00'\n"),
    "bad encoding": ("zz_{n}.py", "# coding: zz\nx = 1\n"),
    "directory": ("zz_{n}/inner.py", "x = 1\n"),
    "bad package": ("zz_{n}/__init__.py", "raise ValueError\n"),
    "loop": ("zz_{n}/__init__.py", "__path__ = [__path__[0] + '/..']\n"),
}
PACKAGE.pop("loop")  # an endless module tree has no bindings

# statements that make the module itself odd (not used where other bindings have to stay the same)
ODD = [
    "__all__ = 5", "__all__ = 'abc'", "__all__ = [1, None, 'zz y', '']", "__all__ = (x for x in ['a', 'b'])", "__all__ = {'a': 1}", "__all__ = None",
    "__all__ = ['zz_missing', 'self', 'Self', 'struct', '_x', 'a-b']",
    "class _AllZ:\n    def __iter__(self): raise RuntimeError\n__all__ = _AllZ()",
    "__doc__ = 5", "del __doc__", "__doc__ = '\\x00'", "class _DZ(str):\n    def __str__(self): raise RuntimeError\n__doc__ = _DZ('x')",
    "__name__ = 'zz other'", "__name__ = ''", "__name__ = 5", "del __name__", "__name__ = 'a..b'", "__name__ = '.'", "__name__ = 'self'", "__name__ = 'super.self'", "__name__ = 'x y.z'",
    "__path__ = 5", "__path__ = [3]", "__path__ = []", "del __path__" , "__path__ = ['/nonexistent']",
    "def __dir__(): raise RuntimeError('dir')", "def __dir__(): return 5", "def __dir__(): return ['a', 3, None, 'missing', 'x y']", "def __dir__(): return ()",
    "def __dir__(): raise SystemExit(3)",
    "def __getattr__(n): raise RuntimeError(n)", "def __getattr__(n): raise SystemExit(n)", "def __getattr__(n): return lambda *a: 0", "def __getattr__(n): return 5",
    "class _MZ(type(_sys)):\n    def __getattribute__(s, n):\n        if n in ('__module__', '__doc__', '__all__', '__path__'): raise RuntimeError(n)\n        return type(_sys).__getattribute__(s, n)\n_sys.modules[__name__].__class__ = _MZ",
    "class _MZ(type(_sys)):\n    @property\n    def __dict__(s): raise RuntimeError\n_sys.modules[__name__].__class__ = _MZ",
    "class _MZ(type(_sys)):\n    def __repr__(s): raise RuntimeError\n_sys.modules[__name__].__class__ = _MZ",
    "_sys.modules[__name__] = 5", "_sys.modules[__name__] = type('C', (), {})()", "_sys.modules[__name__] = type('C', (), {})", "del _sys.modules[__name__]",
    "_sys.modules[__name__] = __import__('types').ModuleType('zz other name')",
    "__import__('typing').zz = 1", "import builtins as zzb", "__annotations__ = 5", "__file__ = 5", "del __file__", "__spec__ = None", "__package__ = 5", "__loader__ = 7",
    "raise RuntimeError('import')", "raise SystemExit(2)", "raise KeyboardInterrupt",
]

WORDS = ["int", "str", "bytes", "list", "dict", "set", "frozenset", "tuple", "Sequence", "Iterable", "Iterator", "Callable", "Union", "Optional", "type", "None", "...",
         "Any", "typing.", "collections.abc.", "Alpha", "pkg.Alpha", "datetime.date", "zz", "", "\\", "1", "'a,b'", "r#struct", "struct", "::"]
MARKS = ["[", "]", ",", "|", " ", "'", "\"", ".", "[[", "]]", "[", "]", "[", "]", ", ", " | ", "(", ")"]

TYPES = ["list[int]", "dict[str, int]", "set[str]", "frozenset[str]", "tuple[int, str]", "tuple[int, ...]", "Sequence[int]", "Iterable[str]", "Iterator[str]", "Callable[[int, str], int]", "Callable[..., None]",
         "Optional[int]", "Union[int, None]", "Union[list[int], dict[str, int]]", "int | None", "type[Alpha]", "<class 'int'>", "<enum 'Alpha'>", "typing.List[int]", "typing.Optional[typing.Dict[str, int]]",
         "collections.abc.Sequence[int]", "collections.OrderedDict[str, int]", "Literal['a', 'b']", "Annotated[int, 'x']", "datetime.date", "pkg.Alpha", "'Alpha'", "~T", "bytearray", "r#struct"]


def mutants():
    """Every text that differs from one of TYPES by little."""
    out = set()
    for t in TYPES:
        for i in range(len(t) + 1):
            out |= {t[:i], t[i:], t[:i] + t[i + 1:], t[:i] + t[i:].replace("[", "").replace("]", "")} | {t[:i] + m + t[i:] for m in "[],| '.\0\udc80é"}
    return sorted(out)


def mutant(g):
    t = g.pick(TYPES)
    for _ in range(1 + g.i(3)):
        i, m = g.i(len(t) + 1), g.i(4)
        t = t[:i] + t[i + 1:] if m == 0 else t[:i] + g.pick(MARKS) + t[i:] if m == 1 else t[:i] + g.pick(TYPES) + t[i:] if m == 2 else t[:i]
    return t


def annotation(g):
    """The text of an annotation that may be no type at all."""
    if g.flag():
        return mutant(g)
    return "".join(g.pick(WORDS if g.flag() else MARKS) for _ in range(1 + g.i(7)))


def annotated(g, n, method):
    """A function whose annotations are arbitrary text."""
    params = ["self"] * method + [f"p{i}: {annotation(g)!r}" for i in range(1 + g.i(3))]
    return f"def {n}({', '.join(params)}) -> {annotation(g)!r}: pass"
