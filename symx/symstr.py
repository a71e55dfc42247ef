"""Symbolic text: a fixed number of characters, each a z3 Int (its code point) or a known character.

==, order, concatenation and substring tests are decided by the solver over the code points; the number of characters
is part of the bounds.  `type()` and `isinstance()` of the code under test see `str`."""
import builtins
import z3

from . import engine as _e
from .engine import Unsupported
from .values import SymBool, SymInt

_isinstance = builtins.isinstance
LO, HI = 33, 126  # printable ASCII
WHITE = " \t\n\r\x0b\x0c"


class TextBool(SymBool):
    """truth of a comparison of texts; what the path has already decided is looked up first"""
    __slots__ = ("kid", "neg")

    def __init__(self, b):
        self.b = b
        self.neg = b.decl().kind() == z3.Z3_OP_NOT
        self.kid = (b.children()[0] if self.neg else b).get_id()

    def __bool__(self):
        c = _e.ctx()
        d = c.known.get(self.kid)
        return d[1] != self.neg if d is not None else c.branch(self.b)


def _mk(c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return TextBool(c)


_IV = {}
_CMP = {}  # (operation, text, text) -> answer; the texts are kept alive, so are the ids of their terms


def _cached(op, a, o, f):
    b = SymStr.chars(o)
    if b is None:
        return None
    k = (op, a.key, o.key if _isinstance(o, SymStr) else o)
    r = _CMP.get(k)
    if r is None:
        if len(_CMP) > 100000:
            _CMP.clear()
        r = _CMP[k] = (_mk(f(b)), a, o)
    return r


def _code(ch):
    if _isinstance(ch, str):
        r = _IV.get(ch)
        if r is None:
            r = _IV[ch] = z3.IntVal(ord(ch))
        return r
    return ch


_TOK = {}


def _token(c):
    _TOK[c.get_id()] = c
    return "\x01%d\x02" % c.get_id()


def text(r):
    """result of an f-string, str() or .format() of the code under test, with its unknown characters put back"""
    if type(r) is not str or "\x01" not in r:
        return r
    out = []
    for i, part in enumerate(r.split("\x01")):
        if i:
            k, part = part.split("\x02", 1)
            out.append(_TOK[int(k)])
        out.extend(part)
    return SymStr(out)


class SymStr:
    sxtype = str
    __slots__ = ("ch", "key")

    def __init__(self, chars):
        self.ch = tuple(chars)
        self.key = tuple(c if _isinstance(c, str) else c.get_id() for c in self.ch)

    @staticmethod
    def chars(o):
        if _isinstance(o, SymStr):
            return o.ch
        if _isinstance(o, str):
            return tuple(o)
        return None

    def _eq(self, b):
        a = self.ch
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([_code(x) == _code(y) for x, y in zip(a, b) if x is not y] + [z3.BoolVal(True)])

    def __eq__(self, o):
        if o is self:
            return True
        r = _cached("eq", self, o, self._eq)
        return False if r is None else r[0]

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.b)) if _isinstance(r, SymBool) else not r

    def __hash__(self):
        return 7919

    def _lt(self, b, strict):
        a = self.ch
        r = z3.BoolVal(len(a) < len(b) or (not strict and len(a) == len(b)))
        for i in reversed(range(min(len(a), len(b)))):
            x, y = _code(a[i]), _code(b[i])
            r = z3.Or(x < y, z3.And(x == y, r))
        return r

    def __lt__(self, o):
        r = _cached("lt", self, o, lambda b: self._lt(b, True))
        return NotImplemented if r is None else r[0]

    def __le__(self, o):
        r = _cached("le", self, o, lambda b: self._lt(b, False))
        return NotImplemented if r is None else r[0]

    def __gt__(self, o):
        r = _cached("gt", self, o, lambda b: z3.Not(self._lt(b, False)))
        return NotImplemented if r is None else r[0]

    def __ge__(self, o):
        r = _cached("ge", self, o, lambda b: z3.Not(self._lt(b, True)))
        return NotImplemented if r is None else r[0]

    def __add__(self, o):
        b = self.chars(o)
        return NotImplemented if b is None else SymStr(self.ch + b)

    def __radd__(self, o):
        b = self.chars(o)
        return NotImplemented if b is None else SymStr(b + self.ch)

    def __contains__(self, o):
        b = self.chars(o)
        if b is None:
            raise TypeError("'in <string>' requires string as left operand, not " + type(o).__name__)
        return bool(_cached("in", self, o, self._in)[0])

    def _in(self, b):
        alts = [z3.And([_code(x) == _code(y) for x, y in zip(self.ch[i:], b)] + [z3.BoolVal(True)])
                for i in range(len(self.ch) - len(b) + 1)]
        return z3.Or(alts + [z3.BoolVal(False)])

    def __len__(self):
        return len(self.ch)

    def __bool__(self):
        return bool(self.ch)

    def __iter__(self):
        return iter([SymStr([c]) for c in self.ch])

    def __getitem__(self, i):
        return SymStr(self.ch[i] if _isinstance(i, slice) else [self.ch[i]])

    def startswith(self, o):
        b = self.chars(o)
        return len(b) <= len(self.ch) and _mk(SymStr(self.ch[:len(b)])._eq(b))

    def endswith(self, o):
        b = self.chars(o)
        return len(b) <= len(self.ch) and _mk(SymStr(self.ch[len(self.ch) - len(b):])._eq(b))

    def _is(self, i, chars):
        """is the i-th character one of `chars`?"""
        x = self.ch[i]
        if _isinstance(x, str):
            return x in chars
        return bool(_mk(z3.Or([x == ord(k) for k in chars])))

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def rstrip(self, chars=None):
        chars, n = WHITE if chars is None else chars, len(self.ch)
        while n and self._is(n - 1, chars):
            n -= 1
        return SymStr(self.ch[:n])

    def lstrip(self, chars=None):
        chars, n = WHITE if chars is None else chars, 0
        while n < len(self.ch) and self._is(n, chars):
            n += 1
        return SymStr(self.ch[n:])

    def splitlines(self, keepends=False):
        """characters that end a line other than \\n are out of the bounds"""
        out, cur = [], []
        for i, x in enumerate(self.ch):
            if self._is(i, "\n"):
                out.append(SymStr(cur + ["\n"] if keepends else cur))
                cur = []
            else:
                cur.append(x)
        return out + ([SymStr(cur)] if cur else [])

    def isdigit(self):
        return bool(self.ch) and all(self._is(i, "0123456789") for i in range(len(self.ch)))

    isnumeric = isdecimal = isdigit

    def isspace(self):
        return bool(self.ch) and all(self._is(i, WHITE) for i in range(len(self.ch)))

    def to_int(self):
        t = self.strip()
        neg = len(t.ch) > 1 and t._is(0, "-")
        d = SymStr(t.ch[1:]) if neg else t
        if not d.isdigit():
            raise ValueError("invalid literal for int() with base 10")
        r = z3.IntVal(0)
        for x in d.ch:
            r = r * 10 + (_code(x) - 48)
        return SymInt(z3.simplify(-r if neg else r))

    def split(self, sep=None, maxsplit=-1):
        if maxsplit != -1:
            raise Unsupported("split of symbolic text")
        if sep is None:
            out, cur = [], []
            for i, x in enumerate(self.ch):
                if self._is(i, WHITE):
                    out, cur = out + ([SymStr(cur)] if cur else []), []
                else:
                    cur.append(x)
            return out + ([SymStr(cur)] if cur else [])
        b, out, cur, i = self.chars(sep), [], [], 0
        while i < len(self.ch):
            if i + len(b) <= len(self.ch) and bool(_mk(SymStr(self.ch[i:i + len(b)])._eq(b))):
                out.append(SymStr(cur))
                cur, i = [], i + len(b)
            else:
                cur.append(self.ch[i])
                i += 1
        return out + [SymStr(cur)]

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # formatted text: unknown characters become tokens, which text() turns back into characters
    def __str__(self):
        return "".join(c if _isinstance(c, str) else _token(c) for c in self.ch)

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if hasattr(str, n):
            raise Unsupported("str.%s of symbolic text" % n)
        raise AttributeError("'str' object has no attribute %r" % n)


def sym_str(name, length=1):
    """symbolic text of `length` printable characters"""
    c = _e.ctx()
    out = []
    for i in range(length):
        v = z3.Int(c.fresh("%s[%d]" % (name, i)))
        c.inputs["%s[%d]" % (name, i)] = v
        c.assume(z3.And(v >= LO, v <= HI))
        out.append(v)
    return SymStr(out)


def str_value(model, x):
    """text of a symbolic label under a model"""
    if not _isinstance(x, SymStr):
        return x
    return "".join(c if _isinstance(c, str) else chr(model.eval(c, model_completion=True).as_long()) for c in x.ch)


def plain(f):
    """__str__ and the like of the code under test have to return a str (with tokens, put back by text())"""
    def g(*a, **k):
        r = f(*a, **k)
        return str(r) if _isinstance(r, SymStr) else r
    return g
