#!/opt/veriftools/pyvenv/bin/python3
"""Symbolic execution of the repository's Python code with z3.

The current source of the modules under test is read on every run and executed by the Python interpreter itself on
symbolic values: integers, instants and strings made of symbolic parts. A branch on a symbolic condition asks z3
which sides are possible; every feasible combination of decisions is explored by replaying decision prefixes. An
assertion is a z3 query over all values on the path. A counterexample's model is replayed on the unchanged source
with ordinary Python values, and is reported only if it fails there, too.
"""
import argparse, ast, builtins, calendar, importlib.util, json, math, multiprocessing as mp, os, pathlib, random, re, shutil, sys
import tempfile, time as _time, traceback, types
import datetime as _dt
import z3

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")


class Stop(BaseException):
    """ends a path"""


class Infeasible(Stop):
    pass


class Unsupported(Stop):
    pass


class Limit(Stop):
    pass


class Ctx:
    def __init__(self, mode, prefix=(), inputs=None, maxdec=4000):
        self.mode, self.prefix, self.inputs, self.maxdec = mode, list(prefix), inputs, maxdec
        self.trail, self.pending, self.names, self.vars = [], [], {}, {}
        self.asserts, self.violations, self.obs, self.notes = {}, [], [], []
        self.queries = 0
        self.solver_s = 0.0
        self.steps = 0
        self.bounds = {}
        self.tmp = None
        if mode == "sym":
            self.solver = z3.SolverFor("QF_LIA") if False else z3.Solver()
            self.solver.set("timeout", 20000)

    def name(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        return f"{n}#{k}"

    def sat(self, *es):
        t = _time.time()
        self.queries += 1
        r = self.solver.check(*es)
        self.solver_s += _time.time() - t
        if r == z3.unknown:
            raise Unsupported("solver: unknown")
        return r == z3.sat

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trail)
        if i >= self.maxdec:
            raise Limit()
        self.steps += 1
        if i < len(self.prefix):
            b = self.prefix[i]
        elif self.sat(e):
            b = 1
            if self.sat(z3.Not(e)):
                self.pending.append(self.trail + [0])
        else:
            b = 0
        self.trail.append(b)
        self.solver.add(e if b else z3.Not(e))
        return bool(b)


C = None  # the context of the current path


# ---------------------------------------------------------------- symbolic values

class SB:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return C.decide(self.e)

    def __eq__(self, o):
        return SB(self.e == zb(o))

    def __hash__(self):
        return 0x5f5f

    def __and__(self, o):
        return SB(z3.And(self.e, zb(o)))

    def __or__(self, o):
        return SB(z3.Or(self.e, zb(o)))

    __rand__, __ror__ = __and__, __or__


def zb(x):
    if isinstance(x, SB):
        return x.e
    return z3.BoolVal(bool(x))


def mk(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SB(e)


def zi(x):
    if isinstance(x, SI):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return None


def si(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SI(e)


class SI:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _b(f):
        def g(self, o):
            z = zi(o)
            if z is None:
                if isinstance(o, float) and o == int(o):
                    z = z3.IntVal(int(o))
                else:
                    return NotImplemented
            return f(self.e, z)
        return g

    __add__ = _b(lambda a, b: si(a + b)); __radd__ = __add__
    __sub__ = _b(lambda a, b: si(a - b)); __rsub__ = _b(lambda a, b: si(b - a))
    __mul__ = _b(lambda a, b: si(a * b)); __rmul__ = __mul__
    __floordiv__ = _b(lambda a, b: _div(a, b)); __mod__ = _b(lambda a, b: _rem(a, b))
    __rfloordiv__ = _b(lambda a, b: _div(b, a)); __rmod__ = _b(lambda a, b: _rem(b, a))
    __truediv__ = _b(lambda a, b: SFrac(a, b))
    __divmod__ = _b(lambda a, b: (_div(a, b), _rem(a, b)))
    __lt__ = _b(lambda a, b: mk(a < b)); __le__ = _b(lambda a, b: mk(a <= b))
    __gt__ = _b(lambda a, b: mk(a > b)); __ge__ = _b(lambda a, b: mk(a >= b))

    def __eq__(self, o):
        z = zi(o)
        return NotImplemented if z is None else mk(self.e == z)

    def __ne__(self, o):
        z = zi(o)
        return NotImplemented if z is None else mk(self.e != z)

    def __hash__(self):
        return 0x5f5f

    def __neg__(self):
        return si(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return si(z3.If(self.e < 0, -self.e, self.e))

    def __round__(self, n=0):
        return self

    def __floor__(self):
        return self

    __trunc__ = __ceil__ = __floor__

    def __int__(self):
        raise Unsupported("int() of a symbolic integer by a builtin")

    def __bool__(self):
        return C.decide(self.e != 0)

    def __index__(self):
        return concretise(self.e)

    def __str__(self):
        return fmt_int(self, "")

    __repr__ = __str__

    def __format__(self, spec):
        return fmt_int(self, spec)


def _pos(b):
    """z3's division and remainder are Python's for positive divisors"""
    if not C.decide(b > 0):
        if C.decide(b == 0):
            raise ZeroDivisionError("division by zero")
        raise Unsupported("division by a negative symbolic number")


def _div(a, b):
    _pos(b)
    return si(a / b)


def _rem(a, b):
    _pos(b)
    return si(a % b)


class SFrac:
    """the quotient of integers, to be compared or rounded; a float is close enough to it, and on the same side of every integer"""

    def __init__(self, a, b):
        _pos(b)
        self.a, self.b = a, b

    def _c(f):
        def g(self, o):
            if isinstance(o, SFrac):
                return f(self.a * o.b, o.a * self.b)
            if isinstance(o, float):
                n, d = o.as_integer_ratio()
                return f(self.a * d, n * self.b)
            z = zi(o)
            return NotImplemented if z is None else f(self.a, z * self.b)
        return g
    __lt__ = _c(lambda a, b: mk(a < b)); __le__ = _c(lambda a, b: mk(a <= b))
    __gt__ = _c(lambda a, b: mk(a > b)); __ge__ = _c(lambda a, b: mk(a >= b))
    __eq__ = _c(lambda a, b: mk(a == b)); __ne__ = _c(lambda a, b: mk(a != b))

    def __hash__(self):
        return 0x5f5f

    def __mul__(self, o):
        z = zi(o)
        return NotImplemented if z is None else SFrac(self.a * z, self.b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        z = zi(o)
        return NotImplemented if z is None else SFrac(self.a, self.b * z)

    def __floor__(self):
        return si(self.a / self.b)

    def __trunc__(self):
        return si(z3.If(self.a >= 0, self.a / self.b, -((-self.a) / self.b)))

    def __ceil__(self):
        return si(-((-self.a) / self.b))

    def __bool__(self):
        return C.decide(self.a != 0)

    def __str__(self):
        return "a fraction"
    __repr__ = __str__

    def __format__(self, spec):
        return "a fraction"


def concretise(e, limit=64):
    """fork over the values of e"""
    for _ in range(limit):
        # replayed paths must ask in the same order: smallest value first
        lo = _minimum(e)
        if C.decide(e == lo):
            return lo
    raise Unsupported("a symbolic value with too many cases")


def _minimum(e):
    C.sat()
    v = C.solver.model().eval(e, model_completion=True).as_long()
    lo = None
    # binary descent
    step = 1
    while C.sat(e < v):
        v = C.solver.model().eval(e, model_completion=True).as_long()
    return v


class Piece:
    """a run of symbolic characters of fixed width: decimal digits, an ISO instant, or an opaque name"""
    __slots__ = ("kind", "width", "val", "aux", "base")


class Table:
    def __init__(self):
        self.next = 0xF0000
        self.units = {}

    def new(self, kind, width, val, aux=None):
        p = Piece()
        p.kind, p.width, p.val, p.aux, p.base = kind, width, val, aux, self.next
        if self.next + width > 0x10FFFD:
            raise Unsupported("too many symbolic strings")
        for i in range(width):
            self.units[self.next + i] = (p, i)
        self.next += width
        return SS("".join(chr(p.base + i) for i in range(width)))


T = Table()


def issym(s):
    return isinstance(s, str) and any(ord(c) >= 0xF0000 for c in s)


def W(x):
    """wrap the result of a str method"""
    if isinstance(x, str):
        x = str.__str__(x)
        return SS(x) if any(ord(c) >= 0xF0000 for c in x) else x
    if isinstance(x, list):
        return [W(y) for y in x]
    if isinstance(x, tuple):
        return tuple(W(y) for y in x)
    return x


def units(s):
    return [T.units[ord(c)] if ord(c) >= 0xF0000 else c for c in str.__iter__(s)] if isinstance(s, SS) else \
        [T.units[ord(c)] if ord(c) >= 0xF0000 else c for c in s]


def code(u):
    """the character code of a unit, or None for a character of an opaque piece"""
    if isinstance(u, str):
        return z3.IntVal(ord(u))
    p, i = u
    if p.kind == "dec":
        d = p.val
        k = 10 ** (p.width - 1 - i)
        return 48 + ((d / k) % 10 if p.width > 1 else d)
    return None


def chunks(a, b):
    """pairs to compare, from the front: (x, y) of z3 integers; both unit lists"""
    i = 0
    n = min(len(a), len(b))
    while i < n:
        x, y = a[i], b[i]
        if isinstance(x, str) and isinstance(y, str):
            yield (ord(x), ord(y)), 1
            i += 1
            continue
        if not isinstance(x, str) and not isinstance(y, str):
            p, q = x[0], y[0]
            if x == y:
                yield (0, 0), 1
                i += 1
                continue
            w = p.width
            if x[1] == 0 and y[1] == 0 and p.kind == q.kind and w == q.width and p.aux == q.aux and \
               a[i:i + w] == [(p, k) for k in range(w)] and b[i:i + w] == [(q, k) for k in range(w)]:
                yield (p.val, q.val), w
                i += w
                continue
        cx, cy = code(x), code(y)
        if cx is None or cy is None:
            ks = {u[0].kind for u in (x, y) if not isinstance(u, str)}
            if "iso" in ks:
                # an instant's text against something else: it begins with a digit
                o = y if not isinstance(x, str) and x[0].kind == "iso" else x
                if isinstance(o, str) and not o.isdigit() and o not in "-:T+":
                    c = 53
                    yield ((c, ord(o)) if o is y else (ord(o), c)), 1
                    return
                raise Unsupported("comparison of an instant's text with another text")
            yield ((1, 0) if cx is None else (0, 1)), 1  # opaque names differ from everything else, and come last
            return
        yield (cx, cy), 1
        i += 1


def s_eq(a, b):
    a, b = units(a), units(b)
    if len(a) != len(b):
        return False
    cs = []
    for (x, y), _ in chunks(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
            continue
        cs.append(x == y)
    return mk(z3.And(*cs)) if cs else True


def s_lt(a, b, orequal=False):
    a, b = units(a), units(b)
    ps = []
    done = 0
    cut = False
    for (x, y), w in chunks(a, b):
        ps.append((x, y))
        done += w
        if isinstance(x, int) and isinstance(y, int) and x != y:
            cut = True
            break
    if cut:
        e = None
    else:
        e = z3.BoolVal(len(a) < len(b) or (orequal and len(a) == len(b)))
    for x, y in reversed(ps):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                e = z3.BoolVal(x < y)
            continue
        e = z3.Or(x < y, z3.And(x == y, e))
    return mk(e)


class SS(str):
    """a string with symbolic characters (private-use code points)"""

    def __eq__(self, o):
        return s_eq(self, o) if isinstance(o, str) else False

    def __ne__(self, o):
        if not isinstance(o, str):
            return True
        r = s_eq(self, o)
        return mk(z3.Not(r.e)) if isinstance(r, SB) else not r

    def __lt__(self, o):
        return s_lt(self, o)

    def __le__(self, o):
        return s_lt(self, o, True)

    def __gt__(self, o):
        return s_lt(o, self)

    def __ge__(self, o):
        return s_lt(o, self, True)

    def __hash__(self):
        return 0x5f5f

    def __contains__(self, o):
        # a concrete needle without digits or instants' separators cannot match symbolic characters
        self._plain(o)
        if _blind(self, o):
            raise Unsupported("search for digits")
        return str.__contains__(str.__str__(self), o)

    def _plain(self, o):
        if o is None:
            return
        for x in o if isinstance(o, tuple) else (o,):
            if issym(x):
                raise Unsupported("search for a symbolic text")

    def __getitem__(self, k):
        return W(str.__getitem__(self, k))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SS(str.__str__(self) + str.__str__(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SS(str.__str__(o) + str.__str__(self))

    def __mod__(self, a):
        return do_mod(self, a)

    def __str__(self):
        return self

    def __repr__(self):
        return "<" + show(self) + ">"

    def __format__(self, spec):
        if spec and spec != "s":
            raise Unsupported("format of a symbolic text")
        return str.__str__(self)

    def encode(self, *a, **k):
        return SBytes(self)

    def format(self, *a, **k):
        return W(str.format(str.__str__(self), *[fstr(x) for x in a], **{n: fstr(v) for n, v in k.items()}))

    def join(self, xs):
        return W(str.join(str.__str__(self), [str.__str__(x) for x in xs]))

    def isdigit(self):
        return len(self) > 0 and all((u.isdigit() if isinstance(u, str) else u[0].kind == "dec") for u in units(self))

    isnumeric = isdecimal = isdigit

    def startswith(self, p, *a):
        if issym(p):
            return s_eq(self[:len(p)], p)
        return W(str.startswith(self, p, *a)) if not self._risky(p) else s_eq(self[:len(p)], p)

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        if p == "":
            return True
        return s_eq(self[-len(p):], p) if len(p) <= len(self) else False

    def _risky(self, p):
        return isinstance(p, str) and any(ch.isdigit() for ch in p)


def _blind(s, x):
    """x could occur among the symbolic characters of s"""
    ks = {u[0].kind for u in units(s) if not isinstance(u, str)}
    return x != "" and (("dec" in ks and x.isdigit()) or ("iso" in ks and all(c.isdigit() or c in "-:T " for c in x)) or
                        (bool(ks) and any(c.isdigit() for c in x)))


def _wrapm(n):
    f = getattr(str, n)

    def g(self, *a, **k):
        for x in a:
            self._plain(x) if isinstance(x, str) else None
        if n in ("zfill", "ljust", "rjust"):
            return W(f(self, *a, **k))
        for x in a[:1]:
            if not isinstance(x, str):
                continue
            if n.endswith("strip") and any(_blind(self, c) for c in x):
                s = self
                while n != "rstrip" and s and any(s[0] == c for c in x):
                    s = s[1:]
                while n != "lstrip" and s and any(s[-1] == c for c in x):
                    s = s[:-1]
                return s
            if not n.endswith("strip") and _blind(self, x):
                if n == "removeprefix":
                    return self[len(x):] if self.startswith(x) else self
                if n == "removesuffix":
                    return self[:-len(x)] if self.endswith(x) else self
                raise Unsupported(f"str.{n} of digits")
        return W(f(self, *a, **k))
    g.__name__ = n
    return g


for _n in ("split rsplit partition rpartition strip lstrip rstrip replace removeprefix removesuffix splitlines "
           "find rfind index rindex count zfill ljust rjust lower upper casefold title capitalize expandtabs").split():
    setattr(SS, _n, _wrapm(_n))
for _n in "swapcase translate center isalpha isalnum isspace isidentifier islower isupper format_map".split():
    setattr(SS, _n, (lambda m: (lambda self, *a, **k: (_ for _ in ()).throw(Unsupported("str." + m))))(_n))


class SBytes:
    def __init__(self, s):
        self.s = s

    def decode(self, *a, **k):
        return self.s

    def strip(self, *a):
        return SBytes(self.s.strip(*[x.decode() for x in a]))

    rstrip = strip

    def __eq__(self, o):
        return self.s == o.s if isinstance(o, SBytes) else False

    def __hash__(self):
        return 0x5f5f

    def __len__(self):
        return len(self.s)


def fstr(x):
    """what str.format or an f-string puts in for x"""
    if isinstance(x, SI):
        return fmt_int(x, "")
    return x


def fmt_int(x, spec):
    if not isinstance(x, SI):
        return format(x, spec)
    m = re.fullmatch(r"(0?)(\d*)d?", spec)
    if not m:
        raise Unsupported("format " + spec)
    if C.decide(x.e < 0):
        raise Unsupported("format of a negative symbolic integer")
    w = 1
    while not C.decide(x.e < 10 ** w):
        w += 1
        if w > 20:
            raise Unsupported("format of an unbounded symbolic integer")
    width = int(m.group(2) or 0)
    if w < width and m.group(1):
        return T.new("dec", width, x.e)
    s = T.new("dec", w, x.e)
    return W(" " * max(0, width - w) + str.__str__(s))


def do_fmt(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == "r" or conv == "a":
            v = repr(v)
        elif conv == "s":
            v = do_str(v)
        if isinstance(v, SI):
            v = fmt_int(v, spec)
        elif isinstance(v, SS):
            if spec not in ("", "s"):
                raise Unsupported("format of a symbolic text")
            v = str.__str__(v)
        elif isinstance(v, (dict, list, tuple)) and not spec:
            v = show(v)
        else:
            v = format(v, spec)
        out.append(str.__str__(v))
    return W("".join(out))


def do_str(x="", *a, **k):
    if isinstance(x, SBytes):
        return x.s if a or k else "bytes"
    if isinstance(x, (SS, SI)):
        return x.__str__()
    if isinstance(x, VPath):
        return x.text()
    if isinstance(x, SD):
        return x.isoformat(" ")
    return builtins.str(x, *a, **k)


def do_mod(s, a):
    t = a if isinstance(a, tuple) else (a,)
    if isinstance(a, dict):
        raise Unsupported("% with a mapping")
    out, i = [], 0
    for piece in re.split(r"(%%|%[-0-9.]*[sdrif])", str.__str__(s)):
        if piece == "%%":
            out.append("%")
        elif piece.startswith("%") and len(piece) > 1:
            v = t[i]
            i += 1
            if piece[-1] == "s":
                v = do_str(v)
            elif piece[-1] == "r":
                v = show(v)
            elif isinstance(v, SI):
                v = fmt_int(v, piece[1:-1] + "d")
            else:
                v = piece % v
            out.append(str.__str__(v))
        else:
            out.append(piece)
    return W("".join(out))


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, str)

    def __call__(cls, *a, **k):
        return do_str(*a, **k)


class VStr(metaclass=_StrMeta):
    join = staticmethod(lambda s, xs: W(str.join(s, [str.__str__(x) for x in xs])))


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, SI))

    def __call__(cls, x=0, *a):
        if isinstance(x, SS):
            v = z3.IntVal(0)
            us = units(x)
            if not us:
                raise ValueError("invalid literal for int()")
            i = 0
            while i < len(us):
                u = us[i]
                if not isinstance(u, str) and u[0].kind == "dec" and u[1] == 0 and us[i:i + u[0].width] == [(u[0], k) for k in range(u[0].width)]:
                    v = v * 10 ** u[0].width + u[0].val
                    i += u[0].width
                    continue
                c = code(u)
                if c is None or (isinstance(u, str) and not u.isdigit()):
                    raise ValueError("invalid literal for int()")
                v = v * 10 + (c - 48)
                i += 1
            return si(v)
        if isinstance(x, SI):
            return x
        if isinstance(x, SFrac):
            return x.__trunc__()
        return builtins.int(x, *a)


class VInt(metaclass=_IntMeta):
    pass


# ---------------------------------------------------------------- time

EPOCH = _dt.datetime(1970, 1, 1)
UTC = _dt.timezone.utc


def tdsec(t):
    u = t // _dt.timedelta(microseconds=1)
    if u % 1000000:
        raise Unsupported("a duration of fractions of a second against a symbolic one")
    return u // 1000000


class SDelta:
    def __init__(self, e):
        self.e = e

    def _z(self, o):
        if isinstance(o, SDelta):
            return o.e
        if isinstance(o, _dt.timedelta):
            return z3.IntVal(tdsec(o))
        return None

    def _c(f):
        def g(self, o):
            z = self._z(o)
            return NotImplemented if z is None else f(self.e, z)
        return g
    __lt__ = _c(lambda a, b: mk(a < b)); __le__ = _c(lambda a, b: mk(a <= b))
    __gt__ = _c(lambda a, b: mk(a > b)); __ge__ = _c(lambda a, b: mk(a >= b))
    __eq__ = _c(lambda a, b: mk(a == b)); __ne__ = _c(lambda a, b: mk(a != b))
    __add__ = _c(lambda a, b: SDelta(a + b)); __radd__ = __add__
    __sub__ = _c(lambda a, b: SDelta(a - b)); __rsub__ = _c(lambda a, b: SDelta(b - a))
    __hash__ = lambda self: 0x5f5f

    def total_seconds(self):
        return si(self.e)

    @property
    def days(self):
        return si(self.e / 86400)

    @property
    def seconds(self):
        return si(self.e % 86400)

    def __neg__(self):
        return SDelta(-self.e)

    def __abs__(self):
        return SDelta(z3.If(self.e < 0, -self.e, self.e))

    def __str__(self):
        return "a while"


class SD:
    """an instant of whole seconds, aware (UTC) or naive (taken as UTC)"""

    def __init__(self, e, tz):
        self.e, self.tz = e, tz

    @property
    def tzinfo(self):
        return self.tz

    def replace(self, **k):
        r = SD(self.e, self.tz)
        for n, v in k.items():
            if n == "tzinfo":
                r.tz = v
            elif n == "microsecond" and v == 0:
                pass
            else:
                raise Unsupported("datetime.replace " + n)
        return r

    def astimezone(self, tz=None):
        if tz not in (None, UTC):
            raise Unsupported("time zone")
        return SD(self.e, UTC)

    def isoformat(self, sep="T", timespec="auto"):
        if timespec not in ("auto", "seconds"):
            raise Unsupported("timespec " + timespec)
        s = T.new("iso", 19, self.e, sep)
        return s if self.tz is None else s + "+00:00"

    def strftime(self, f):
        f = f.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S")
        out = ""
        for piece in re.split("(%Y-%m-%d[T ]%H:%M:%S|%z|%Z|%%)", f):
            if piece[:2] == "%Y":
                out = T.new("iso", 19, self.e, piece[8]) if out == "" else out + T.new("iso", 19, self.e, piece[8])
            elif piece in ("%z", "%Z"):
                out = out + ("" if self.tz is None else "+0000" if piece == "%z" else "UTC")
            elif piece == "%%":
                out = out + "%"
            elif "%" in piece:
                raise Unsupported("strftime " + f)
            else:
                out = out + piece
        return out

    __format__ = lambda self, f: self.strftime(f) if f else do_str(self)

    def timetuple(self):
        return self

    utctimetuple = timetuple

    def timestamp(self):
        return si(self.e)

    def _o(self, o):
        if isinstance(o, SD):
            z, tz = o.e, o.tz
        elif isinstance(o, _dt.datetime):
            tz = o.tzinfo
            d = (o.astimezone(UTC).replace(tzinfo=None) if tz else o) - EPOCH
            z = z3.IntVal(tdsec(d))
        else:
            return None
        if (tz is None) != (self.tz is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return z

    def _c(f):
        def g(self, o):
            z = self._o(o)
            return NotImplemented if z is None else f(self.e, z)
        return g
    __lt__ = _c(lambda a, b: mk(a < b)); __le__ = _c(lambda a, b: mk(a <= b))
    __gt__ = _c(lambda a, b: mk(a > b)); __ge__ = _c(lambda a, b: mk(a >= b))

    def __eq__(self, o):
        try:
            z = self._o(o)
        except TypeError:
            return False
        return False if z is None else mk(self.e == z)

    def __hash__(self):
        return 0x5f5f

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return SD(self.e - tdsec(o), self.tz)
        if isinstance(o, SDelta):
            return SD(self.e - o.e, self.tz)
        z = self._o(o)
        return NotImplemented if z is None else SDelta(self.e - z)

    def __rsub__(self, o):
        z = self._o(o)
        return NotImplemented if z is None else SDelta(z - self.e)

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return SD(self.e + tdsec(o), self.tz)
        if isinstance(o, SDelta):
            return SD(self.e + o.e, self.tz)
        return NotImplemented
    __radd__ = __add__

    def __str__(self):
        return "an instant"

    def __format__(self, spec):
        return "an instant"


class Clock:
    def __init__(self):
        self.now = _dt.datetime(2026, 1, 1)
        self.slept = 0
        self.on = None

    def sleep(self, s):
        if isinstance(s, SI):
            raise Unsupported("sleep of a symbolic time")
        self.slept += s
        self.now += _dt.timedelta(seconds=s)
        if self.slept > 86400 * 30:
            raise Limit()
        if self.on:
            self.on()


CLOCK = Clock()


def _now(cls=None, tz=None):
    return CLOCK.now if tz is None else CLOCK.now.replace(tzinfo=UTC).astimezone(tz)


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_dt.datetime, SD))

    def __call__(cls, *a, **k):
        return _dt.datetime(*a, **k)

    def __getattr__(cls, n):
        if n in ("strptime",):
            def f(s, fm):
                if issym(s):
                    u = units(s)[0]
                    fm = fm.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S")
                    m = re.fullmatch("%Y-%m-%d([T ])%H:%M:%S(.*)", fm)
                    if not m or isinstance(u, str) or u[0].kind != "iso" or m[1] != u[0].aux:
                        raise Unsupported("datetime." + n)
                    d = VDateTime.fromisoformat(s)
                    if ("%z" in m[2]) != (len(s) > 19) and m[2] != s[19:]:
                        raise ValueError("time data does not match the format")
                    return d if "%z" in m[2] else SD(d.e, None)
                return getattr(_dt.datetime, n)(s, fm)
            return f
        return getattr(_dt.datetime, n)


class VDateTime(metaclass=_DTMeta):
    @staticmethod
    def now(tz=None):
        return _now(None, tz)

    @staticmethod
    def utcnow():
        return _now()

    @staticmethod
    def fromisoformat(s):
        if isinstance(s, SS):
            us = units(s)
            u = us[0]
            if not isinstance(u, str) and u[0].kind == "iso" and us[:19] == [(u[0], k) for k in range(19)]:
                end = "".join(x if isinstance(x, str) else "?" for x in us[19:])
                if end in ("", "Z", "+00:00", "+0000", "+00"):
                    return SD(u[0].val, UTC if end else None)
            raise ValueError("Invalid isoformat string")
        return _dt.datetime.fromisoformat(s)

    @staticmethod
    def fromtimestamp(t, tz=None):
        if isinstance(t, SI):
            return SD(t.e, tz)
        return _dt.datetime.fromtimestamp(t, tz)

    @staticmethod
    def strftime(t, f):
        return t.strftime(f)


class NDateTime(_dt.datetime):
    """for native runs: the ordinary class with the harness's clock"""
    @classmethod
    def now(cls, tz=None):
        return _now(cls, tz)

    @classmethod
    def utcnow(cls):
        return _now(cls)


class _VTimeMeta(type):
    def __getattr__(cls, n):
        return getattr(_time, n)


class VTime(metaclass=_VTimeMeta):
    @staticmethod
    def sleep(s):
        CLOCK.sleep(s)

    @staticmethod
    def time():
        return (CLOCK.now - EPOCH).total_seconds()

    monotonic = perf_counter = time


# ---------------------------------------------------------------- regular expressions

class VMatch:
    def __init__(self, m, s):
        self.m, self.s = m, s

    def group(self, *g):
        if len(g) > 1:
            return tuple(self.group(x) for x in g)
        a, b = self.m.span(*(g or (0,)))
        return None if a < 0 else self.s[a:b]

    __getitem__ = lambda self, g: self.group(g)

    def groupdict(self, default=None):
        return {n: self.group(n) if self.m.span(n)[0] >= 0 else default for n in self.m.re.groupindex}

    def groups(self, default=None):
        return tuple(default if self.m.span(i)[0] < 0 else self.group(i) for i in range(1, self.m.re.groups + 1))

    def span(self, *g):
        return self.m.span(*g)

    def start(self, *g):
        return self.m.start(*g)

    def end(self, *g):
        return self.m.end(*g)


def template(s):
    """an ordinary text of the same shape: all digits are alike to the patterns supported"""
    out = []
    for u in units(s):
        if isinstance(u, str):
            out.append(u)
        elif u[0].kind == "dec":
            out.append("5")
        elif u[0].kind == "iso":
            out.append("2005-05-05T05:05:05+05:05"[u[1]])
        else:
            out.append("q")
    return "".join(out)


class VPattern:
    def __init__(self, p, flags=0):
        self.p = re.compile(p, flags)
        self.pattern = p
        bare = re.sub(r"\{[\d,]*\}|\\\d|0-9", "", p)
        self.safe = not re.search(r"\d", bare)

    def _do(self, f, s, *a):
        if not issym(s):
            return getattr(self.p, f)(s, *a)
        if not self.safe:
            raise Unsupported("a pattern that tells digits apart")
        m = getattr(self.p, f)(template(s), *a)
        return m and VMatch(m, s)

    def match(self, s, *a):
        return self._do("match", s, *a)

    def fullmatch(self, s, *a):
        return self._do("fullmatch", s, *a)

    def search(self, s, *a):
        return self._do("search", s, *a)

    def finditer(self, s, *a):
        if not issym(s):
            return self.p.finditer(s, *a)
        if not self.safe:
            raise Unsupported("a pattern that tells digits apart")
        return iter([VMatch(m, s) for m in self.p.finditer(template(s), *a)])

    def findall(self, s, *a):
        if not issym(s):
            return self.p.findall(s, *a)
        n = self.p.groups
        return [m.group(n) if n < 2 else m.groups("") for m in self.finditer(s, *a)]

    def split(self, s, maxsplit=0):
        if not issym(s):
            return self.p.split(s, maxsplit)
        out, at = [], 0
        for i, m in enumerate(self.finditer(s)):
            if maxsplit and i == maxsplit:
                break
            out += [s[at:m.start()], *m.groups()]
            at = m.end()
        return out + [s[at:]]

    def sub(self, r, s, count=0):
        if not issym(s) and not issym(r):
            return self.p.sub(r, s, count)
        if isinstance(r, str) and "\\" in r:
            raise Unsupported("re.sub with a template")
        out, at = "", 0
        for i, m in enumerate(self.finditer(s) if issym(s) else self.p.finditer(s)):
            if count and i == count:
                break
            out = out + s[at:m.start()] + (r(m) if callable(r) else r)
            at = m.end()
        return W(out + s[at:])

    def __getattr__(self, n):
        f = getattr(self.p, n)

        def g(*a, **k):
            if any(issym(x) for x in a):
                raise Unsupported("re." + n)
            return f(*a, **k)
        return g if callable(f) else f


class VRe:
    compile = staticmethod(lambda p, flags=0: VPattern(p, flags))
    match = staticmethod(lambda p, s, flags=0: VPattern(p, flags).match(s))
    fullmatch = staticmethod(lambda p, s, flags=0: VPattern(p, flags).fullmatch(s))
    search = staticmethod(lambda p, s, flags=0: VPattern(p, flags).search(s))

    split = staticmethod(lambda p, s, maxsplit=0, flags=0: VPattern(p, flags).split(s, maxsplit))
    findall = staticmethod(lambda p, s, flags=0: VPattern(p, flags).findall(s))
    finditer = staticmethod(lambda p, s, flags=0: VPattern(p, flags).finditer(s))
    sub = staticmethod(lambda p, r, s, count=0, flags=0: VPattern(p, flags).sub(r, s, count))

    def __getattr__(self, n):
        return getattr(re, n)


# ---------------------------------------------------------------- files

class VFS:
    def __init__(self):
        self.files = []  # [text, content]

    def find(self, p):
        for f in self.files:
            if f[0] == p:  # forks
                return f
        return None


FS = VFS()


class VFile:
    def __init__(self, path, mode):
        self.path, self.mode, self.name = path, mode, path.text()
        f = FS.find(self.name)
        if "w" in mode:
            if f is None:
                f = [self.name, b""]
                FS.files.append(f)
            f[1] = b""
        elif f is None:
            raise FileNotFoundError(self.name)
        self.f = f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def read(self, *a):
        return self.f[1]

    def write(self, b):
        self.f[1] = b if not self.f[1] else self.f[1] + b


class VPath:
    def __init__(self, *parts):
        t = ""
        for p in parts:
            p = p.text() if isinstance(p, VPath) else p
            if not isinstance(p, str):
                raise TypeError("path")
            t = p if not t or p.startswith("/") is True else W(str.__str__(t).rstrip("/") + "/" + str.__str__(p))
        self.t = W(t)

    def text(self):
        return self.t

    def __truediv__(self, o):
        return VPath(self, o)

    def joinpath(self, *o):
        return VPath(self, *o)

    def __str__(self):
        return self.t

    __fspath__ = __str__

    @property
    def name(self):
        return self.t.rsplit("/", 1)[-1]

    @property
    def parent(self):
        return VPath(self.t.rsplit("/", 1)[0])

    def mkdir(self, *a, **k):
        pass

    def exists(self):
        return FS.find(self.t) is not None

    is_file = exists

    def open(self, mode="r", *a, **k):
        return VFile(self, mode)

    def read_bytes(self):
        return VFile(self, "rb").read()

    read_text = lambda self, *a, **k: VFile(self, "r").read()

    def write_bytes(self, b):
        VFile(self, "wb").write(b)

    write_text = lambda self, b, *a, **k: VFile(self, "w").write(b)

    def unlink(self, missing_ok=False):
        f = FS.find(self.t)
        if f is None:
            if missing_ok:
                return
            raise FileNotFoundError(self.t)
        FS.files.remove(f)

    def __eq__(self, o):
        return isinstance(o, VPath) and self.t == o.t

    def __hash__(self):
        return 0x5f5f


def v_open(p, mode="r", *a, **k):
    return VFile(p if isinstance(p, VPath) else VPath(p), mode)


# ---------------------------------------------------------------- loading the code under test

class Xform(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
                continue
            val = self.visit(v.value)
            conv = {-1: "", 115: "s", 114: "r", 97: "a"}[v.conversion]
            spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
            parts.append(ast.Tuple([val, ast.Constant(conv), spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name("vf__fmt", ast.Load()), parts, []), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name("vf__mod", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) \
           and f.attr in ("format", "join"):
            f.value = ast.copy_location(ast.Call(ast.Name("vf__ss", ast.Load()), [f.value], []), f.value)
        return n


_code = {}


def load(name, path, sym, inject=None, realpaths=False):
    """execute the source file as module `name`"""
    key = (path, sym)
    if key not in _code:
        src = open(path).read()
        tree = ast.parse(src, path)
        if sym:
            tree = ast.fix_missing_locations(Xform().visit(tree))
        _code[key] = compile(tree, path, "exec")
    m = types.ModuleType(name)
    m.__file__ = path
    d = m.__dict__
    if sym:
        d.update(vf__fmt=do_fmt, vf__mod=do_mod, vf__ss=SS, int=VInt, str=VStr, open=v_open)
    d.update(inject or {})
    swap = {"datetime": module("datetime", _dt, datetime=VDateTime if sym else NDateTime), "time": VTime}
    if sym:
        swap["re"] = VRe()
        swap["calendar"] = module("calendar", calendar, timegm=lambda t: t.timestamp() if isinstance(t, SD) else calendar.timegm(t))
        if realpaths:
            del d["open"]
        else:
            swap["pathlib"] = module("pathlib", pathlib, Path=VPath)

    def imp(n, g=None, l=None, fromlist=(), level=0):
        return swap[n] if n in swap and level == 0 else builtins.__import__(n, g, l, fromlist, level)
    d["__builtins__"] = dict(builtins.__dict__, __import__=imp)
    sys.modules[name] = m
    exec(_code[key], d)
    return m


def module(name, base, **k):
    m = types.ModuleType(name)
    m.__dict__.update(base.__dict__)
    m.__dict__.update(k)
    return m


# ---------------------------------------------------------------- what harnesses use

def symbolic():
    return C.mode == "sym"


def integer(name, lo, hi):
    n = C.name(name)
    C.bounds[name] = [lo, hi]
    if C.mode == "sym":
        v = z3.Int(n)
        C.vars[n] = v
        C.solver.add(v >= lo, v <= hi)
        return si(v) if lo == hi else SI(v)
    return C.inputs.get(n, lo)


def boolean(name):
    n = C.name(name)
    if C.mode == "sym":
        v = z3.Bool(n)
        C.vars[n] = v
        return SB(v)
    return bool(C.inputs.get(n, False))


def flag(name):
    """a boolean decided now"""
    return bool(boolean(name))


def choose(name, n):
    v = integer(name, 0, n - 1)
    if C.mode != "sym":
        return v
    if isinstance(v, int):
        return v
    for i in range(n - 1):
        if C.decide(v.e == i):
            return i
    return n - 1


def digits(v, width):
    """v as a text of exactly width digits (0 <= v < 10**width)"""
    if isinstance(v, SI):
        return T.new("dec", width, v.e)
    return f"{v:0{width}d}" if C.mode != "sym" or isinstance(v, int) else None


def decimal(name, hi):
    """a number below hi, and its text without leading zeros"""
    w = choose(name + " digits", len(str(hi - 1))) + 1
    v = integer(name, 10 ** (w - 1) if w > 1 else 0, min(10 ** w, hi) - 1)
    return v, digits(v, w)


def opaque(v, width=8):
    """an opaque name that stands for the number v"""
    if isinstance(v, SI):
        return T.new("name", width, v.e)
    if C.mode == "sym":
        return T.new("name", width, z3.IntVal(v))
    return "q" + f"{v:0{width - 1}d}"


def instant(secs):
    """a naive instant from seconds since 1970, as a text of the form YYYY-MM-DDTHH:MM:SS"""
    if C.mode == "sym":
        return SD(secs.e if isinstance(secs, SI) else z3.IntVal(secs), None).isoformat()
    return (EPOCH + _dt.timedelta(seconds=secs)).isoformat(timespec="seconds")


def aware(secs):
    if C.mode == "sym":
        return SD(secs.e if isinstance(secs, SI) else z3.IntVal(secs), UTC)
    return (EPOCH + _dt.timedelta(seconds=secs)).replace(tzinfo=UTC)


def And(*xs):
    if any(isinstance(x, SB) for x in xs):
        return mk(z3.And(*[zb(x) for x in xs]))
    return all(xs)


def Or(*xs):
    if any(isinstance(x, SB) for x in xs):
        return mk(z3.Or(*[zb(x) for x in xs]))
    return any(xs)


def Not(x):
    return mk(z3.Not(x.e)) if isinstance(x, SB) else not x


def Implies(a, b):
    return Or(Not(a), b)


def assume(c):
    if C.mode == "sym":
        if isinstance(c, SB):
            C.solver.add(c.e)
            if not C.prefix or len(C.trail) >= len(C.prefix):
                if not C.sat():
                    raise Infeasible()
        elif not c:
            raise Infeasible()
    elif not c:
        raise Infeasible()


def bound(**k):
    C.bounds.update(k)


def show(x):
    if isinstance(x, SS):
        return "".join(u if isinstance(u, str) else (f"<{u[0].kind} {u[0].val}>" if u[1] == 0 else "") for u in units(x))
    if isinstance(x, dict):
        return "{" + ", ".join(f"{show(k)}: {show(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(show(v) for v in x) + "]"
    if isinstance(x, (SI, SB)):
        return str.__str__(str(x.e)) if isinstance(x, SB) else f"<{x.e}>"
    try:
        return builtins.str(x)
    except Exception:
        return "?"


def model_inputs(m):
    r = {}
    for n, v in C.vars.items():
        x = m.eval(v, model_completion=True)
        r[n] = x.as_long() if z3.is_int_value(x) else z3.is_true(x)
    return r


def check(c, label):
    a = C.asserts.setdefault(label, {"Reached": 0, "Trivial": 0, "Proved": 0, "Unknown": 0, "Violated": 0})
    a["Reached"] += 1
    if C.mode != "sym":
        if not c:
            a["Violated"] += 1
            C.violations.append((label, None))
        return
    old = len(C.trail) < len(C.prefix)
    if not isinstance(c, SB):
        if c:
            a["Trivial"] += 1
            return
        if not C.sat():
            raise Infeasible()
        a["Violated"] += 1
        C.violations.append((label, model_inputs(C.solver.model())))
        raise Stop()
    if C.sat(z3.Not(c.e)):
        a["Violated"] += 1
        C.violations.append((label, model_inputs(C.solver.model())))
        C.solver.add(c.e)
        if not C.sat():
            raise Stop()
        return
    a["Proved"] += 1
    C.solver.add(c.e)


def observe(k, v):
    C.obs.append((k, v))


def value(x, m):
    if isinstance(x, SS):
        out = []
        us = units(x)
        for u in us:
            if isinstance(u, str):
                out.append(u)
            else:
                p = u[0]
                v = m.eval(p.val, model_completion=True).as_long()
                if p.kind == "dec":
                    t = f"{v:0{p.width}d}"
                elif p.kind == "iso":
                    t = (EPOCH + _dt.timedelta(seconds=v)).isoformat(p.aux, "seconds")
                else:
                    t = "q" + f"{v:0{p.width - 1}d}"
                out.append(t[u[1]])
        return "".join(out)
    if isinstance(x, SI):
        return m.eval(x.e, model_completion=True).as_long()
    if isinstance(x, SB):
        return z3.is_true(m.eval(x.e, model_completion=True))
    if isinstance(x, dict):
        return {value(k, m): value(v, m) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [value(v, m) for v in x]
    return x


def run(f, *a, **k):
    """-> ("ok", result) or ("raised", exception)"""
    try:
        return "ok", f(*a, **k)
    except SystemExit as e:
        return ("ok", None) if e.code in (None, 0) else ("exit", e.code)
    except Exception as e:
        return "raised", e


def path_of(p):
    """the directory a program may use for its files"""
    if C.mode == "sym":
        return VPath("/tmp/vfpy/" + p)
    if C.tmp is None:
        C.tmp = tempfile.mkdtemp(prefix="vfpy")
    from pathlib import Path
    return Path(C.tmp) / p


def realdir():
    """a scratch directory of the real file system, removed when the path ends"""
    if C.tmp is None:
        C.tmp = tempfile.mkdtemp(prefix="vfpy")
    from pathlib import Path
    return Path(C.tmp)


def clock():
    return CLOCK


def tier():
    return os.environ.get("VF_TIER_NOW", "quick")


# ---------------------------------------------------------------- exploration

def reset(ctx):
    global C, T, FS, CLOCK
    C, T, FS = ctx, Table(), VFS()
    CLOCK = Clock()


def one(H, entry, prefix, inputs=None):
    ctx = Ctx("sym" if inputs is None else "native", prefix, inputs)
    reset(ctx)
    end = "completed"
    funcs = set()
    if inputs is not None:
        def prof(fr, ev, arg):
            if ev == "call" and fr.f_code.co_filename.startswith(REPO):
                funcs.add(os.path.relpath(fr.f_code.co_filename, REPO) + ":" + fr.f_code.co_qualname)
        sys.setprofile(prof)
    try:
        getattr(H, entry)()
    except Infeasible:
        end = "pruned"
    except Unsupported as e:
        end = "unsupported: " + str.__str__(builtins.str(e.args[0] if e.args else ""))
    except Limit:
        end = "limit"
    except Stop:
        end = "ended"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        end = "error: " + type(e).__name__ + " " + show(e.args) + " at " + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
    finally:
        sys.setprofile(None)
        if ctx.tmp:
            shutil.rmtree(ctx.tmp, ignore_errors=True)
    return ctx, end, funcs


def plain(x):
    return json.loads(json.dumps(x, default=lambda o: show(o)))


def validate(H, entry, ctx):
    """replay a model of the finished path natively; -> (ok, text, functions)"""
    m = None
    if ctx.solver.check() != z3.sat:
        return None, "", set()
    m = ctx.solver.model()
    global C
    C = ctx
    inputs = model_inputs(m)
    want = plain([(k, value(v, m)) for k, v in ctx.obs])
    table = T
    n, end, funcs = one(H, entry, (), inputs)
    if end not in ("completed", "ended"):
        return False, f"native run: {end}, inputs {inputs}", funcs
    got = plain(n.obs)
    if got != want:
        return False, f"symbolic {want} native {got} inputs {inputs}", funcs
    if n.violations:
        return False, f"native run violates {n.violations[0][0]}, inputs {inputs}", funcs
    return True, json.dumps({"inputs": inputs, "observed": got})[:600], funcs


def work(task):
    hpath, entry, prefixes, n, deadline, wantval, seed = task
    H = harness(hpath)
    rng = random.Random(seed + len(prefixes[0]) * 7 + sum(prefixes[0]))
    stack = list(prefixes)
    r = {"paths": 0, "ends": {}, "asserts": {}, "viol": [], "queries": 0, "solver_s": 0.0, "steps": 0, "bad": [],
         "validated": 0, "samples": [], "funcs": set(), "bounds": {}}
    vals = 0
    while stack and r["paths"] < n and _time.time() < deadline:
        pre = stack.pop()
        ctx, end, _ = one(H, entry, pre)
        stack += ctx.pending
        r["paths"] += 1
        e = end.split(":")[0]
        r["ends"][e] = r["ends"].get(e, 0) + 1
        if e in ("unsupported", "error", "limit"):
            r["bad"].append(end)
        for l, a in ctx.asserts.items():
            t = r["asserts"].setdefault(l, {})
            for k, v in a.items():
                t[k] = t.get(k, 0) + v
        for l, inp in ctx.violations:
            n_, nend, fs = one(H, entry, (), inp)
            conf = any(x[0] == l for x in n_.violations)
            r["viol"].append((l, inp, conf, nend, [x[0] for x in n_.violations]))
            r["funcs"] |= fs
        r["queries"] += ctx.queries
        r["solver_s"] += ctx.solver_s
        r["steps"] += ctx.steps
        r["bounds"].update(ctx.bounds)
        if wantval and end == "completed" and vals < wantval and not ctx.violations and (vals == 0 or rng.random() < 0.2):
            keep = (C, T)
            # the context and table of the path are needed to evaluate its values
            globals()["C"] = ctx
            ok, text, fs = validate(H, entry, ctx)
            r["funcs"] |= fs
            if ok is not None:
                vals += 1
                if ok:
                    r["validated"] += 1
                    r["samples"].append(text)
                else:
                    r["bad"].append("trace mismatch: " + text)
        if len(r["viol"]) >= 20 or len(r["bad"]) >= 20:
            break
    r["left"] = stack
    return r


_h = {}


def harness(path):
    if path not in _h:
        sys.modules["vfpy"] = sys.modules[__name__] if __name__ != "vfpy" else sys.modules["vfpy"]
        sys.path.insert(0, os.path.dirname(path))
        sys.path.insert(0, HERE + "/pyengine")
        spec = importlib.util.spec_from_file_location("vfharness_" + os.path.basename(path)[:-3], path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _h[path] = m
    return _h[path]


def known(prop, label, entry):
    for l in open(HERE + "/known_findings.txt"):
        m = re.match(r"known: property=(\S+) label=(.*?)(?: entry=(\S+))? — ", l)
        if m and m.group(1) == prop and m.group(2) == label and m.group(3) in (None, entry):
            return l.strip()
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-prop", required=True)
    ap.add_argument("-tier", default="quick")
    ap.add_argument("-entry", default="")
    ap.add_argument("-workers", type=int, default=8)
    ap.add_argument("-budget", type=float, default=0)
    ap.add_argument("-replay", default="")
    ap.add_argument("-debug", action="store_true")
    a = ap.parse_args()
    os.environ["VF_TIER_NOW"] = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = _time.time()
    hd = f"{HERE}/harness/{a.prop}"
    if a.replay:
        j = json.load(open(a.replay))
        H = harness(hd + "/" + j["file"])
        n, end, _ = one(H, j["entry"], (), j["inputs"])
        print("run", end, "violated:", [x[0] for x in n.violations], "observed:", plain(n.obs))
        sys.exit(1 if n.violations else 0)
    budget = a.budget or (420 if a.tier == "quick" else 1800)
    deadline = t0 + budget
    entries = []
    for f in sorted(os.listdir(hd)):
        if f.endswith(".py"):
            for e in re.findall(r"^def (VF_%s_\w+)\(" % a.prop, open(f"{hd}/{f}").read(), re.M):
                if not a.entry or a.entry == e:
                    entries.append((f"{hd}/{f}", e))
    ev, viol, bad, funcs, samples, exhaustive = [], [], [], set(), [], True
    tot = {"paths": 0, "steps": 0, "queries": 0, "solver_s": 0.0, "validated": 0}
    with mp.get_context("fork").Pool(a.workers) as pool:
        for hp, e in entries:
            te = _time.time()
            queue, running, acc = [[]], [], {"paths": 0, "ends": {}, "asserts": {}, "bounds": {}, "validated": 0}
            nbad = 0
            vleft = 24
            while (queue or running) and _time.time() < deadline + 30:
                while queue and len(running) < a.workers * 2 and _time.time() < deadline:
                    k = max(1, len(queue) // (a.workers * 2))
                    chunk, queue = queue[:k], queue[k:]
                    wv = 2 if vleft > 0 else 0
                    running.append(pool.apply_async(work, ((hp, e, chunk, 4 if acc["paths"] < 40 else 150, deadline, wv, seed),)))
                done = [r for r in running if r.ready()]
                if not done:
                    if not running:
                        break
                    _time.sleep(0.005)
                    continue
                for r in done:
                    running.remove(r)
                    x = r.get()
                    acc["paths"] += x["paths"]
                    for k, v in x["ends"].items():
                        acc["ends"][k] = acc["ends"].get(k, 0) + v
                    for l, c in x["asserts"].items():
                        t = acc["asserts"].setdefault(l, {})
                        for k, v in c.items():
                            t[k] = t.get(k, 0) + v
                    for k in ("steps", "queries", "solver_s", "validated"):
                        tot[k] += x[k]
                    acc["validated"] += x["validated"]
                    vleft -= x["validated"]
                    acc["bounds"].update(x["bounds"])
                    funcs |= x["funcs"]
                    samples += x["samples"][:1]
                    viol += [(e, hp) + v for v in x["viol"]]
                    bad += [f"{e}: {b}" for b in x["bad"]]
                    nbad += len(x["bad"]) + len(x["viol"])
                    queue += x["left"]
                if nbad >= 20:
                    queue = []
            left = len(queue) + len(running)
            tot["paths"] += acc["paths"]
            if left:
                exhaustive = False
            ev.append({"entry": e, "paths": acc["paths"], "ends": acc["ends"], "all_paths_within_bounds_explored": not left and not nbad,
                       "assertions": acc["asserts"], "bounds": acc["bounds"], "traces_validated": acc["validated"],
                       "wall_s": round(_time.time() - te, 2)})
            print(f"{e}: paths {acc['paths']} {acc['ends']} wall {_time.time() - te:.1f}s validated {acc['validated']}" + (f" LEFT {left}" if left else ""))
            if viol and not a.entry:
                break
    rc, out = 0, []
    os.makedirs(HERE + "/replays", exist_ok=True)
    seen = set()
    for e, hp, l, inp, conf, nend, nv in viol:
        k = known(a.prop, l, e)
        if k:
            if k not in seen:
                print(f"KNOWN-FINDING: property={a.prop} {k}")
                seen.add(k)
            continue
        if not conf:
            bad.append(f"{e}: unconfirmed violation of '{l}': native run {nend} {nv} on {inp}")
            continue
        if (e, l) in seen:
            continue
        seen.add((e, l))
        rp = f"{HERE}/replays/{a.prop}-{e}-{len(seen)}.json"
        json.dump({"property": a.prop, "entry": e, "file": os.path.basename(hp), "label": l, "inputs": inp}, open(rp, "w"), indent=1)
        print(f"violated: {e}: {l}: {inp}")
        print(f"VIOLATION property={a.prop} replay={rp}")
        out.append({"entry": e, "label": l, "replay": rp})
        rc = 1
    if bad and (a.debug or rc == 0):
        for b in sorted(set(bad))[:4]:
            print("PROBLEM", b[:900])
    if rc == 0 and bad:
        rc = 2
    if not exhaustive:
        print("note: the budget ended before all paths were explored")
    cov = {
        "entries": ev, "exhaustive": exhaustive, "functions_encoded": sorted(funcs), "states": tot["paths"], "transitions": tot["steps"],
        "traces_validated_against_impl": tot["validated"], "samples": samples[:6],
        "solver": {"name": "z3 " + z3.get_version_string(), "queries": tot["queries"], "solver_s": round(tot["solver_s"], 2)},
        "problems": sorted(set(bad))[:5],
    }
    if not a.entry:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump({"property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
                   "assumptions": ["bounds and stubs are those listed per entry and in DESIGN.md; nothing is claimed outside them",
                                   "the Python interpreter executes the current source on symbolic integers, instants and texts; z3 decides every branch and assertion",
                                   "Remote Settings (kinto_http, requests), Google Cloud Storage, X.509 parsing and the clock are models in the harness"],
                   "coverage": dict(cov, violation_list=out), "violations": len(out), "wall_s": round(_time.time() - t0, 2)},
                  open(f"{HERE}/evidence/{a.prop}.json", "w"), indent=1)
    sys.exit(rc)


if __name__ == "__main__":
    sys.modules["vfpy"] = sys.modules["__main__"]
    main()
