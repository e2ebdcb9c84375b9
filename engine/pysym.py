"""A symbolic executor for Python code: runs the real functions on proxies whose
values are Z3 terms.  A truth value the path condition leaves open forks the path
(decisions are replayed, depth first); assertions are decided by Z3 for every value."""
import sys, time, random, struct, builtins
import z3

W = 128  # width of the terms standing for Python ints (inputs have at most 64 bits)
F64, F32, RNE = z3.Float64(), z3.Float32(), z3.RNE()


class Stop(BaseException):
    """ends the path: its condition is infeasible or an assumption fails"""
    def __init__(self):
        if EX: EX.dead = True  # even if the code under test swallows it


class Unsupported(BaseException):
    """the path leaves what is modelled: the exploration is incomplete"""
    def __init__(self, why=""):
        super().__init__(why)
        if EX: EX.dead = True; EX.missing(why or "unsupported")


class Explorer:
    def __init__(self, seed=1, solver_ms=10000):
        self.solver_ms, self.rnd = solver_ms, random.Random(seed)
        self.stats = dict(paths=0, forks=0, states=0, symbolic_branches=0, checks=0, checks_symbolic=0, instructions=0, comparisons_settled_by_rewriting=0)
        self.sol = dict(queries=0, z3_calls=0, sat=0, unsat=0, unknown=0, seconds=0.0)
        self.incomplete, self.violations, self.samples, self.covers, self.functions = {}, [], [], {}, set()

    # --- the path being run
    def start(self, prefix):
        self.s = z3.Solver(); self.s.set("timeout", self.solver_ms)
        self.prefix, self.taken, self.inputs, self.names = prefix, [], [], {}
        self.todo, self.dead = [], False
        self.tokens = []

    def ask(self, *extra):
        self.sol["queries"] += 1; self.sol["z3_calls"] += 1
        t = time.time(); r = self.s.check(*extra); self.sol["seconds"] += time.time() - t
        self.sol[str(r)] += 1
        if r == z3.unknown:
            self.missing("solver: unknown")
        return r

    def missing(self, why):
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    def var(self, name, width):
        k = self.names.get(name, 0); self.names[name] = k + 1
        n = name if not k else "%s~%d" % (name, k)
        v = z3.BitVec(n, width); self.inputs.append((n, v))
        return v

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            self.stats["comparisons_settled_by_rewriting"] += 1
            return z3.is_true(c)
        self.stats["symbolic_branches"] += 1
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            t, f = self.ask(c) == z3.sat, self.ask(z3.Not(c)) == z3.sat
            if not t and not f:
                raise Stop()
            d = t
            if t and f:
                self.stats["forks"] += 1; self.todo.append(self.taken + [False])
        self.taken.append(d); self.s.add(c if d else z3.Not(c))
        return d

    def choice(self, name, n):
        v = self.var(name, 8); self.s.add(z3.ULT(v, n))
        for i in range(n - 1):
            if self.branch(v == i):
                return i
        return n - 1

    def assume(self, c):
        c = term_bool(c)
        self.s.add(c)
        if self.ask() != z3.sat:
            raise Stop()

    def values(self):
        m = self.s.model()
        return [[n, m.eval(v, model_completion=True).as_long()] for n, v in self.inputs]

    def check(self, c, msg, kind="assertion", where=""):
        self.stats["checks"] += 1
        if not isinstance(c, (bool, SymBool)):
            c = bool(c)
        if c is True:
            return
        if c is not False:
            self.stats["checks_symbolic"] += 1
            c = z3.simplify(c.t)
            if z3.is_true(c):
                self.stats["comparisons_settled_by_rewriting"] += 1
                return
            if self.ask(z3.Not(c)) == z3.sat:
                self.report(kind, msg, where)
            self.s.add(c)
            if self.ask() != z3.sat:
                raise Stop()
            return
        if self.ask() == z3.sat:
            self.report(kind, msg, where)
        raise Stop()

    def report(self, kind, msg, where):
        if sum(v["msg"] == msg for v in self.violations) < 4:
            self.violations.append({"kind": kind, "msg": msg, "where": where, "trace": [], "inputs": self.values(), "free": []})

    def explore(self, body, end, nsamples=4, maxlines=400000):
        work = [[]]
        while work:
            if time.time() > end:
                self.missing("time limit"); break
            self.start(work.pop())
            self.lines = 0

            def trace(frame, event, arg):
                if frame.f_code.co_filename != TARGET:
                    return None
                if event == "call":
                    self.functions.add(frame.f_code.co_name)
                self.lines += event == "line"
                if self.lines > maxlines:
                    raise Unsupported("line limit")
                return trace
            old = sys.gettrace(); sys.settrace(trace)
            ended = False
            try:
                body(self); ended = not self.dead
            except Stop:
                pass
            except Unsupported:
                pass
            except Exception as e:
                if not self.dead and self.ask() == z3.sat:
                    self.report("exception", "raises %s: %s" % (type(e).__name__, e), "check")
            finally:
                sys.settrace(old)
            self.stats["paths"] += 1; self.stats["instructions"] += self.lines; self.stats["states"] += len(self.taken) + 1
            work += self.todo
            if ended:
                self.covers["end"] = self.covers.get("end", 0) + 1
                k = self.covers["end"]
                slot = len(self.samples) if len(self.samples) < nsamples else self.rnd.randrange(k)
                if slot < nsamples and self.ask() == z3.sat:
                    self.samples[slot:slot + 1] = [self.values()]

    def token(self, kind, t):
        """the text of a number: the same for equal numbers, whichever of the earlier ones they equal is decided here"""
        t = z3.simplify(t)
        for i, (k, u) in enumerate(self.tokens):
            wide = lambda k, x: z3.fpFPToFP(RNE, x, F64) if k == "float32" else x
            if k == kind and (u.eq(t) or self.branch(same(u, t))) or k != kind and "int" not in (k, kind) and self.branch(same(wide(k, u), wide(kind, t))):
                return "\ue000%d\ue000" % i
        self.tokens.append((kind, t))
        return "\ue000%d\ue000" % (len(self.tokens) - 1)

    # --- a concrete value for a term (one path per value, a few of them)
    def pin(self, t, liked=()):
        t = z3.simplify(t)
        if z3.is_bv_value(t) or (z3.is_fp(t) and z3.is_fprm(t) is False and isinstance(t, z3.FPNumRef)):
            return t
        for x in liked:
            if self.branch(same(t, x)):
                return x
        for i in range(4):
            k = len(self.taken)
            if k < len(self.prefix):  # a replayed path meets the same values
                x = self.prefix[k]
            else:
                if self.ask() != z3.sat:
                    raise Stop()
                x = self.s.model().eval(t, model_completion=True)
            self.taken.append(x)
            if self.branch(same(t, x)):
                return x
        raise Unsupported("more values than a concretisation tries")


EX = None
TARGET = "<target>"


def same(t, x):
    return t == x  # for floats z3's = of the two terms: any NaN equals any NaN


def begin(ex):
    global EX
    EX = ex


def term_bool(c):
    return c.t if isinstance(c, SymBool) else z3.BoolVal(bool(c))


def ival(t):
    t = z3.simplify(t)
    return t.as_signed_long() if z3.is_bv_value(t) else None


class SymBool:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __bool__(self): return EX.branch(self.t)
    def __and__(self, o): return SymBool(z3.And(self.t, term_bool(o))) if isinstance(o, (bool, SymBool)) else NotImplemented
    def __or__(self, o): return SymBool(z3.Or(self.t, term_bool(o))) if isinstance(o, (bool, SymBool)) else NotImplemented
    def __xor__(self, o): return SymBool(z3.Xor(self.t, term_bool(o))) if isinstance(o, (bool, SymBool)) else NotImplemented
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __eq__(self, o): return SymBool(self.t == term_bool(o)) if isinstance(o, (bool, SymBool)) else NotImplemented
    def __ne__(self, o): return SymBool(self.t != term_bool(o)) if isinstance(o, (bool, SymBool)) else NotImplemented
    def __hash__(self): return hash(bool(self))
    def __index__(self): return int(bool(self))
    def __str__(self): return str(bool(self))
    __repr__ = __str__


def mkint(t):
    v = ival(t)
    return SymInt(t) if v is None else v


class SymInt:
    __class__ = property(lambda self: int)
    def __init__(self, t): self.t = t if t.size() == W else z3.SignExt(W - t.size(), t)
    @staticmethod
    def of(o):
        if type(o) is SymInt: return o.t
        if type(o) in (int, bool): return z3.BitVecVal(o, W)
        return None
    def _cmp(name, fn):
        def f(self, o):
            x = SymInt.of(o)
            if x is not None: return wrapb(fn(self.t, x))
            if type(o) in (float, SymFloat): return getattr(SymFloat.fromint(self), name)(o)
            return NotImplemented
        return f
    def _ar(fn, rev=False):
        def f(self, o):
            x = SymInt.of(o)
            if x is not None: return mkint(fn(x, self.t) if rev else fn(self.t, x))
            if type(o) in (float, SymFloat): raise Unsupported("int with float arithmetic")
            return NotImplemented
        return f
    __eq__, __ne__ = _cmp("__eq__", lambda a, b: a == b), _cmp("__ne__", lambda a, b: a != b)
    __lt__, __le__ = _cmp("__lt__", lambda a, b: a < b), _cmp("__le__", lambda a, b: a <= b)
    __gt__, __ge__ = _cmp("__gt__", lambda a, b: a > b), _cmp("__ge__", lambda a, b: a >= b)
    __add__ = __radd__ = _ar(lambda a, b: a + b)
    __mul__ = __rmul__ = _ar(lambda a, b: a * b)
    __and__ = __rand__ = _ar(lambda a, b: a & b)
    __or__ = __ror__ = _ar(lambda a, b: a | b)
    __xor__ = __rxor__ = _ar(lambda a, b: a ^ b)
    __sub__, __rsub__ = _ar(lambda a, b: a - b), _ar(lambda a, b: a - b, True)
    __lshift__, __rshift__ = _ar(lambda a, b: a << b), _ar(lambda a, b: a >> b)
    def __floordiv__(self, o): raise Unsupported("integer division")
    __rfloordiv__ = __truediv__ = __rtruediv__ = __divmod__ = __pow__ = __floordiv__
    def __mod__(self, o):
        x = SymInt.of(o)
        if x is None or ival(x) is None or ival(x) <= 0: raise Unsupported("modulo")
        return mkint(z3.If(self.t % x < 0, self.t % x + x, self.t % x))
    def __neg__(self): return mkint(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.t < 0, -self.t, self.t))
    def __invert__(self): return mkint(~self.t)
    def __bool__(self): return EX.branch(self.t != 0)
    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def conc(self): return EX.pin(self.t, [z3.BitVecVal(k, W) for k in (0, 1, -1, 7, 2 ** 31 - 1, -2 ** 31)]).as_signed_long()
    def __index__(self): return self.conc()
    __int__ = __index__
    def __float__(self): return float(self.conc())
    def __hash__(self): return hash(self.conc())
    def __str__(self): return EX.token("int", self.t)
    __repr__ = __str__
    def __format__(self, f): return format(self.conc(), f) if f else str(self)
    def bit_length(self): return self.conc().bit_length()
    del _cmp, _ar


def wrapb(t):
    t = z3.simplify(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else SymBool(t)


def fpval(x):
    return z3.fpBVToFP(z3.BitVecVal(struct.unpack("<Q", struct.pack("<d", x))[0], 64), F64)


LIKED = [0.1, 1.0, -2.5, 16777217.0 * 2 ** 7, 1e-30, 123456.789, float("inf"), float("nan"), -0.0]
f32 = lambda x: struct.unpack("<f", struct.pack("<f", x))[0]


class SymFloat:
    __class__ = property(lambda self: float)
    def __init__(self, t): self.t = t
    @staticmethod
    def bits32(b): return SymFloat(z3.fpFPToFP(RNE, z3.fpBVToFP(b, F32), F64))
    @staticmethod
    def fromint(i): return SymFloat(z3.fpSignedToFP(RNE, SymInt.of(i), F64))
    @staticmethod
    def of(o):
        if type(o) is SymFloat: return o.t
        if type(o) is float: return fpval(o)
        if type(o) in (int, bool):
            return fpval(float(o))
        if type(o) is SymInt: return SymFloat.fromint(o).t
        return None
    def _cmp(fn):
        def f(self, o):
            x = SymFloat.of(o)
            return NotImplemented if x is None else wrapb(fn(self.t, x))
        return f
    def _ar(fn, rev=False):
        def f(self, o):
            x = SymFloat.of(o)
            return NotImplemented if x is None else SymFloat(fn(x, self.t) if rev else fn(self.t, x))
        return f
    __eq__, __ne__ = _cmp(z3.fpEQ), _cmp(lambda a, b: z3.Not(z3.fpEQ(a, b)))
    __lt__, __le__, __gt__, __ge__ = _cmp(z3.fpLT), _cmp(z3.fpLEQ), _cmp(z3.fpGT), _cmp(z3.fpGEQ)
    __add__ = __radd__ = _ar(lambda a, b: z3.fpAdd(RNE, a, b))
    __mul__ = __rmul__ = _ar(lambda a, b: z3.fpMul(RNE, a, b))
    __sub__, __rsub__ = _ar(lambda a, b: z3.fpSub(RNE, a, b)), _ar(lambda a, b: z3.fpSub(RNE, a, b), True)
    def __truediv__(self, o):
        x = SymFloat.of(o)
        if x is None: return NotImplemented
        if EX.branch(z3.fpIsZero(x)): raise ZeroDivisionError("float division by zero")
        return SymFloat(z3.fpDiv(RNE, self.t, x))
    def __rtruediv__(self, o): return SymFloat(SymFloat.of(o)) / self
    def __neg__(self): return SymFloat(z3.fpNeg(self.t))
    def __pos__(self): return self
    def __abs__(self): return SymFloat(z3.fpAbs(self.t))
    def __bool__(self): return EX.branch(z3.Not(z3.fpIsZero(self.t)))
    def conc(self):
        b = z3.simplify(z3.fpToIEEEBV(EX.pin(self.t, [z3.simplify(fpval(f32(x))) for x in LIKED])))
        return struct.unpack("<d", struct.pack("<Q", b.as_long()))[0] if z3.is_bv_value(b) else float("nan")
    def __float__(self): return self.conc()
    def __int__(self): return int(self.conc())
    def __trunc__(self): return int(self.conc())
    def __round__(self, n=None): return round(self.conc(), n)
    def __hash__(self): return hash(self.conc())
    def __str__(self): return EX.token("float32", self.narrow) if hasattr(self, "narrow") else EX.token("float", self.t)
    __repr__ = __str__
    def __format__(self, f): return format(self.conc(), f) if f else str(self)
    def is_integer(self): return self.conc().is_integer()
    def as_integer_ratio(self): return self.conc().as_integer_ratio()
    def hex(self): return self.conc().hex()
    del _cmp, _ar


class SymStr(str):
    """one of the texts of a palette (sorted); the term is its index"""
    def __new__(cls, t, pal):
        s = str.__new__(cls, "\ue000symbolic\ue000"); s.t, s.pal = t, pal
        return s
    def _is(self, o):
        if isinstance(o, SymStr):
            if o.pal is self.pal: return self.t == o.t
            return z3.Or([z3.And(self.t == i, o.t == o.pal.index(x)) for i, x in enumerate(self.pal) if x in o.pal])
        return self.t == self.pal.index(o) if o in self.pal else z3.BoolVal(False)
    def __eq__(self, o): return wrapb(self._is(o)) if isinstance(o, str) else NotImplemented
    def __ne__(self, o): return wrapb(z3.Not(self._is(o))) if isinstance(o, str) else NotImplemented
    def __hash__(self): return 77
    def _ord(self, o, fn):
        if isinstance(o, SymStr) and o.pal is self.pal: return wrapb(fn(self.t, o.t))
        o = plain(o)
        return None if not isinstance(o, str) else wrapb(z3.Or([self.t == i for i, x in enumerate(self.pal) if pyop(fn)(x, o)] + [z3.BoolVal(False)]))
    def __lt__(self, o): return NotImplemented if not isinstance(o, str) else self._ord(o, z3.ULT)
    def __le__(self, o): return NotImplemented if not isinstance(o, str) else self._ord(o, z3.ULE)
    def __gt__(self, o): return NotImplemented if not isinstance(o, str) else self._ord(o, z3.UGT)
    def __ge__(self, o): return NotImplemented if not isinstance(o, str) else self._ord(o, z3.UGE)
    def conc(self):
        for i in range(len(self.pal) - 1):
            if EX.branch(self.t == i): return self.pal[i]
        return self.pal[-1]
    def __str__(self): return self
    def __repr__(self): return repr(self.conc())
    def __bool__(self): return EX.branch(z3.Or([self.t == i for i, x in enumerate(self.pal) if x] + [z3.BoolVal(False)]))
    def __reduce__(self): raise Unsupported("copy of a symbolic text")
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def pyop(fn):
    return {z3.ULT: lambda a, b: a < b, z3.ULE: lambda a, b: a <= b, z3.UGT: lambda a, b: a > b, z3.UGE: lambda a, b: a >= b}[fn]


def plain(x):
    """the value with symbolic texts replaced by the one they have on this path"""
    return x.conc() if isinstance(x, SymStr) else x


def _forward(name):
    def f(self, *a, **k):
        return getattr(self.conc(), name)(*[plain(x) for x in a], **k)
    return f


for _n in ("__len__", "__getitem__", "__contains__", "__iter__", "__add__", "__mod__", "__mul__", "__rmul__", "__format__", "encode", "split", "rsplit", "splitlines", "rfind", "find", "index", "rindex", "count", "strip", "lstrip", "rstrip", "startswith", "endswith", "lower", "upper", "title", "capitalize", "casefold", "swapcase",
           "replace", "join", "partition", "rpartition", "isdigit", "isalpha", "isalnum", "isspace", "isidentifier", "isdecimal", "isnumeric", "isprintable", "isascii", "islower", "isupper", "istitle", "format", "ljust", "rjust", "center", "zfill", "translate", "expandtabs", "removeprefix", "removesuffix"):
    setattr(SymStr, _n, _forward(_n))
SymStr.__radd__ = lambda self, o: o + self.conc()


def number_text(x):
    if type(x) is str and len(x) > 2 and x[0] == x[-1] == "\ue000" and x[1:-1].isdigit(): return EX.tokens[int(x[1:-1])]


class _Meta(type):
    def __instancecheck__(cls, o): return builtins.isinstance(o, cls.base)
    def __subclasscheck__(cls, o): return builtins.issubclass(o, cls.base) or o is cls
    def __eq__(cls, o): return o is cls or o is cls.base
    def __hash__(cls): return hash(cls.base)


class IntType(metaclass=_Meta):
    base = int
    def __new__(cls, x=0, *a):
        n = number_text(x)
        return x if type(x) is SymInt else SymInt(n[1]) if n and n[0] == "int" else int(plain(x), *a)


class FloatType(metaclass=_Meta):
    base = float
    def __new__(cls, x=0.0):
        n = number_text(x)
        if n: x = SymInt(n[1]) if n[0] == "int" else SymFloat(n[1] if n[0] == "float" else z3.fpFPToFP(RNE, n[1], F64))
        return x if type(x) is SymFloat else SymFloat.fromint(x) if type(x) is SymInt else float(plain(x))
