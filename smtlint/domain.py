"""Abstract values: references x constants x (unit, interval, tags) x symbolic shape."""
from fractions import Fraction as Fr

INF = float("inf")

# ---------------------------------------------------------------- symbolic integers (polynomials)


def sym_const(c):
    return ((((), c),)) if c else ()


def sym_var(n):
    return (((n,), 1),)


def _norm(d):
    return tuple(sorted((k, v) for k, v in d.items() if v))


def sym_add(a, b, s=1):
    if a is None or b is None:
        return None
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + s * v
    return _norm(d)


def sym_mul(a, b):
    if a is None or b is None:
        return None
    d = {}
    for k, v in a:
        for l, w in b:
            m = tuple(sorted(k + l))
            d[m] = d.get(m, 0) + v * w
    r = _norm(d)
    return r if len(r) <= 6 else None


def sym_pos(a):
    """certainly >= 1 when every variable is >= 1"""
    return a is not None and a != () and all(v > 0 for _, v in a)


def sym_is_const(a):
    return a is not None and (a == () or (len(a) == 1 and a[0][0] == ()))


def sym_int(a):
    return 0 if a == () else a[0][1]


def sym_str(a):
    if a is None:
        return "?"
    if a == ():
        return "0"
    out = []
    for k, v in a:
        s = "*".join(k)
        out.append(str(v) if not k else (s if v == 1 else "%s*%s" % (v, s)))
    return "+".join(out)


def sym_subst(a, n, e):
    """the polynomial with e in place of the variable n"""
    if a is None:
        return None
    out = ()
    for k, v in a:
        t = sym_const(v)
        for x in k:
            t = sym_mul(t, e if x == n else sym_var(x))
            if t is None:
                return None
        out = sym_add(out, t)
    return out


def sym_shift(a, n):
    b = sym_subst(a, n, sym_add(sym_var(n), sym_const(1)))
    return a if b is None else b


ONE = sym_const(1)

# ---------------------------------------------------------------- units of measure
# A unit is (x, y, wx, wy): the value scales as a**x * b**y when inputs are rescaled by a and outputs by b,
# and translates by wx (wy) times the shift of the inputs (outputs).  "N": translation-dependent with a
# definitely non-zero, unspecified coefficient.  "?": unknown.  None: literal, compatible with every unit.

UT = "T"  # unknown


def U(x=0, y=0, wx=0, wy=0):
    return (Fr(x), Fr(y), wx, wy)


DIMLESS = U()


class Conflict(tuple):
    """A definite unit error: ("C", description)."""


def conflict(msg):
    return ("C", msg)


def is_conf(u):
    return isinstance(u, tuple) and u and u[0] == "C"


def _wadd(a, b, s=1):
    if a == "?" or b == "?":
        return "?"
    if a == "N" or b == "N":
        if a == "N" and b == "N":
            return "?"
        o = b if a == "N" else a
        return "N" if o == 0 else "?"
    return a + s * b


def _wnl(w):
    """non-linear use"""
    return w if w in ("?", "N") or w == 0 else "N"


def u_join(a, b):
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if is_conf(a):
        return a
    if is_conf(b):
        return b
    if a == UT or b == UT:
        return UT
    if a[:2] != b[:2]:
        return UT
    return (a[0], a[1], a[2] if a[2] == b[2] else "?", a[3] if a[3] == b[3] else "?")


def u_add(a, b, s=1, where=""):
    if is_conf(a):
        return a
    if is_conf(b):
        return b
    if a is None:
        if b is None or b == UT:
            return b
        return b if s == 1 else (b[0], b[1], _wadd(0, b[2], s), _wadd(0, b[3], s))
    if b is None:
        return a
    if a == UT or b == UT:
        return UT
    if a[:2] != b[:2]:
        return conflict("%s: adds %s and %s" % (where, u_str(a), u_str(b)))
    return (a[0], a[1], _wadd(a[2], b[2], s), _wadd(a[3], b[3], s))


def _wmul(wa, wb, a_const, b_const):
    # w of a*b.  a_const/b_const: literal coefficient if that operand is a pure literal
    if wa == 0 and wb == 0:
        return 0
    if wb == 0:
        if wa in ("?", "N"):
            return wa
        if b_const is not None:
            return wa * Fr(b_const).limit_denominator(10 ** 6)
        return "N"
    if wa == 0:
        if wb in ("?", "N"):
            return wb
        if a_const is not None:
            return wb * Fr(a_const).limit_denominator(10 ** 6)
        return "N"
    return "?" if "?" in (wa, wb) else "N"


def u_mul(a, b, ca=None, cb=None, inv=False):
    if is_conf(a):
        return a
    if is_conf(b):
        return b
    if a == UT or b == UT:
        return UT
    if a is None and b is None:
        return None
    if cb is not None and inv:
        cb = None if cb == 0 else 1.0 / cb
    if ca is not None and (ca != ca or abs(ca) == INF):
        ca = None
    if cb is not None and (cb != cb or abs(cb) == INF):
        cb = None
    if ca == 0 or cb == 0:
        # multiplication by literal zero
        return None
    ua = a if a is not None else DIMLESS
    ub = b if b is not None else DIMLESS
    s = -1 if inv else 1
    wx = _wmul(ua[2], _wnl(ub[2]) if inv else ub[2], ca if a is None else None, cb if b is None else None)
    wy = _wmul(ua[3], _wnl(ub[3]) if inv else ub[3], ca if a is None else None, cb if b is None else None)
    return (ua[0] + s * ub[0], ua[1] + s * ub[1], wx, wy)


def u_pow(a, k):
    if a is None or a == UT or is_conf(a):
        return a
    if k is None:
        return UT if a[:2] != (0, 0) else (a[0], a[1], _wnl(a[2]), _wnl(a[3]))
    k = Fr(k).limit_denominator(1000)
    if k == 1:
        return a
    return (a[0] * k, a[1] * k, _wnl(a[2]), _wnl(a[3]))


def u_transc(a, where=""):
    """exp, log, sin..: argument must be dimensionless"""
    if a is None:
        return None
    if a == UT or is_conf(a):
        return a
    if a[:2] != (0, 0):
        return UT
    return (a[0], a[1], _wnl(a[2]), _wnl(a[3]))


def u_nonlin(a):
    """same scale, translation no longer linear (abs, sign-dependent)"""
    if a is None or a == UT or is_conf(a):
        return a
    return (a[0], a[1], _wnl(a[2]), _wnl(a[3]))


def u_diffscale(a):
    """std, ptp: translation cancels"""
    if a is None or a == UT or is_conf(a):
        return a
    return (a[0], a[1], 0 if a[2] not in ("?", "N") else "?", 0 if a[3] not in ("?", "N") else "?")


def u_str(u):
    if u is None:
        return "literal"
    if u == UT:
        return "unknown"
    if is_conf(u):
        return "conflict(%s)" % u[1]
    s = []
    for n, e in (("X", u[0]), ("Y", u[1])):
        if e:
            s.append(n if e == 1 else "%s^%s" % (n, e))
    t = "*".join(s) or "1"
    if u[2] != 0:
        t += " shiftX=%s" % u[2]
    if u[3] != 0:
        t += " shiftY=%s" % u[3]
    return "[" + t + "]"


# ---------------------------------------------------------------- element attributes


# Where a value lies with respect to limits (L, H) given by the user: (a0, a1, b0, b1, c0, c1) says that it is a*L + b*H
# with a in [a0, a1], b in [b0, b1] and a + b in [c0, c1]; LIM is the array of the limits itself, FREE a value nothing keeps inside them,
# OTHER one made from the limits of one particular input, or of all of them.
LIM = ("lim",)
FREE = ("free",)
OTHER = ("other",)
P_L, P_H, P_IN = (1.0, 1.0, 0.0, 0.0, 1.0, 1.0), (0.0, 0.0, 1.0, 1.0, 1.0, 1.0), (0.0, 1.0, 0.0, 1.0, 1.0, 1.0)


def _mulb(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def imul(al, ah, bl, bh):
    ps = [_mulb(al, bl), _mulb(al, bh), _mulb(ah, bl), _mulb(ah, bh)]
    return min(ps), max(ps)


def p_num(p):
    return P_IN if p == LIM else p


def p_join(p, q):
    if p == q:
        return p
    if p is None or q is None:
        return None
    for x in (FREE, OTHER):
        if x in (p, q):
            return x
    p, q = p_num(p), p_num(q)
    return tuple((min if i % 2 == 0 else max)(x, y) for i, (x, y) in enumerate(zip(p, q)))


def a_pjoin(a, b):
    """the position of one of two values; numbers that stand for nothing yet (unwritten entries) do not count"""
    if a.pos == b.pos:
        return a.pos
    if a.pos is None and a.unit is None:
        return b.pos
    if b.pos is None and b.unit is None:
        return a.pos
    return p_join(a.pos, b.pos)


def p_widen(p, q):
    if p == q or p is None or q is None or len(p) < 6 or len(q) < 6:
        return q
    return tuple((x if y == x else (-INF if i % 2 == 0 else INF)) for i, (x, y) in enumerate(zip(p, q)))


def is_product(op, p, q):
    return op not in ("Add", "Sub") and p is not None and q is not None


def p_arith(op, a, b):
    """the position of a (op) b"""
    p, q = p_num(a.pos), p_num(b.pos)
    if p is None and q is None:
        return None
    if FREE in (p, q) or OTHER in (p, q):
        # (a quotient may well be a proper fraction again)
        return None if op == "Div" or is_product(op, p, q) else (FREE if FREE in (p, q) else OTHER)
    if op in ("Add", "Sub"):
        if p is None or q is None:
            o = a if p is None else b
            if o.lo == o.hi == 0 and (op == "Add" or q is None):
                return p or q
            return FREE if o.unit is None else None  # a number, whatever the limits are
        if op == "Add":
            return tuple(x + y for x, y in zip(p, q))
        return (p[0] - q[1], p[1] - q[0], p[2] - q[3], p[3] - q[2], p[4] - q[5], p[5] - q[4])
    if op == "Mult" and (p is None) != (q is None):
        o, r = (a, q) if p is None else (b, p)
        lo, hi = o.lo, o.hi
    elif op == "Div" and q is None and (b.lo > 0 or b.hi < 0):
        r, lo, hi = p, 1.0 / b.hi if b.hi else INF, 1.0 / b.lo if b.lo else INF
        lo, hi = min(lo, hi), max(lo, hi)
    else:
        return None
    if o_unit(a if p is None else b) or lo == -INF or hi == INF or INF in r or -INF in r:
        return None
    return imul(r[0], r[1], lo, hi) + imul(r[2], r[3], lo, hi) + imul(r[4], r[5], lo, hi)


def p_inside(p):
    """True: between the limits; False: not; None: unknown"""
    p = p_num(p)
    if p is None:
        return None
    if p in (FREE, OTHER):
        return False
    if INF in p or -INF in p:
        return None
    e = 1e-9
    if min(p[:4]) < -e or max(p[:4]) > 1 + e:
        # (a place that may be a displacement as well, a + b = 0, is not decided)
        return False if p[4] > e or p[5] < -e or p[4] == p[5] else None
    fa, fb = p[0] == p[1], p[2] == p[3]
    if fa != fb or (fa and abs(p[0] + p[2] - 1) > e):
        return False
    return True


def o_unit(o):
    return not (o.unit is None or o.unit == UT or is_conf(o.unit) or o.unit[:2] == (0, 0))


class Abs:
    __slots__ = ("unit", "lo", "hi", "tags", "pos", "_h")

    def __init__(self, unit=None, lo=-INF, hi=INF, tags=frozenset(), pos=None):
        self.unit = unit
        self.lo = lo
        self.hi = hi
        self.tags = tags
        self.pos = pos
        self._h = None

    def __eq__(self, o):
        return self is o or (
            isinstance(o, Abs)
            and self.unit == o.unit
            and self.lo == o.lo
            and self.hi == o.hi
            and self.tags == o.tags
            and self.pos == o.pos
        )

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.unit, self.lo, self.hi, self.tags, self.pos))
        return self._h

    def join(self, o):
        if self is o or self == o:
            return self
        if o is BOTA:
            return self
        if self is BOTA:
            return o
        r = Abs(u_join(self.unit, o.unit), min(self.lo, o.lo), max(self.hi, o.hi), self.tags | o.tags, a_pjoin(self, o))
        return self if r == self else r

    def widen(self, o):
        lo = self.lo if o.lo >= self.lo else (0.0 if o.lo >= 0 else -INF)
        hi = self.hi if o.hi <= self.hi else (0.0 if o.hi <= 0 else (1.0 if o.hi <= 1 else INF))
        return Abs(u_join(self.unit, o.unit), lo, hi, self.tags | o.tags, p_widen(self.pos, a_pjoin(self, o)))

    def with_(self, **k):
        d = dict(unit=self.unit, lo=self.lo, hi=self.hi, tags=self.tags, pos=self.pos)
        d.update(k)
        return Abs(**d)

    @property
    def nonneg(self):
        return self.lo >= 0

    def __repr__(self):
        return "%s[%g,%g]%s%s" % (u_str(self.unit), self.lo, self.hi, sorted(map(str, self.tags)) or "", self.pos or "")


E0 = frozenset()
BOTA = Abs(None, INF, -INF, E0)
TOPA = Abs(UT, -INF, INF, E0)
LITA = Abs(None, -INF, INF, E0)


def abs_const(c):
    if isinstance(c, bool):
        return Abs(None, float(c), float(c))
    if isinstance(c, (int, float)):
        return Abs(None, float(c), float(c))
    return LITA


class V:
    """refs: frozenset of references; consts: frozenset of known constants; prim: unknown number/str/bool;
    unk: unknown object; a: element attributes (scalars); shape: symbolic array shape; dim: symbolic int."""

    __slots__ = ("refs", "consts", "prim", "unk", "a", "shape", "dim", "src", "alts", "_h")

    def __init__(self, refs=E0, consts=E0, prim=False, unk=False, a=BOTA, shape=None, dim=None, src=E0, alts=E0):
        self.alts = alts  # the shapes of the branches this very value was joined from, when they differ
        self.src = src  # the slots this very value was read from (kept by moves, lost by computations)
        self.refs = refs
        self.consts = consts
        self.prim = prim
        self.unk = unk
        self.a = a
        self.shape = shape
        self.dim = dim
        self._h = None

    def __eq__(self, o):
        return self is o or (
            isinstance(o, V)
            and self.refs == o.refs
            and self.prim == o.prim
            and self.unk == o.unk
            and self.shape == o.shape
            and self.dim == o.dim
            and self.src == o.src
            and self.alts == o.alts
            and self.a == o.a
            and ckey(self.consts) == ckey(o.consts)
        )

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.refs, ckey(self.consts), self.prim, self.unk, self.a, self.shape, self.dim, self.src, self.alts))
        return self._h

    def join(self, o):
        if self is o or self == o:
            return self
        if self.is_bot():
            return o
        if o.is_bot():
            return self
        consts = self.consts
        prim = self.prim or o.prim
        if o.consts is not consts and ckey(o.consts) != ckey(consts):
            consts = cunion(consts, o.consts)
            if len(consts) > 24:
                keep = [c for c in consts if c is None]
                consts = frozenset(keep)
                prim = True
        alts = self.alts | o.alts
        if self.shape != o.shape and self.refs and o.refs:
            alts = frozenset(list(alts | {x for x in (self.shape, o.shape) if x is not None})[:6])
        has_none_only_s = self.only_none()
        has_none_only_o = o.only_none()
        if has_none_only_s:
            shape = o.shape
        elif has_none_only_o:
            shape = self.shape
        else:
            shape = join_shape(self.shape, o.shape)
        v = V(
            self.refs | o.refs,
            consts,
            prim,
            self.unk or o.unk,
            self.a.join(o.a),
            shape,
            self.dim if self.dim == o.dim else None,
            self.src if self.src == o.src else self.src & o.src,
            alts,
        )
        # the same object wherever nothing new was learnt: joins of whole states compare by identity
        return self if v == self else v

    def widen(self, o):
        j = self.join(o)
        if j == self:
            return self
        consts, prim = j.consts, j.prim
        nums = [c for c in j.consts if isinstance(c, (int, float)) and not isinstance(c, bool)]
        if len(nums) > 3:
            consts = frozenset(c for c in j.consts if not (isinstance(c, (int, float)) and not isinstance(c, bool)))
            prim = True
        return V(j.refs, consts, prim, j.unk, self.a.widen(o.a) if self.a is not BOTA else j.a, j.shape, j.dim, j.src, j.alts)

    def at_src(self, slot, drop=False):
        """the same value, also known to be the content of (or, with drop, no more tied to) this slot"""
        src = frozenset(s for s in self.src if s[:3] != slot[:3])
        if not drop and len(src) < 3:
            src = src | {slot}
        if self.src == src:
            return self
        return V(self.refs, self.consts, self.prim, self.unk, self.a, self.shape, self.dim, src, self.alts)

    def slot(self, *key):
        for s in self.src:
            if s[:3] == key:
                return s
        return None

    def is_bot(self):
        return not self.refs and not self.consts and not self.prim and not self.unk

    def only_none(self):
        return len(self.consts) == 1 and None in self.consts and not self.refs and not self.prim and not self.unk

    def with_(self, **k):
        d = dict(refs=self.refs, consts=self.consts, prim=self.prim, unk=self.unk, a=self.a, shape=self.shape, dim=self.dim)
        d.update(k)
        return V(**d)

    def single_const(self):
        if len(self.consts) == 1 and not self.refs and not self.prim and not self.unk:
            return next(iter(self.consts))
        return NOCONST

    def all_consts(self):
        """every possible value is a known constant"""
        return not self.refs and not self.prim and not self.unk and bool(self.consts)

    def __repr__(self):
        p = []
        if self.refs:
            p.append("refs=%s" % sorted(map(str, self.refs))[:6])
        if self.consts:
            p.append("c=%s" % sorted(map(repr, self.consts))[:6])
        if self.prim:
            p.append("prim")
        if self.unk:
            p.append("unk")
        if self.a is not BOTA:
            p.append(repr(self.a))
        if self.shape is not None:
            p.append("(" + ",".join(sym_str(d) for d in self.shape) + ")")
        if self.dim is not None:
            p.append("dim=" + sym_str(self.dim))
        return "V(" + " ".join(p) + ")"


class _NC:
    def __repr__(self):
        return "NOCONST"


NOCONST = _NC()


def ckey(cs):
    for c in cs:
        if c is not None and c.__class__ is not str:
            return frozenset([(type(c).__name__, c) for c in cs])
    return cs


def cunion(a, b):
    # 1 == True == 1.0: keep type distinctions by a tagged union, first come wins on equal value
    return a | b


def join_shape(a, b):
    if a == b:
        return a
    if a is None or b is None or len(a) != len(b):
        return None
    return tuple(x if x == y else None for x, y in zip(a, b))


BOT = V()
NONE = V(consts=frozenset([None]))
UNK = V(unk=True, a=TOPA)
PRIM = V(prim=True, a=LITA)


def const(c):
    d = None
    if isinstance(c, int) and not isinstance(c, bool):
        d = sym_const(c)
    return V(consts=frozenset([c]), a=abs_const(c), dim=d)


TRUE = const(True)
FALSE = const(False)
BOOL = V(consts=frozenset([True, False]), a=Abs(None, 0.0, 1.0))


def ref(*r):
    return V(refs=frozenset(r))


def prim(a=LITA, dim=None):
    return V(prim=True, a=a, dim=dim)


def join_all(vs):
    out = BOT
    for v in vs:
        out = out.join(v)
    return out
