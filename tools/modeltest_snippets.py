import math
import copy
import numpy as np


def t_int_array(a, b):
    v = np.array([1, 2, 3])
    v[0] = a
    v[1] += 1
    return v


def t_zeros_int(a, b):
    v = np.zeros(3, dtype=int)
    v[:2] = [a, b]
    w = v.copy()
    w[2] = a * b
    return v, w


def t_zeros_like_int(a):
    v = np.zeros_like(np.array([1, 2]))
    v[0] = a
    u = np.zeros_like(np.array([1.0, 2]))
    u[0] = a
    return v, u


def t_full(a):
    v = np.full(2, 0)
    v[0] = a
    u = np.full(2, 0.0)
    u[0] = a
    return v, u


def t_f32(a, b):
    return np.array([a, b], dtype=np.float32), np.float32(a), np.asarray([a, b]).astype("float32"), np.array([a, b]).astype(int)


def t_round(a, b):
    return np.round([a, b], 2), round(a, 1), round(a), np.rint(b), np.around(a), np.array([a, b]).round(1), np.fix(a), np.trunc(b), int(a), math.trunc(b), math.floor(a), math.ceil(b)


def t_hyp(a):
    return np.sinh(a), np.cosh(a), math.tanh(a), np.expm1(a), np.exp2(a)


def t_logs(a):
    b = a * a + 1
    return np.log10(b), np.log2(b), math.log1p(b), math.log(b, 10), np.log(b)


def t_out(a, b):
    c = np.zeros(2)
    np.add([a, b], [1, 2], out=c)
    d = np.empty(2)
    np.sin(np.array([a, b]), d)
    e = np.zeros(2)
    np.multiply(np.array([a, b]), 2.0, out=e, where=np.array([a, b]) > 0)
    np.clip(c, -1.0, 1.0, out=c)
    return c, d, e


def t_where_kw(a, b):
    x = np.array([a, b])
    return np.divide(1.0, x, out=np.zeros_like(x), where=x > 0)


def t_copysign(a, b):
    return np.copysign(a, b), math.copysign(1.0, a), np.signbit(b), np.heaviside(a, 0.5)


def t_close(a, b):
    return np.isclose(a, b), np.allclose([a, b], [a, b]), math.isclose(a, a + 1e-12), np.isclose([a, b], [a, a]), np.allclose([a, 1.0], [a + 0.1, 1.0])


def t_tile(a, b):
    return np.tile([a, b], 2), np.tile([a, b], (2, 2)), np.repeat([a, b], 2), np.repeat([[a, b], [1.0, 2.0]], 2, axis=0), np.roll([a, b, 1.0], 1), np.roll([a, b, 1.0], -1)


def t_shape(a, b):
    x = np.array([[a, b]])
    return np.squeeze(x), np.expand_dims(np.array([a, b]), 0), np.swapaxes(x, 0, 1), x.T, np.broadcast_to([a, b], (2, 2)), np.trace([[a, b], [b, 2 * a]])


def t_split(a, b, c):
    p, q, r = np.split(np.array([a, b, c]), 3)
    u, v = np.array_split(np.array([a, b, c]), 2)
    s, t = np.split(np.array([a, b, c]), [1])
    return p, q, r, u, v, s, t


def t_take(a, b, c):
    x = np.array([a, b, c])
    return np.take(x, [2, 0]), x.take(1), x[[2, 1]], np.cumprod(x), np.cumsum(x), np.average(x), np.average(x, weights=[1, 2, 3]), np.ptp(x), np.median(x), np.sort(x), np.argsort(x)


def t_linalg(a, b):
    m = np.array([[a, b, 1.0], [b, 2.0, a], [0.5, 1.0, 3.0]])
    return np.linalg.det(m), np.linalg.inv(m), np.linalg.solve(m, [a, b, 1.0]), np.linalg.norm(m[0]), np.linalg.norm(m, axis=1)


def t_misc(a, b):
    return np.fromiter((x * 2 for x in [a, b]), dtype=float), np.select([a > 0, b > 0], [a, b], 7.0), np.tensordot([a, b], [b, a], axes=1), np.logical_xor(a > 0, b > 0), math.dist([a, b], [1.0, 2.0]), math.fsum([a, b]), math.prod([a, b]), np.isinf(a), np.nan_to_num(a)


def t_vectorize(a, b):
    f = np.vectorize(lambda x, k: x * x + k)
    return f([a, b], 2.0), np.apply_along_axis(lambda r: r[0] - r[1], 1, np.array([[a, b], [b, 1.0]]))


def t_ufunc_methods(a, b):
    return np.add.reduce([a, b, 1.0]), np.multiply.outer([a, b], [1.0, 2.0]), np.maximum.reduce([a, b]), np.add.accumulate([a, b, 1.0]), np.multiply.reduce([[a, b], [b, 2.0]], axis=1)


def t_trapz(a, b):
    return np.trapezoid([a, b, 1.0]), np.trapezoid([a, b, 1.0], [0.0, 1.0, 3.0])


def t_minmax(a, b):
    return max(a, b), min([a, b, 0.0]), np.maximum([a, b], 0), np.max([a, b]), np.clip([a, b], -1, 1), np.argmax([a, b]), np.argmin([a, b]), max([a, b], key=abs), np.fmin(a, b)


def t_ang(a, b):
    return np.arctan2(a, b), math.atan2(b, a), np.hypot(a, b), np.mod(a, 2 * np.pi), a % 1.5, a // 1.5, math.fmod(2.0, 1.5), divmod(a, 1.5), np.degrees(a), np.radians(a), np.arctan(a), np.tan(a), np.sinc(b)


def t_seq(a, b):
    x = [a, b]
    x += [1.0]
    x.insert(0, 2.0)
    y = x[::-1]
    z = [*x, *y]
    d = {"p": a, **{"q": b}}
    return x, y, z, d["p"] + d["q"], sum(x), len(z), sorted(x), list(map(lambda t: t * 2, x)), [i * t for i, t in enumerate(x)], dict(zip("ab", x))["b"]


def t_alias(a, b):
    x = np.array([a, b])
    y = x
    y[0] = 5.0
    z = x[:1]
    z += 1.0
    w = copy.deepcopy(x)
    w[1] = 0.0
    return x, y, z, w


def t_closure(a, b):
    acc = []

    def f(t):
        acc.append(t)
        return t + len(acc)
    u = f(a) + f(b)
    return u, acc


def t_loop(a, b):
    s = 0.0
    for i in range(10):
        if i == 3:
            continue
        if i > 6:
            break
        s += a * i
    else:
        s = 0.0
    k = 0
    while k < 5:
        s += b
        k += 1
    return s


def t_try(a, b):
    try:
        if a > 0:
            raise ValueError("no")
        r = a
    except ValueError:
        r = b
    finally:
        k = 2
    return r, k


def t_early(a, b):
    if a > 0:
        if b > 0:
            return a
        return b
    elif a < -1:
        return a * b
    return 0.0


def t_bool(a, b):
    return (a > 0) + (b > 0), a > 0 and b or 3.0, not a > b, (a > 0) * b, -1 < a < 1, np.any(np.array([a, b]) > 0), np.all([a > 0, b > 0]), np.sum(np.array([a, b]) > 0), np.count_nonzero([a > 0, b > 0])


def t_stack(a, b):
    return np.stack([[a, b], [1.0, 2.0]]), np.hstack(([a], [b, 1.0])), np.vstack(([a, b], [b, a])), np.concatenate(([a], [b])), np.column_stack(([a, b], [b, a])), np.append([a], b), np.r_[a, b], np.flip([a, b]), np.outer([a, b], [a, b]), np.einsum("i,i->", [a, b], [a, b]), np.cross([a, b, 1.0], [b, a, 2.0]), np.array([[a, b], [b, a]]) @ np.array([a, b]), np.diag([a, b]), np.eye(2)


def t_class(a, b):
    class P:
        k = 2.0

        def __init__(self, x):
            self.x = x

        @property
        def twice(self):
            return self.k * self.x

        @staticmethod
        def s(u):
            return u + 1

        @classmethod
        def c(cls, u):
            return cls(u).twice

        def __add__(self, o):
            return P(self.x + o.x)

        def __call__(self, u):
            return self.x * u
    p = P(a)
    q = p + P(b)
    q.k = 3.0
    return p.twice, q.twice, P.s(a), P.c(b), p(b), getattr(p, "x"), hasattr(p, "z")


def t_gen(a, b):
    def g(n):
        for i in range(n):
            yield i * a
    return list(g(3)), sum(g(4)), [x for x in (b, a) if True], next(iter([a])), max(abs(x) for x in (a, b))


def t_defaults(a, b):
    def f(x, y=2.0, *r, z=1.0, **k):
        return x * y + z + sum(r) + sum(k.values())
    return f(a), f(a, b), f(a, b, 1.0, 2.0, z=b), f(a, q=b), f(*[a, b], **{"z": 3.0}), (lambda u, v=a: u * v)(b)


def t_strings(a, b):
    n = 3
    return f"x{n:02d}y", "a" + str(n), "%d-%s" % (n, "z"), "abc".upper(), "a,b".split(",")[1], "q" in "pqr", "{}-{}".format(1, "b")


def t_match(a, b):
    k = "two"
    match k:
        case "one":
            r = a
        case "two":
            r = b
        case _:
            r = 0.0
    return r


def t_walrus(a, b):
    if (c := a * b) > 0:
        return c
    return c - 1


def t_mask(a, b):
    x = np.array([a, b, 1.0])
    x[x < 0] = 0.0
    y = np.where(x > 0.5, x, -1.0)
    x[1:] *= 2
    return x, y


def t_index2d(a, b):
    m = np.zeros((2, 3))
    m[0, :] = [a, b, 1.0]
    m[1] = m[0][::-1]
    m[:, 1] = 9.0
    r, c = m.shape
    return m, m[-1, 0], m[:, [0, 2]], m[..., 0], r, c, m.sum(axis=0), m.mean(), m.reshape(3, 2), m.ravel()[2], m.flatten(), m.T[2]


# ------------------------------------------------------------- python features
import dataclasses
import functools
import itertools
import operator
from collections import namedtuple, defaultdict, OrderedDict, deque
from contextlib import contextmanager
from dataclasses import dataclass, field
from typing import NamedTuple, Optional
from enum import Enum
from types import SimpleNamespace


def t_dataclass(a, b):
    @dataclass
    class P:
        x: float
        y: float = 2.0
        z: list = field(default_factory=list)

        def s(self):
            return self.x * self.y
    p = P(a)
    p.z.append(b)
    q = P(a, y=b)
    r = dataclasses.replace(q, x=3.0)
    return p.s(), q.s(), p.z, q.z, r.x, r.y


def t_frozen(a, b):
    @dataclass(frozen=True)
    class P:
        x: float
        y: float

        def __post_init__(self):
            object.__setattr__(self, "w", self.x + self.y)
    return P(a, b).x, P(y=a, x=b).x


def t_namedtuple(a, b):
    P = namedtuple("P", ["x", "y"])
    p = P(a, y=b)
    x, y = p
    q = p._replace(x=1.0)
    return p.x, p[1], x, y, q.x, q.y, len(p), sum(p)


class NT(NamedTuple):
    u: float
    v: float = 4.0


class Mode(Enum):
    ON = 1
    OFF = 2


def t_ntclass(a, b):
    n = NT(a)
    m = NT(u=a, v=b)
    return n.u + n.v, m.v, list(m)


def t_enum(a, b):
    m = Mode.ON
    return a if m is Mode.ON else b, a if m == Mode.OFF else b, Mode.OFF.value


def t_namespace(a, b):
    s = SimpleNamespace(p=a, q=b)
    s.p += 1
    return s.p, s.q


def t_nonlocal(a, b):
    n = 0

    def inc(k=1):
        nonlocal n
        n += k
        return n
    inc()
    inc(a)
    return n


def t_unpack(a, b):
    x, *y = [a, b, 1.0]
    (p, q), r = (a, b), 3.0
    *u, v = (a, b, 2.0)
    c, d = np.array([a, b])
    [e, f] = a, b
    for i, (j, k) in enumerate(zip([a, b], [b, a]), start=1):
        e += i * j * k
    return x, y, p, q, r, u, v, c, d, e, f


def t_itertools(a, b):
    return (list(itertools.chain([a], [b])), list(itertools.chain.from_iterable([[a], [b]])), list(itertools.accumulate([a, b, 1.0])), list(itertools.islice([a, b, 1.0], 2)),
            list(itertools.product([a, b], [1.0])), list(itertools.repeat(a, 2)), [x for x, _ in zip(itertools.count(), [1, 2])], list(itertools.pairwise([a, b, 1.0])),
            list(itertools.starmap(lambda x, y: x * y, [(a, b)])), list(itertools.zip_longest([a], [b, 1.0], fillvalue=0.0)))


def t_functools(a, b):
    f = functools.partial(lambda x, y, k=1.0: x * y + k, a, k=b)

    @functools.lru_cache(maxsize=None)
    def g(n):
        return a if n == 0 else g(n - 1) + b

    def deco(h):
        @functools.wraps(h)
        def w(*args, **kw):
            return h(*args, **kw) + 1
        return w

    @deco
    def k(x, y=0.0):
        return x - y
    return f(2.0), g(3), k(a), k(a, y=b), functools.reduce(lambda x, y: x + y, [a, b], 0.0)


def t_operator(a, b):
    return operator.mul(a, b), operator.itemgetter(1)([a, b]), operator.add(a, b), operator.sub(a, b), operator.truediv(a, 2.0), operator.neg(a), operator.itemgetter(0, 1)([a, b]), operator.gt(a, b), list(map(operator.mul, [a, b], [b, 2.0]))


def t_collections(a, b):
    d = {"x": []}
    d["x"].append(a)
    d["x"].append(b)
    o = OrderedDict(p=a)
    o["q"] = b
    q = deque([a, b])
    q.append(1.0)
    u = q.popleft()
    return d["x"], list(o.values()), u, list(q)


def t_context(a, b):
    log = []

    @contextmanager
    def cm(x):
        log.append(x)
        yield x * 2
        log.append(b)
    with cm(a) as v:
        log.append(v)
    return log


def t_with_class(a, b):
    class C:
        def __init__(self):
            self.n = 0

        def __enter__(self):
            self.n += 1
            return self

        def __exit__(self, *exc):
            self.n += a
            return False
    c = C()
    with c as d:
        d.n += b
    return c.n


def t_dictops(a, b):
    d = {"x": a, "y": b}
    e = {k: v * 2 for k, v in d.items()}
    d.update(z=1.0)
    f = d | {"x": 5.0}
    del d["y"]
    g = d.pop("z", 0.0)
    return e["x"], f["x"], f["y"], list(d.keys()), g, d.get("q", b), "x" in d, len(d), sorted(e), d.setdefault("w", a), [k + str(1) for k in d]


def t_listops(a, b):
    x = [a, b, 1.0, 2.0]
    y = x.copy()
    y.pop()
    y.extend([3.0])
    y.reverse()
    x[1:3] = [7.0]
    z = [0.0] * 3
    z[0] = a
    del y[0]
    return x, y, z, x.index(7.0), x + y, x == x[:], [a] in [[a]], x[-1], x.count(7.0), any(v > 0 for v in z), min(x, key=lambda v: -v), all([])


def t_chain(a, b):
    return a < b < 2, (a if a > b else b), a == a, a != a, a is None, None is None, not None, (a > 0) ^ (b > 0), (a > 0) & (b > 0), (a > 0) | (b > 0), bool(a > 0), int(a > 0), float(b > 0)


def t_inherit(a, b):
    class A:
        k = 1.0

        def __init__(self, x):
            self.x = x

        def f(self):
            return self.g() + self.k

        def g(self):
            return self.x

        def __len__(self):
            return 3

        def __getitem__(self, i):
            return self.x * i

        def __iter__(self):
            return iter([self.x, self.k])

        def __contains__(self, v):
            return v == 1

        def __eq__(self, o):
            return True

        def __neg__(self):
            return A(-self.x)

        def __mul__(self, o):
            return A(self.x * o)
        __rmul__ = __mul__

    class B(A):
        k = 2.0

        def __init__(self, x, y):
            super().__init__(x)
            self._y = y

        def g(self):
            return super().g() * self._y

        @property
        def y(self):
            return self._y

        @y.setter
        def y(self, v):
            self._y = v + 1
    p = B(a, b)
    r = p.f()
    p.y = b
    return r, p.y, A(a).f(), len(p), p[2], list(p), 1 in p, (-p).x, (p * 2).x, (3 * p).x, isinstance(p, A), issubclass(B, A), type(p) is B, type(p).__name__


def t_array_ops(a, b):
    x = np.array([a, b])
    y = x[None, :] * x[:, np.newaxis]
    z = ~(x > 0)
    w = (x > 0) | (x < -1)
    v = x.copy()
    v *= 2
    v -= 1
    v /= 4
    v **= 2
    rows = [r.sum() for r in y]
    return y, z, w, v, rows, x.max(), x.min(), (x > 0).any(), (x > 5).all(), x.cumsum(), x.dot(x), x.clip(0, 1), x.argmax(), -x, abs(x), x @ x, 2 - x, x.tolist(), x[0].item(), x.size, x.ndim, x.shape


def t_while_else(a, b):
    n = 0
    while n < 3:
        n += 1
        if n == 5:
            break
    else:
        n = 10
    for q in range(3):
        pass
    return n + q


def t_assert(a, b):
    assert a == a, "same"
    try:
        assert a != a
        r = 1.0
    except AssertionError as e:
        r = 2.0
    else:
        r = 3.0
    try:
        x = {}["k"]
    except (KeyError, IndexError):
        x = a
    try:
        y = [1.0][3]
    except Exception:
        y = b
    return r, x, y


def t_recursion(a, b):
    def fact(n):
        return 1 if n <= 1 else n * fact(n - 1)

    def comp(*fs):
        return lambda x: functools.reduce(lambda acc, f: f(acc), fs, x)
    return fact(5) * a, comp(lambda u: u + 1, lambda u: u * b)(a)


def t_slices(a, b):
    x = [a, b, 1.0, 2.0, 3.0]
    s = slice(1, None, 2)
    y = np.array(x)
    return x[s], y[s], y[::-2], y[-2:], x[:-1], y[[True, False, True, False, False]]


def t_complex(a, b):
    z = complex(1.0, 2.0)
    return abs(3 + 4j)


def t_getattr(a, b):
    class C:
        pass
    c = C()
    setattr(c, "p", a)
    for n, v in {"q": b, "r": 1.0}.items():
        setattr(c, n, v)
    c.__dict__["s"] = 2.0
    return c.p, getattr(c, "q"), getattr(c, "zz", 5.0), vars(c)["r"], c.s, hasattr(c, "p")


def t_genexp(a, b):
    def pairs():
        yield from [(a, 1.0), (b, 2.0)]
    g = (x * y for x, y in pairs())
    first = next(g)
    return first, list(g), dict((k, v) for k, v in [("m", a)])["m"], tuple(x for x in (a, b))


def t_global(a, b):
    return GLOB["k"] * a, HELP(b)


GLOB = {"k": 2.5}
HELP = lambda t, s=0.5: t * s


def t_ternary_args(a, b):
    f, g = (np.sin, np.cos) if a > 0 else (np.cos, np.sin)
    ops = {"s": np.sin, "c": np.cos}
    return f(b), g(b), ops["s"](a), [h(a) for h in (np.sin, np.cos)], (lambda *q: sum(q))(*(v for v in (a, b)))


def t_try_finally(a, b):
    log = []

    def f(x):
        try:
            if x > 0:
                return x
            log.append(1.0)
        finally:
            log.append(2.0)
        return -x
    return f(a), len(log)


def t_const(a, b):
    return math.tau * a, np.pi, np.e, math.e * b, 1e-3, 10 ** -2, 2 ** 0.5 * a, 7 // 2, 7 % 3, -7 // 2, 5 & 3, 1 << 3, True + 1, abs(-3), divmod(7, 3), pow(a * a, 2), math.pow(2.0, 3), a ** 2, a ** 3 / a, math.sqrt(a * a), np.square(a), a * a ** -1


def t_zip_star(a, b):
    xs, ys = zip(*[(a, 1.0), (b, 2.0)])
    m = [[a, b], [1.0, 2.0]]
    t = list(map(list, zip(*m)))
    return xs, ys, t, [v for row in m for v in row if v is not None], sum(m, [])


def t_arr_struct(a, b):
    x = np.linspace(0, a, 3)
    y = np.arange(3) * b
    z = np.zeros((2, 2))
    z[0], z[1] = [a, b], (b, a)
    z[:, 0] += 1
    u = np.array([np.array([a, b]), [1.0, 2.0]])
    k = np.concatenate([u, z], axis=1)
    e = np.empty((0, 2))
    w = np.vstack([z, [a, a]])
    return x, y, z, u, k, w, np.dot(u, z), np.mean(u, axis=0), np.sum(u ** 2, axis=1) ** 0.5, u.T @ u, np.diff([a, b, 1.0]), np.max(u, axis=1), np.argmax(u), np.array(a).shape, np.atleast_1d(a), np.min(u), np.abs(u), np.matmul(u, z)


def t_cached(a, b):
    calls = []

    @functools.lru_cache(maxsize=8)
    def f(n):
        calls.append(n)
        return [n * a]
    x = f(2)
    x.append(b)
    y = f(2)
    return y, len(calls), f(3)


def t_cached_property(a, b):
    class C:
        def __init__(self, x):
            self.x = x

        @functools.cached_property
        def twice(self):
            return 2 * self.x

        @functools.lru_cache
        def thrice(self):
            return 3 * self.x
    c = C(a)
    u, v = c.twice, c.thrice()
    c.x = b
    return u, c.twice, v, c.thrice(), c.x


def t_iterators(a, b):
    it = iter([a, b, 1.0])
    x = next(it)
    rest = list(it)
    g = (v for v in [a, b])
    s = sum(g) + sum(g)
    z = next((v for v in [1, 2, 3] if v > 1), None)
    return x, rest, s, z, next(iter([]), b)


def t_dictattr(a, b):
    class C:
        def __init__(self, **kw):
            self.__dict__.update(kw)
            self.__dict__["z"] = 1.0
    c = C(x=a, y=b)
    return c.x, c.y, c.z, sorted(vars(c))


def t_condkey(a, b):
    d = {}
    if a > 0:
        d["p"] = a
    return d.get("p", b), "p" in d
