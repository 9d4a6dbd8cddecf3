"""Take over the random module.

`install()` must run before concept_formation (or py_search) is imported, since
they do `from random import random`.  Outside a session the genuine functions
are used; inside one every draw is a choice point answered by the session.

A bare `random()` returns a LazyRand: an as yet undetermined draw.  Comparing
two of them is one binary choice (kept transitively consistent); anything else
(arithmetic, comparison with a number) fixes it to a value of a small menu.
"""
import random as _random
import tempfile  # noqa: F401  (imports random.Random users before patching)

_orig = {}
_session = None

MENU = (0.5, 0.0, 1.0 - 2.0 ** -53, 0.25, 0.75)


class Session(object):
    """Answers choice points: first those of `prefix`, then by policy."""

    def __init__(self, prefix=(), policy='first', menu=MENU, script=None,
                 fixed=None, max_choices=200000):
        self.prefix = list(prefix)
        self.policy = policy
        self.menu = menu
        self.script = list(script) if script is not None else None
        self.fixed = fixed
        self.points = []       # (n, chosen)
        self.divergences = 0
        self.edges = {}
        self.draws = 0
        self.max_choices = max_choices
        self.labels = []

    def choose(self, n, label=''):
        if n <= 1:
            return 0
        i = len(self.points)
        if i >= self.max_choices:
            raise RuntimeError('more than %d random choices in one operation'
                               % self.max_choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                self.divergences += 1
                c = n - 1
        elif self.policy == 'first':
            c = 0
        elif self.policy == 'last':
            c = n - 1
        elif self.policy == 'alt':
            c = (i % 2) * (n - 1)
        else:
            c = 0
        self.points.append((n, c))
        self.labels.append(label)
        return c

    # value of one basic draw in [0, 1)
    def value(self):
        self.draws += 1
        if self.script is not None and self.script:
            return self.script.pop(0)
        if self.fixed is not None:
            return self.fixed
        return self.menu[self.choose(len(self.menu), 'value')]

    def less(self, a, b):
        """Is draw a below draw b?"""
        if self._reach(a, b):
            return True
        if self._reach(b, a):
            return False
        r = self.choose(2, 'tie')
        if r == 0:
            self.edges.setdefault(a, []).append(b)
            return True
        self.edges.setdefault(b, []).append(a)
        return False

    def _reach(self, a, b):
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            if x is b:
                return True
            if id(x) in seen:
                continue
            seen.add(id(x))
            todo.extend(self.edges.get(x, ()))
        return False

    def __enter__(self):
        global _session
        self._outer = _session
        _session = self
        return self

    def __exit__(self, *a):
        global _session
        _session = self._outer
        return False

    @property
    def taken(self):
        return [c for _, c in self.points]


class LazyRand(object):
    __slots__ = ('s', 'v')

    def __init__(self, s):
        self.s = s
        self.v = None

    def val(self):
        if self.v is None:
            self.v = self.s.value()
        return self.v

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if isinstance(o, LazyRand):
            if o is self:
                return True
            if self.v is not None and o.v is not None:
                return self.v == o.v
            return False
        return self.val() == o

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        if isinstance(o, LazyRand):
            if o is self:
                return False
            if self.v is not None and o.v is not None:
                return self.v < o.v
            return self.s.less(self, o)
        return self.val() < o

    def __gt__(self, o):
        if isinstance(o, LazyRand):
            return o < self
        return self.val() > o

    def __le__(self, o):
        if isinstance(o, LazyRand):
            return o is self or self < o
        return self.val() <= o

    def __ge__(self, o):
        if isinstance(o, LazyRand):
            return o is self or o < self
        return self.val() >= o

    def __float__(self):
        return float(self.val())

    def __int__(self):
        return int(self.val())

    def __repr__(self):
        return repr(self.val())

    def __bool__(self):
        return bool(self.val())

    def __neg__(self):
        return -self.val()

    def __abs__(self):
        return abs(self.val())

    def __round__(self, n=None):
        return round(self.val(), n)

    def __format__(self, spec):
        return format(self.val(), spec)

    def __reduce__(self):
        return (float, (self.val(),))


def _f(x):
    return x.val() if isinstance(x, LazyRand) else x


for _name in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    def _mk(name):
        import operator
        op = getattr(operator, name)

        def fwd(self, o):
            return op(self.val(), _f(o))

        def rev(self, o):
            return op(_f(o), self.val())
        return fwd, rev
    _a, _b = _mk(_name)
    setattr(LazyRand, '__%s__' % _name, _a)
    setattr(LazyRand, '__r%s__' % _name, _b)


def _random_():
    s = _session
    if s is None:
        return _orig['random']()
    if s.script is not None or s.fixed is not None:
        return s.value()
    return LazyRand(s)


def _uniform(a, b):
    s = _session
    if s is None:
        return _orig['uniform'](a, b)
    return a + (b - a) * s.value()


def _choice(seq):
    s = _session
    if s is None:
        return _orig['choice'](seq)
    if len(seq) == 0:
        raise IndexError('Cannot choose from an empty sequence')
    return seq[s.choose(len(seq), 'choice')]


def _shuffle(x):
    s = _session
    if s is None:
        return _orig['shuffle'](x)
    # selection: any permutation is reachable; choice 0 everywhere = unchanged
    n = len(x)
    for i in range(n - 1):
        j = i + s.choose(n - i, 'shuffle')
        v = x.pop(j)
        x.insert(i, v)


def _sample(population, k, **kw):
    s = _session
    if s is None:
        return _orig['sample'](population, k, **kw)
    pool = list(population)
    if not 0 <= k <= len(pool):
        raise ValueError('Sample larger than population or is negative')
    out = []
    for _ in range(k):
        out.append(pool.pop(s.choose(len(pool), 'sample')))
    return out


def _randrange(start, stop=None, step=1):
    s = _session
    if s is None:
        return (_orig['randrange'](start) if stop is None
                else _orig['randrange'](start, stop, step))
    r = range(start) if stop is None else range(start, stop, step)
    if not len(r):
        raise ValueError('empty range for randrange()')
    return r[s.choose(len(r), 'randrange')]


def _randint(a, b):
    if _session is None:
        return _orig['randint'](a, b)
    return _randrange(a, b + 1)


def _gauss(mu=0.0, sigma=1.0):
    s = _session
    if s is None:
        return _orig['normalvariate'](mu, sigma)
    k = s.choose(3, 'normal')
    return mu + (0.0, 1.0, -1.0)[k] * sigma


def _choices(population, weights=None, *, cum_weights=None, k=1):
    s = _session
    if s is None:
        return _orig['choices'](population, weights, cum_weights=cum_weights,
                                k=k)
    pop = list(population)
    if cum_weights is not None:
        cw = list(cum_weights)
        weights = [cw[0]] + [cw[i] - cw[i - 1] for i in range(1, len(cw))]
    if weights is None:
        return [pop[s.choose(len(pop), 'choices')] for _ in range(k)]
    weights = list(weights)
    total = sum(weights)
    if not total > 0:
        raise ValueError('Total of weights must be greater than zero')
    out = []
    for _ in range(k):
        r, up = s.value() * total, 0
        sel = None
        for p, w in zip(pop, weights):
            if up + w > r:
                sel = p
                break
            up += w
        else:
            sel = [p for p, w in zip(pop, weights) if w > 0][-1]
        out.append(sel)
    return out


def install():
    repl = dict(random=_random_, uniform=_uniform, choice=_choice,
                shuffle=_shuffle, sample=_sample, randrange=_randrange,
                randint=_randint, gauss=_gauss, normalvariate=_gauss,
                choices=_choices)
    if _orig:
        return
    for k in repl:
        _orig[k] = getattr(_random, k)
    for k in repl:
        setattr(_random, k, repl[k])
