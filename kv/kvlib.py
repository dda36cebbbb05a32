def b_any(xs):
    for x in xs:
        if x:
            return True
    return False


def b_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def b_sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


def b_map(f, *xs):
    if len(xs) == 1:
        return [f(x) for x in xs[0]]
    return [f(*x) for x in zip(*xs)]


def b_filter(f, xs):
    if f is None:
        return [x for x in xs if x]
    return [x for x in xs if f(x)]


def product(a, b):
    return [(x, y) for x in a for y in b]


def chain(*xs):
    r = []
    for x in xs:
        r.extend(x)
    return r


def chain_from_iterable(xs):
    r = []
    for x in xs:
        r.extend(x)
    return r


def islice_from(xs, n):
    return xs[n:]


def partial(f, *a, **k):
    def call(*b, **l):
        m = dict(k)
        m.update(l)
        return f(*(a + b), **m)
    return call


def reduce(f, xs, *init):
    if init:
        acc = init[0]
        for x in xs:
            acc = f(acc, x)
        return acc
    acc = xs[0]
    for x in xs[1:]:
        acc = f(acc, x)
    return acc
