"""A plain model of Laurent polynomials: {tuple of sorted (variable, power): integer}."""
VARS = (0, 1, 2, 3, -1, -2)


def norm(d):
    return {k: v for k, v in d.items() if v}


def key(d):
    return tuple(sorted((i, e) for i, e in d.items() if e))


def of(p):
    """The model of a library polynomial (or integer)."""
    if isinstance(p, int):
        return {(): p} if p else {}
    ans = {}
    for ind in p:
        v = p[ind]
        if v:
            k = key(ind)
            ans[k] = ans.get(k, 0) + v
    return norm(ans)


def add(f, g, c=1):
    ans = dict(f)
    for k, v in g.items():
        ans[k] = ans.get(k, 0) + c * v
    return norm(ans)


def mono(a, b):
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return key(d)


def mul(f, g):
    ans = {}
    for a, x in f.items():
        for b, y in g.items():
            k = mono(a, b)
            ans[k] = ans.get(k, 0) + x * y
    return norm(ans)


def power(f, n):
    ans = {(): 1}
    for _ in range(n):
        ans = mul(ans, f)
    return ans


def var(i, e=1):
    return {((i, e),): 1} if e else {(): 1}


def const(c):
    return {(): c} if c else {}


def substitute(f, i, g):
    ans = {}
    for k, c in f.items():
        d = dict(k)
        e = d.pop(i, 0)
        ans = add(ans, mul({key(d): c}, power(g, e)))
    return ans


def degree(k):
    return sum(e for _, e in k)


def random_model(rng, terms=4, deg=3, low=0, variables=VARS, big=False):
    ans = {}
    wide = rng.random() < .12
    if wide:
        deg, terms = deg + 9, min(terms, 3)
    for _ in range(rng.randrange(0, terms + 1)):
        d = {}
        for i in rng.sample(variables, rng.randrange(0, 5 if wide else 3)):
            d[i] = rng.randrange(low, deg + 1)
        c = rng.choice((1, 1, -1, 2, -3, 5)) if not big else rng.randrange(-10 ** 12, 10 ** 12)
        k = key(d)
        ans[k] = ans.get(k, 0) + c
    return norm(ans)


def build(rng, m):
    """The library polynomial of a model, by a random route."""
    from polynomials import Polynomial as P, HashableDict, X, Y
    route = rng.randrange(4)
    items = list(m.items())
    rng.shuffle(items)
    if route == 0:
        coeffs = {}
        for k, v in items:
            k = list(k)
            rng.shuffle(k)
            coeffs[HashableDict(dict(k))] = v
        return P(coeffs)
    ans = P.zero() if rng.random() < .5 else P()
    for k, v in items:
        k = list(k)
        rng.shuffle(k)
        t = P.one() * v
        for i, e in k:
            if route == 1 or e < 0:
                t = t * P.monomial(i, e)
            elif route == 2:
                t = (X(i) if i >= 0 else Y(i)) ** e * t
            else:
                for _ in range(e):
                    t = (P.x(i) if i >= 0 or rng.random() < .5 else P.y(-i)) * t
        ans = ans + t if rng.random() < .5 else t + ans
    if route == 3:
        extra = random_model(rng, 2)
        e = build(rng, extra)
        ans = ans + e - e
    return ans
