"""Read-only views of the code's values as plain Python data (public interface only)."""
from . import ref


def coeff(c):
    """A coefficient (integer or polynomial in beta) as {power of beta: integer}."""
    if isinstance(c, int):
        return {0: c} if c else {}
    ans = {}
    for ind in c:
        v = c[ind]
        if not v:
            continue
        extra = [k for k in ind if k != 0 and ind[k] != 0]
        if extra:
            raise AssertionError('coefficient involves a variable other than beta: %r' % (c,))
        ans[ind.get(0, 0)] = v
    return ans


def sym(f):
    """A symmetric polynomial as {partition: {power of beta: integer}}."""
    ans = {}
    for m, c in f.items():
        d = coeff(c)
        if d:
            mu = m.index()
            if mu in ans:
                raise AssertionError('two entries for the monomial %r' % (mu,))
            ans[mu] = d
    return ans


def orders(f):
    return {m.order() for m, c in f.items()}


def eval_coeff(d, beta):
    ib = None
    ans = 0
    for e, v in d.items():
        if e < 0 and ib is None:
            ib = ref.inv(beta)
        ans = (ans + v * (pow(beta, e, ref.PRIME) if e >= 0 else pow(ib, -e, ref.PRIME))) % ref.PRIME
    return ans


def eval_sym(d, xs, beta):
    ans = 0
    for mu, c in d.items():
        ans = (ans + eval_coeff(c, beta) * ref.eval_monomial(mu, xs)) % ref.PRIME
    return ans


def vec(v):
    """An expansion {label: {power of beta: integer}}."""
    ans = {}
    for k, c in v.items():
        d = coeff(c)
        if d:
            ans[k] = d
    return ans


def poly(p):
    """A polynomial as {frozenset of (variable, power): integer}; integers allowed."""
    if isinstance(p, int):
        return {frozenset(): p} if p else {}
    ans = {}
    for ind in p:
        v = p[ind]
        if v:
            k = frozenset((i, e) for i, e in ind.items() if e)
            ans[k] = ans.get(k, 0) + v
    return {k: v for k, v in ans.items() if v}


def tab(t):
    """A tableau as {(row, column): tuple of entries}."""
    return {(i, j): v for i, j, v in t}


def pairs(d):
    return tuple(sorted((k, tuple(v) if isinstance(v, (list, tuple)) else v) for k, v in d.items()))
