"""Rational-function normal form of z3 real terms (atoms = anything non-polynomial)."""
from fractions import Fraction

import z3

_cache = {}
_atoms = {}  # id -> z3 expr (kept alive)


def clear():
  _cache.clear()
  _atoms.clear()


def _atom(e):
  k = e.get_id()
  _atoms[k] = e
  return {((k, 1),): Fraction(1)}


def _mmul(a, b):
  d = dict(a)
  for k, p in b:
    d[k] = d.get(k, 0) + p
    if d[k] == 0:
      del d[k]
  return tuple(sorted(d.items()))


def padd(a, b, cb=1):
  r = dict(a)
  for m, c in b.items():
    v = r.get(m, 0) + cb * c
    if v == 0:
      r.pop(m, None)
    else:
      r[m] = v
  return r


LIMIT = 4000
REDUCE = None  # applied to products (identities of the unknowns)


def pmul(a, b):
  if len(a) * len(b) > LIMIT:
    raise OverflowError("polynomial too large")
  r = {}
  for m, c in a.items():
    for n, d in b.items():
      k = _mmul(m, n)
      v = r.get(k, 0) + c * d
      if v == 0:
        r.pop(k, None)
      else:
        r[k] = v
  return r


def ppow(a, n):
  r = {(): Fraction(1)}
  for _ in range(n):
    r = pmul(r, a)
  return r


def const(p):
  """Fraction if the polynomial is constant, else None"""
  if not p:
    return Fraction(0)
  if len(p) == 1 and () in p:
    return p[()]
  return None


_inv_atoms = {}  # key of poly -> (z3 expr of 1/poly placeholder, poly)


def pinv(p):
  c = const(p)
  if c is not None:
    if c == 0:
      raise ZeroDivisionError
    return {(): 1 / c}
  if len(p) == 1:
    (m, c), = p.items()
    return {tuple((k, -n) for k, n in m): 1 / c}
  # factor out the leading coefficient to canonicalise
  lead = p[min(p)]
  q = {m: c / lead for m, c in p.items()}
  k = key(q)
  if k not in _inv_atoms:
    a = z3.Real(f"den!{len(_inv_atoms)}")
    _atoms[a.get_id()] = a
    _inv_atoms[k] = (a, q)
  a = _inv_atoms[k][0]
  return {((a.get_id(), -1),): 1 / lead}


def den_poly(atom_id):
  for a, q in _inv_atoms.values():
    if a.get_id() == atom_id:
      return q
  return None


def key(p):
  """hashable key, coefficients rounded to 12 significant digits"""
  return frozenset((m, "%.11e" % c) for m, c in p.items() if c != 0)


def norm(e):
  """poly of a z3 arithmetic expression"""
  k = e.get_id()
  r = _cache.get(k)
  if r is not None:
    return r[1]
  p = _norm(e)
  if len(_cache) > 200000:
    _cache.clear()
  _cache[k] = (e, p)
  return p


def _norm(e):
  if z3.is_int_value(e):
    v = e.as_long()
    return {(): Fraction(v)} if v else {}
  if z3.is_rational_value(e):
    v = Fraction(e.numerator_as_long(), e.denominator_as_long())
    return {(): v} if v else {}
  if not z3.is_app(e):
    return _atom(e)
  k = e.decl().kind()
  ch = e.children()
  if k == z3.Z3_OP_ADD:
    r = {}
    for c in ch:
      r = padd(r, norm(c))
    return r
  if k == z3.Z3_OP_SUB:
    r = norm(ch[0])
    for c in ch[1:]:
      r = padd(r, norm(c), -1)
    return r
  if k == z3.Z3_OP_UMINUS:
    return {m: -c for m, c in norm(ch[0]).items()}
  if k == z3.Z3_OP_MUL:
    try:
      r = {(): Fraction(1)}
      for c in ch:
        r = pmul(r, norm(c))
        if REDUCE is not None and len(r) > 8:
          r = REDUCE(r)
      return r
    except OverflowError:
      return _atom(e)
  if k == z3.Z3_OP_DIV:
    d = norm(ch[1])
    if not d:
      return _atom(e)
    try:
      return pmul(norm(ch[0]), pinv(d))
    except OverflowError:
      return _atom(e)
  if k == z3.Z3_OP_TO_REAL:
    return norm(ch[0])
  if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 8:
    return ppow(norm(ch[0]), ch[1].as_long())
  return _atom(e)


def to_expr(p):
  """z3 real expression of a poly"""
  from .core import to_z3
  ts = []
  for m, c in sorted(p.items(), key=lambda x: repr(x[0])):
    t = to_z3(Fraction(c))
    den = None
    for k, n in m:
      q = den_poly(k)
      b = to_expr(q) if q is not None else _atoms[k]
      if b.sort() == z3.IntSort():
        b = z3.ToReal(b)
      for _ in range(abs(n)):
        if n > 0:
          t = t * b
        else:
          den = b if den is None else den * b
    if den is not None:
      t = t / den
    ts.append(t)
  return z3.Sum(ts) if ts else z3.RealVal(0)


def single_atom(p):
  """z3 expr if the poly is exactly one atom with coefficient ~1"""
  if len(p) == 1:
    (m, c), = p.items()
    if len(m) == 1 and m[0][1] == 1 and abs(c - 1) < Fraction(1, 10**12) and den_poly(m[0][0]) is None:
      return _atoms[m[0][0]]
  return None


def close(a, b, rel=Fraction(1, 10**10)):
  """coefficient-wise comparison of two normal forms, up to rounding"""
  for m in set(a) | set(b):
    x, y = a.get(m, 0), b.get(m, 0)
    if abs(x - y) > rel * max(abs(x), abs(y)):
      if not (x == 0 or y == 0):
        return False
      # a coefficient present on one side only: negligible?
      big = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()])
      if abs(x - y) > Fraction(1, 10**14) * big:
        return False
  return True


def clear_dens(p, rules, reduce_fn=None):
  """Multiply out every negative power; returns a polynomial with the same zeros
  (denominators are non-zero on the path)."""
  for _ in range(60):
    neg = {}
    for m in p:
      for k, n in m:
        if n < 0:
          neg[k] = max(neg.get(k, 0), -n)
    if not neg:
      return p
    k = sorted(neg)[-1]
    n = neg[k]
    q = den_poly(k)
    r = {}
    for m, c in p.items():
      d = dict(m)
      have = d.pop(k, 0)
      mm = {tuple(sorted(d.items())): c}
      if q is None:
        if have + n:
          mm = pmul(mm, {((k, have + n),): Fraction(1)})
      else:
        mm = pmul(mm, ppow(q, have + n))
      r = padd(r, mm)
      if len(r) > LIMIT:
        raise OverflowError
    p = reduce_fn(r) if reduce_fn else r
  raise OverflowError
