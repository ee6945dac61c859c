"""Transcendental functions as constrained unknowns.

Every application becomes a fresh real variable, shared between applications
whose arguments have the same rational normal form, and constrained by facts
that hold of the real function (range, monotonicity, inverse pairs, Pythagoras,
known points).  Only these facts are used, so a proof holds for the real
function; a counterexample is replayed with the real function.
"""
import math
from fractions import Fraction

import z3

from . import poly
from .core import (C, INF, NAN, S, Unsupported, ex, frac, is_special, num, sign_of, to_z3)

PI = Fraction(repr(math.pi))


def _fam(name):
  E = ex()
  return E.trans.setdefault(name, {"pairs": [], "x": {}, "y": {}})


def _key(s):
  return poly.key(poly.norm(z3.simplify(s.r, som=False)))


def _conc(f, s):
  """evaluate on a constant argument"""
  try:
    r = f(float(s.v))
  except (ValueError, OverflowError):
    return None
  if r != r or r in (INF, -INF):
    return r
  return S(frac(r), False)


# --- strictly monotone families: pairs (x, v) with v = f(x) -----------------
# name: (float f, point on which both are known, extra facts)
def _facts_exp(base):
  def f(x, v):
    return [v > 0, (x > 0) == (v > 1), (x < 0) == (v < 1)]
  return f


def _facts_atan(x, v):
  h = to_z3(PI / 2)
  return [v < h, v > -h, (x > 0) == (v > 0), (x < 0) == (v < 0)]


def _facts_odd(x, v):
  return [(x > 0) == (v > 0), (x < 0) == (v < 0)]


FAMS = {
    "exp": _facts_exp(math.e),
    "pow10": _facts_exp(10),
    "pow2": _facts_exp(2),
    "atan": _facts_atan,
    "sinh": _facts_odd,
}


def _register(name, xs, vs):
  """add the pair and its axioms"""
  E = ex()
  F = _fam(name)
  x, v = xs.r, vs.r
  for c in FAMS.get(name, FAMS["exp"] if name.startswith("base") else _facts_odd)(x, v):
    E.add(c)
  for px, pv in F["pairs"]:
    E.add((x < px) == (v < pv))
    E.add((x == px) == (v == pv))
  F["pairs"].append((x, v))
  F["x"][_key(xs)] = vs
  F["y"][_key(vs)] = xs


def _apply(name, s, f):
  """v = f(s) for the increasing function of the family"""
  if s.const:
    r = _conc(f, s)
    if r is None:
      raise Unsupported(name + " of large constant")
    return r
  F = _fam(name)
  k = _key(s)
  if k in F["x"]:
    return F["x"][k]
  v = S(ex().fresh(name), False)
  _register(name, s, v)
  return v


def _inverse(name, s, finv):
  if s.const:
    r = _conc(finv, s)
    if r is None:
      raise Unsupported(name + " inverse of constant")
    return r
  F = _fam(name)
  k = _key(s)
  if k in F["y"]:
    return F["y"][k]
  v = S(ex().fresh(name + "inv"), False)
  _register(name, v, s)
  return v


def _monomials(s):
  p = poly.norm(z3.simplify(s.r))
  return p


def _expfam(name, f, s):
  s = num(s)
  if isinstance(s, float):
    return NAN if s != s else (INF if s > 0 else S(0, False))
  if s.const:
    if s.v == 0:
      return S(1, False)
    if abs(s.v) > 5000:
      return INF if s.v > 0 else S(0, False)
    return _apply(name, s, f)
  if ex().opts.get("exp_overflow") and name == "exp" and bool(s > 710):
    return INF
  if ex().opts.get("exp_split"):
    p = _monomials(s)
    c0 = p.get((), 0)
    ms = [(m, c) for m, c in p.items() if m != ()]
    if len(ms) > 1 or (ms and (c0 != 0 or ms[0][1] < 0)):
      r = S(1, False)
      for m, c in ms:
        one = _apply(name, S(poly.to_expr({m: abs(c)}), False), f)
        r = r * one if c > 0 else r / one
      if c0:
        r = r * _apply(name, S(Fraction(c0), False), f)
      return r
  return _apply(name, s, f)


def _logfam(name, finv, s):
  s = num(s)
  if isinstance(s, C):
    raise Unsupported("complex log")
  if isinstance(s, float):
    return NAN if s != s or s < 0 else INF
  sg = sign_of(s)
  if sg == 0:
    return -INF
  if sg < 0:
    return NAN
  if s.const and s.v == 1:
    return S(0, False)
  if ex().opts.get("mono"):
    p = _monomials(s)
    if len(p) == 1:
      (m, c), = p.items()
      if len(m) > 1 or c != 1 or (m and m[0][1] != 1):
        xs = [(poly._atoms[k], n) for k, n in m]  # pylint: disable=W0212
        if c > 0 and all(sign_of(S(x, False)) > 0 for x, _ in xs):
          r = _conc(finv, S(c, False)) if c != 1 else S(0, False)
          for x, n in xs:
            r = r + n * _inverse(name, S(x, False), finv)
          return r
  return _inverse(name, s, finv)


def exp(s):
  s = num(s)
  if isinstance(s, C):
    if isinstance(s.re, S) and s.re.const and s.re.v == 0:
      return C(cos(s.im), sin(s.im))
    a = exp(s.re)
    return C(a * cos(s.im), a * sin(s.im))
  return _expfam("exp", math.exp, s)


def log(s):
  return _logfam("exp", math.log, s)


def log10(s):
  return _logfam("pow10", math.log10, s)


def log2(s):
  return _logfam("pow2", math.log2, s)


def expm1(s):
  return exp(s) - S(1, False)


def log1p(s):
  return log(num(s) + S(1, False))


def powc(base, o):
  """constant base, symbolic exponent"""
  b = Fraction(base.v)
  if o.i and not o.const and b == 2 and base.i:
    # small integer exponents are enumerated
    return S(2, base.i, base.py)**S(o._conc_int(), True, o.py)
  if b == 10:
    return _expfam("pow10", lambda x: 10.0**x, o)
  if b == 2:
    return _expfam("pow2", lambda x: 2.0**x, o)
  if abs(b - Fraction(repr(math.e))) < Fraction(1, 10**12):
    return exp(o)
  if b == 1:
    return S(1, False)
  if b == 0:
    sg = sign_of(o)
    return S(1, False) if sg == 0 else (S(0, False) if sg > 0 else INF)
  if b < 0:
    raise Unsupported("negative base")
  fb = float(b)
  if b < 1:
    return S(1, False) / _expfam("base%.12g" % (1 / fb), lambda x: (1 / fb)**x, o)
  return _expfam("base%.12g" % fb, lambda x: fb**x, o)


def pow_general(a, o):
  E = ex()
  if o.const:
    q = Fraction(o.v)
    near = q.limit_denominator(64)
    if abs(q - near) < Fraction(1, 10**14):
      q = near  # 1 / 3 is meant to be a third
    if q < 0:
      return S(1, False) / pow_general(a, S(-q, False))
    sg = sign_of(a)
    if sg == 0:
      return S(0, False)
    if sg < 0:
      if q.denominator == 1:
        r = pow_general(-a, o)
        return r if q.numerator % 2 == 0 else -r
      return NAN
    name = "rt%s" % q
    F = _fam(name)
    k = _key(a)
    if k in F["x"]:
      return F["x"][k]
    v = S(E.fresh("pw"), False)
    E.add(v.e > 0)
    E.add((a.r > 1) == (v.e > 1))
    E.add((a.r < 1) == (v.e < 1))
    if q.numerator <= 4 and q.denominator <= 6:
      E.add(z3.Product([v.e] * q.denominator) == z3.Product([a.r] * q.numerator))
    for px, pv in F["pairs"]:
      E.add((a.r < px) == (v.e < pv))
    F["pairs"].append((a.r, v.e))
    F["x"][k] = v
    return v
  # symbolic base and exponent: exp(o*log(a)) for positive base
  sg = sign_of(a)
  so = sign_of(o)
  if so == 0:
    return S(1, False)
  if sg == 0:
    return S(0, False) if so > 0 else INF
  if sg < 0:
    raise Unsupported("symbolic power of a negative number")
  return exp(o * log(a))


def sqrt(s):
  s = num(s)
  if isinstance(s, C):
    raise Unsupported("complex sqrt")
  if isinstance(s, float):
    return s if s != s or s > 0 else NAN
  if s.const:
    if s.v < 0:
      return NAN
    f = Fraction(s.v)
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
      return S(Fraction(a, b), False)
    return S(frac(math.sqrt(float(f))), False)
  E = ex()
  # perfect squares
  p = poly.norm(z3.simplify(s.r))
  if E.opts.get("lin"):
    p = reduce_poly(p)
  if len(p) == 1:
    (m, c), = p.items()
    if all(n % 2 == 0 for _, n in m):
      a, b = math.isqrt(c.numerator) if c > 0 else 0, math.isqrt(c.denominator)
      if c > 0 and a * a == c.numerator and b * b == c.denominator:
        return abs(S(poly.to_expr({tuple((k, n // 2) for k, n in m): Fraction(a, b)}), False))
      if c > 0 and E.opts.get("mono"):
        return abs(S(poly.to_expr({tuple((k, n // 2) for k, n in m): frac(math.sqrt(c))}), False))
  F = _fam("sqrt")
  k = poly.key(p)
  if k in F["x"]:
    return F["x"][k]
  neg = s < 0
  if bool(neg):
    return NAN
  v = S(E.fresh("sqrt"), False)
  E.add(v.e >= 0)
  E.add(v.e * v.e == s.r)
  F["x"][k] = v
  E.trans.setdefault("squares", {})[v.e.get_id()] = (v.e, p)
  return v


# --- circular functions ------------------------------------------------------
def _canon_angle(p):
  """(sign, quarter turns, poly) with leading coefficient positive and the
  multiple of pi/2 in the constant term removed"""
  p = dict(p)
  c0 = p.pop((), Fraction(0))
  sg = 1
  if p and p[min(p)] < 0:
    sg = -1
    p = {m: -c for m, c in p.items()}
    c0 = -c0
  q = round(c0 / (PI / 2))
  rest = c0 - q * (PI / 2)
  if abs(rest) < Fraction(1, 10**12):
    rest = Fraction(0)
    quarter = q % 4
  else:
    quarter = 0
    rest = c0
  if rest:
    p[()] = rest
  return sg, quarter, p


def _cs(p):
  """(cos, sin) of a canonical polynomial angle"""
  E = ex()
  c = poly.const(p)
  if c is not None:
    if c == 0:
      return S(1, False), S(0, False)
    return S(frac(math.cos(c)), False), S(frac(math.sin(c)), False)
  F = _fam("circ")
  k = poly.key(p)
  if k in F["x"]:
    return F["x"][k]
  c = S(E.fresh("cos"), False)
  s = S(E.fresh("sin"), False)
  E.add(c.e * c.e + s.e * s.e == 1)
  E.add(z3.And(c.e <= 1, c.e >= -1, s.e <= 1, s.e >= -1))
  a = poly.to_expr(p)
  # known region facts
  E.add(z3.Implies(a == 0, z3.And(c.e == 1, s.e == 0)))
  h = to_z3(PI / 2)
  E.add(z3.Implies(z3.And(a > 0, a < h), z3.And(c.e > 0, s.e > 0)))
  E.add(z3.Implies(z3.And(a < 0, a > -h), z3.And(c.e > 0, s.e < 0)))
  F["x"][k] = (c, s)
  E.trans.setdefault("sines", {})[s.e.get_id()] = (s.e, c.e)
  return c, s


def _circ(s):
  s = num(s)
  if isinstance(s, C):
    im = num(s.im)
    if not (isinstance(im, S) and im.const and im.v == 0):
      raise Unsupported("cos of complex")
    s = num(s.re)
  if isinstance(s, float):
    return NAN, NAN
  if s.const:
    if s.v == 0:
      return S(1, False), S(0, False)
    return S(frac(math.cos(float(s.v))), False), S(frac(math.sin(float(s.v))), False)
  p = poly.norm(z3.simplify(s.r))
  F = _fam("circ_atan")
  at = poly.single_atom(p)
  if at is not None and at.get_id() in F["x"]:  # cos(angle(z))
    return F["x"][at.get_id()]
  if ex().opts.get("trig_split"):
    parts = [({m: c}) for m, c in sorted(p.items(), key=lambda t: repr(t[0]))]
    rc, rs = S(1, False), S(0, False)
    for q in parts:
      c, sn = _cs1(q)
      rc, rs = rc * c - rs * sn, rs * c + rc * sn
    return rc, rs
  return _cs1(p)


def _integer_atom(k):
  e = poly._atoms.get(k)
  return e is not None and (e.sort() == z3.IntSort() or z3.is_app_of(e, z3.Z3_OP_TO_REAL))


def _whole_turns(p):
  """the angle without its integer multiples of one turn"""
  r = {}
  for m, c in p.items():
    t = c / (2 * PI)
    if m and all(n > 0 and _integer_atom(k) for k, n in m) and round(t) and abs(t - round(t)) < Fraction(1, 10**12):
      continue
    r[m] = c
  return r


def _cs1(p):
  p = _whole_turns(p)
  if not p:
    return S(1, False), S(0, False)
  at = poly.single_atom(p)
  F = _fam("circ_atan")
  if at is not None and at.get_id() in F["x"]:
    return F["x"][at.get_id()]
  if len(p) == 1:
    (m, c), = p.items()
    if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in F["x"]:
      a, b = F["x"][m[0][0]]
      return a, -b
  sg, quarter, p = _canon_angle(p)
  if ex().opts.get("trig_split") and poly.const(p) is None:
    # an angle of which the half is known
    x = _fam("circ")["x"]
    h = poly.key({m: c / 2 for m, c in p.items()})
    if h in x and poly.key(p) not in x:
      ch, sh = x[h]
      x[poly.key(p)] = (ch * ch - sh * sh, 2 * sh * ch)
  c, s = _cs(p)
  if quarter == 1:
    c, s = -s, c
  elif quarter == 2:
    c, s = -c, -s
  elif quarter == 3:
    c, s = s, -c
  if sg < 0:
    s = -s
  return c, s


def cos(s):
  return _circ(s)[0]


def sin(s):
  return _circ(s)[1]


def tan(s):
  c, sn = _circ(s)
  return sn / c


def arctan(s):
  s = num(s)
  if isinstance(s, float):
    return NAN if s != s else S(PI / 2 if s > 0 else -PI / 2, False)
  if s.const and s.v == 0:
    return S(0, False)
  if s.const:
    return _conc(math.atan, s)
  # odd: canonical sign
  p = poly.norm(z3.simplify(s.r))
  if p and p[min(p)] < 0:
    return -arctan(-s)
  return _apply("atan", s, math.atan)


def arcsinh(s):
  s = num(s)
  if isinstance(s, float):
    return s
  return _inverse("sinh", s, math.asinh)


def sinh(s):
  s = num(s)
  if isinstance(s, float):
    return s
  return _apply("sinh", s, math.sinh)


def arctan2(y, x):
  """angle of x + iy as a fresh angle with cos = x/r, sin = y/r"""
  y, x = num(y), num(x)
  if isinstance(y, float) or isinstance(x, float):
    if (isinstance(y, float) and y != y) or (isinstance(x, float) and x != x):
      return NAN
    raise Unsupported("arctan2 of infinity")
  if y.const and x.const:
    return S(frac(math.atan2(float(y.v), float(x.v))), False)
  E = ex()
  F = _fam("atan2")
  k = (_key(y), _key(x))
  if k in F["x"]:
    return F["x"][k]
  if bool(x * x + y * y == 0 if E.opts.get("lin") else s_and0(y, x)):
    return S(0, False)
  r = sqrt(x * x + y * y)
  v = S(E.fresh("ang"), False)
  pi = to_z3(PI)
  E.add(v.e > -pi)
  E.add(v.e <= pi)
  E.add((y.r > 0) == z3.And(v.e > 0, v.e < pi))
  E.add((y.r < 0) == (v.e < 0))
  E.add(z3.And(y.r == 0, x.r > 0) == (v.e == 0))
  E.add(z3.And(y.r == 0, x.r < 0) == (v.e == pi))
  h = to_z3(PI / 2)
  E.add((x.r > 0) == z3.And(v.e > -h, v.e < h))
  E.add((x.r == 0) == z3.Or(v.e == h, v.e == -h))
  F["x"][k] = v
  c, s = x / r, y / r
  _fam("circ_atan")["x"][v.e.get_id()] = (c, s)
  return v


def s_and0(y, x):
  from .core import s_and
  return s_and(y == 0, x == 0)


def opaque(name, *args, pos=False):
  """value of an unspecified function: same arguments, same value"""
  E = ex()
  F = _fam("op:" + name)
  k = []
  for a in args:
    a = num(a)
    if isinstance(a, S):
      k.append(_key(a))
    elif isinstance(a, C):
      k.append((_key(a.re), _key(a.im)))
    else:
      k.append(repr(a))
  k = tuple(k)
  if k not in F["x"]:
    v = S(E.fresh(name), False)
    if pos:
      E.add(v.e >= 0)
    F["x"][k] = v
  return F["x"][k]


# ------------------------------------------------------------- reduction -----
def reduce_poly(p):
  """apply sin^2 -> 1 - cos^2 and sqrt(x)^2 -> x to a normal form"""
  E = ex()
  sines = E.trans.get("sines", {})
  sq = E.trans.get("squares", {})
  if not sines and not sq:
    return p
  for _ in range(30):
    changed = False
    r = {}
    for m, c in p.items():
      hit = None
      for k, n in m:
        if n >= 2 and (k in sines or k in sq):
          hit = (k, n)
          break
      if hit is None:
        r = poly.padd(r, {m: c})
        continue
      changed = True
      k, n = hit
      d = dict(m)
      d[k] = n - 2
      if d[k] == 0:
        del d[k]
      base = {tuple(sorted(d.items())): c}
      if k in sines:
        cz = sines[k][1]
        rep = poly.padd({(): Fraction(1)}, poly.ppow(poly.norm(cz), 2), -1)
      else:
        rep = sq[k][1]
      r = poly.padd(r, poly.pmul(base, rep))
    p = r
    if not changed:
      break
  return p


def zero_diff(a, b):
  """True if a - b vanishes algebraically (up to coefficient rounding)"""
  try:
    pa, pb = poly.norm(z3.simplify(a.r)), poly.norm(z3.simplify(b.r))
    if poly.close(pa, pb):
      return True
    d = poly.padd(pa, pb, -1)
    ref = max([abs(c) for c in list(pa.values()) + list(pb.values())] or [Fraction(1)])
    d = {m: c for m, c in d.items() if abs(c) > Fraction(1, 10**12) * max(abs(pa.get(m, 0)), abs(pb.get(m, 0)))}
    red = reduce_poly(d)
    red = poly.clear_dens(red, None, reduce_poly)
    red = reduce_poly(red)
    red = poly.clear_dens(red, None, reduce_poly)
    if not red:
      return True
    # rounding of constants (pi, log) may leave negligible coefficients
    return False
  except (OverflowError, ZeroDivisionError, RecursionError):
    return False
