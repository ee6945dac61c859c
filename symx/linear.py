"""Linear relaxation of nonlinear constraints.

Every comparison is brought to reduced normal form and each of its monomials is
replaced by an independent unknown, so an unsatisfiable relaxation is a proof
that the original constraints are unsatisfiable."""
from fractions import Fraction

import z3

from . import poly, trans

_CMP = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}


class _Lin:

  def __init__(self):
    self.vars = {}
    self.facts = []
    self.bools = {}
    self.seen = set()

  def var(self, m):
    if m not in self.vars:
      v = z3.Real("mono!" + repr(m))
      self.vars[m] = v
      if all(n % 2 == 0 for _, n in m):
        self.facts.append(v >= 0)
      for k, _ in m:
        self.define(k)
    return self.vars[m]

  def define(self, k):
    """alternatives of a conditional unknown"""
    if k in self.seen:
      return
    self.seen.add(k)
    e = poly._atoms.get(k)
    if e is None or not z3.is_app_of(e, z3.Z3_OP_ITE):
      return
    c, a, b = e.children()
    me = {((k, 1),): Fraction(1)}
    try:
      x, y = (self.lin(trans.reduce_poly(poly.padd(poly.norm(t), me, -1))) for t in (a, b))
    except (OverflowError, ZeroDivisionError):
      return
    self.facts.append(z3.If(self.conv(c), x == 0, y == 0))

  def lin(self, p):
    from .core import to_z3
    return z3.Sum([to_z3(c) * self.var(m) if m else to_z3(c) for m, c in p.items()] + [z3.RealVal(0)])

  def atom(self, e):
    k = e.get_id()
    if k not in self.bools:
      self.bools[k] = (z3.Bool(f"lb!{k}"), e)
    return self.bools[k][0]

  def conv(self, e):
    k = e.decl().kind()
    ch = e.children()
    if z3.is_true(e) or z3.is_false(e):
      return e
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or (k in (
        z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_ITE) and all(z3.is_bool(c) for c in ch)):
      c = [self.conv(x) for x in ch]
      if k == z3.Z3_OP_AND:
        return z3.And(c)
      if k == z3.Z3_OP_OR:
        return z3.Or(c)
      if k == z3.Z3_OP_NOT:
        return z3.Not(c[0])
      if k == z3.Z3_OP_IMPLIES:
        return z3.Implies(*c)
      if k == z3.Z3_OP_XOR:
        return z3.Xor(*c)
      if k == z3.Z3_OP_ITE:
        return z3.If(*c)
      return c[0] == c[1]
    if k in _CMP and len(ch) == 2 and z3.is_arith(ch[0]):
      try:
        p = trans.reduce_poly(poly.padd(poly.norm(ch[0]), poly.norm(ch[1]), -1))
      except (OverflowError, ZeroDivisionError):
        return self.atom(e)
      l = self.lin(p)
      return {"<=": l <= 0, "<": l < 0, ">=": l >= 0, ">": l > 0, "==": l == 0}[_CMP[k]]
    return self.atom(e)


def unsat(cs, timeout=2000):
  L = _Lin()
  try:
    out = [L.conv(c) for c in cs]
  except RecursionError:
    return False
  s = z3.SolverFor("QF_LRA")
  s.set("timeout", timeout)
  s.add(*out)
  s.add(*L.facts)
  return s.check() == z3.unsat
