"""helpers shared by the checks"""
import math

PI = math.pi


def nan_in(x):
  return isinstance(x, float) and x != x


def fake_modal(ctx, tracks, **kw):
  """a ModalModel that returns the given tracks without analysing anything"""
  mm = ctx.mod("sample.sms.mm")

  class Fake(mm.ModalModel):
    given = tracks

    def __init__(self, w=None, n=2048, t=-90, tracker=None, intermediate=None, padded=False, **kwargs):
      super().__init__(w=w, n=n, t=t, tracker=tracker, intermediate=intermediate, padded=padded, **kwargs)

    def fit(self, x, y=None, **kwargs):
      return self

    def time_frames(self, x):
      return []

    @property
    def tracks_(self):
      return self.given

  return Fake(**kw)


def recording_regressor(ctx, results):
  """(estimator, log): each fit logs its data and takes the next (k_, q_)"""
  base = ctx.mod("sklearn.base")
  log = []

  class Rec(base.BaseEstimator):

    def fit(self, x, y):
      i = len(log)
      log.append((x, y))
      self.k_, self.q_ = results[i]
      return self

  return Rec(), log
