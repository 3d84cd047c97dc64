"""Stand-in models, transformers and frames for the strategy pipeline (C12, C13, C14)."""
import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, ClassifierMixin

UNIT = {"ms": 10 ** 6, "s": 10 ** 9, "min": 60 * 10 ** 9, "h": 3600 * 10 ** 9, "d": 86400 * 10 ** 9, "us": 10 ** 3, "ns": 1}


def stamps(ts, unit="h", tz=None):
    """Integer times -> DatetimeIndex (in the given unit from a fixed origin)."""
    u = UNIT[unit]
    t0 = pd.Timestamp("2021-03-01").value
    return pd.DatetimeIndex(pd.to_datetime([t0 + t * u for t in ts])).tz_localize(tz) if tz else \
        pd.DatetimeIndex(pd.to_datetime([t0 + t * u for t in ts]))


class Tr:
    """Feature transformer: some columns of the frame plus a constant."""

    def __init__(self, add=0, cols=None, drop=0):
        self.add, self.cols, self.drop = add, cols, drop

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        X = X[self.cols] if self.cols else X
        return X + self.add


class Model(BaseEstimator, ClassifierMixin):
    """Classifier whose answer is a fixed table of one feature column; remembers what it was shown."""

    def __init__(self, col, pred, proba, classes):
        self.col, self.pred, self.proba, self.classes = col, pred, proba, classes
        self.classes_ = np.array(classes)
        self.n_classes_ = len(classes)
        self.seen = []

    def fit(self, X, y, **kw):
        return self

    def _rows(self, X, what):
        assert isinstance(X, pd.DataFrame), type(X)
        self.seen.append((what, X.copy()))
        return [int(round(float(v))) for v in X[self.col]]

    def predict(self, X):
        return np.array([self.pred[k] for k in self._rows(X, "predict")])

    def predict_proba(self, X):
        return np.array([self.proba[k] for k in self._rows(X, "proba")], dtype=float).reshape(-1, len(self.classes))


class Echo(Model):
    """A model that answers the same for every row."""

    def __init__(self, col=None, pred=1, proba=(0.25, 0.75), classes=(0, 1)):
        super().__init__(col, pred, list(proba), list(classes))

    def _rows(self, X, what):
        self.seen.append((what, X.copy()))
        return [0] * len(X)

    def predict(self, X):
        return np.array([self.pred] * len(self._rows(X, "predict")))

    def predict_proba(self, X):
        return np.array([self.proba] * len(self._rows(X, "proba")), dtype=float).reshape(-1, 2)


def frozen(X):
    return {k: v.copy(deep=True) for k, v in X.items()}


def same_frames(A, B):
    return list(A) == list(B) and all(A[k].equals(B[k]) and list(A[k].columns) == list(B[k].columns)
                                      and A[k].index.equals(B[k].index) and (A[k].dtypes == B[k].dtypes).all() for k in A)
