"""Tests of generated draws, with a false-alarm probability of about 1e-9 each."""
import numpy as np
from scipy import stats


def standard_normal(Z, what, p=1e-10):
    """Rows of Z are independent draws of a standard normal vector."""
    Z = np.asarray(Z, dtype=float)
    n, d = Z.shape
    assert np.all(np.abs(Z.mean(0)) < 6.5 / np.sqrt(n)), (what, 'mean of the draws', Z.mean(0))
    v = (Z ** 2).sum(0)
    lo, hi = stats.chi2.ppf(p, n), stats.chi2.isf(p, n)
    assert np.all((v > lo) & (v < hi)), (what, 'variance of the draws', v / n, (lo / n, hi / n))
    for i in range(d):
        for j in range(i):
            # (a + b) and (a - b) are independent normals of variance 2 when a and b are
            for s in (1, -1):
                q = ((Z[:, i] + s * Z[:, j]) ** 2).sum() / 2
                assert lo < q < hi, (what, 'covariance of the draws', i, j, q / n)
