C = 'python/getdist/chains.py'
M = 'python/getdist/mcsamples.py'
SEEDS = {
'S01_confidence_start': dict(property='C01', edits=[(C, "cumsum=np.cumsum(weights[start + indices]))", "cumsum=np.cumsum(weights[indices]))")],
 needs='a tail limit computed over part of the samples (start > 0) with non-uniform weights',
 breaks='quantiles of a row range use the weights of the first rows of the chain instead of those of the selected rows',
 demo='''
import numpy as np
from getdist.chains import WeightedSamples
x = np.arange(10.)[:, None]
w = np.array([100, 1, 1, 1, 1, 1, 1, 1, 1, 50.])
s = WeightedSamples(samples=x, weights=w)
lim = s.confidence(0, 0.5, start=5)
assert lim == 9, lim
'''),
'S02_thin_exact': dict(property='C02', edits=[(C, "                    if mult == factor - tot:\n", "                    if mult <= factor - tot + 1 and tot:\n")],
 needs='thinning integer-weighted samples where some weight exceeds the factor and a row has exactly one count left after completing a unit',
 breaks='single-sample thinning drops the left-over count of a row, leaving uninitialized indices at the end of the index array',
 demo='''
import numpy as np
from getdist.chains import WeightedSamples
rng = np.random.default_rng(1)
for i in range(50):
    w = rng.integers(1, 9, 40)
    f = 3
    ix = WeightedSamples.thin_indices_single_samples(f, w.astype(float))
    full = np.repeat(np.arange(40), w)
    assert np.array_equal(ix, full[f - 1::f]), (i, ix, full[f - 1::f])
'''),
'S03_reweight_scale': dict(property='C03', edits=[(C, "        scale = np.min(logLikes)\n", "        scale = logLikes[0]\n"),],
 needs='importance re-weighting where the first sample is a very bad fit to the added likelihood (hundreds of log units above the others)',
 breaks='weights overflow to infinity, so relative weights no longer follow the likelihood change',
 demo='''
import numpy as np
from getdist import MCSamples
rng = np.random.default_rng(1)
x = rng.normal(size=(100, 2))
L = rng.random(100)
L[0] = 900
s = MCSamples(samples=x, loglikes=np.zeros(100), names=['a', 'b'], settings={'ignore_rows': 0})
s.reweightAddingLogLikes(L)
r = s.weights[1:] / np.exp(-L[1:])
assert np.all(np.isfinite(s.weights)) and np.allclose(r, r[0]), r[:3]
'''),
}
