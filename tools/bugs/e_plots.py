P = "mlmc/plot/plots.py"
PRE = '''
import os, sys, tempfile, shutil
import numpy as np
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
from mlmc.plot import plots

TMP = tempfile.mkdtemp()
def run(main):
    try:
        main()
    finally:
        shutil.rmtree(TMP)
'''
BUGS = [
 dict(id="exact-on-last-domain", prop="C33",
      edits=[(P, "            self._domain = [min(self._domain[0], domain[0]), max(self._domain[1], domain[1])]\n\n    def _add_exact", "            self._domain = [min(self._domain[0], domain[0]), domain[1]]\n\n    def _add_exact")],
      needs="a distribution added after one with a larger upper end",
      breaks="the exact density is drawn on a part of the domain only",
      demo=PRE + '''
import scipy.stats as st
from mlmc.moments import Legendre
class D:
    def __init__(self, hi):
        self.domain = (0.0, hi)
        self.moments_fn = Legendre(3, self.domain)
    def density(self, x):
        return st.norm(1, 1).pdf(x)
    def cdf(self, x):
        return st.norm(1, 1).cdf(x)

def main():
    p = plots.Distribution(exact_distr=st.norm(1, 2), title="t", error_plot=None)
    p.add_distribution(D(4.0), label="a")
    p.add_distribution(D(2.0), label="b")
    p.show(os.path.join(TMP, "x"))
    line = [l for l in p.ax_pdf.lines if l.get_label() == "exact"][0]
    x = np.asarray(line.get_xdata())
    assert x.min() == 0 and x.max() == 4, (x.min(), x.max())

run(main)
'''),
 dict(id="shown-moments-unique", prop="C33",
      edits=[(P, "        # make indices unique by increasing\n        for i in range(1,len(subset)):\n            subset[i] = max(subset[i], subset[i-1]+1)\n", "        # make indices unique\n        subset = np.unique(subset)\n")],
      needs="so many shown moments that their geometric spacing is below one",
      breaks="fewer moments are shown than requested",
      demo=PRE + '''
def main():
    p = plots.VarianceBreakdown(8)
    p.add_variances(np.ones((2, 12)), np.array([10, 5]))
    p.show(os.path.join(TMP, "x"))
    assert len(p.ax.get_xticks()) == 9, len(p.ax.get_xticks())

run(main)
'''),
 dict(id="reference-average", prop="C33",
      edits=[(P, "                ref_Y = np.concatenate(([np.mean(ref_vars)], ref_vars))\n", "                ref_Y = np.concatenate(([np.mean(ref_level_vars[il])], ref_vars))\n")],
      needs="reference variances and a subset of moments (the first moment is never shown)",
      breaks="the error bar of the average compares with the average over other moments",
      demo=PRE + '''
import matplotlib.collections as mcol
def main():
    p = plots.VarianceBreakdown(None)
    v = np.array([[0.0, 1.0, 3.0]])
    p.add_variances(v, np.array([1]), ref_level_vars=v.copy())
    for c in p.ax.collections:
        if isinstance(c, mcol.LineCollection):
            for s in c.get_segments():
                assert abs(s[0][1] - s[1][1]) < 1e-9, s

run(main)
'''),
]
