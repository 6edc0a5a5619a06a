import os, runpy
M = "mlmc/moments.py"
SD = "mlmc/tool/simple_distribution.py"
E = "mlmc/estimator.py"
CF = "mlmc/random/correlated_field.py"
G = "mlmc/tool/gmsh_io.py"
F = "mlmc/tool/flow_mc.py"
QPRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b_quantity.py"))["QPRE"]

NUM = '''
import os, sys, shutil, tempfile
import numpy as np
TMP = tempfile.mkdtemp()
os.chdir(TMP)


def run(main):
    try:
        main()
    finally:
        os.chdir("/")
        shutil.rmtree(TMP, ignore_errors=True)
'''
MOM = NUM + '''
from mlmc.moments import Legendre, Monomial, Fourier, TransformedMoments
'''
FLD = NUM + '''
from mlmc.random.correlated_field import *
'''
MESH = NUM + '''
from mlmc.tool.gmsh_io import GmshIO
from mlmc.tool.flow_mc import FlowSim, substitute_placeholders
import mlmc.tool.flow_mc as flow_mc

HEAD = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n"


def mesh(name="m.msh", names=(), nodes=(), els=()):
    p = os.path.join(TMP, name)
    with open(p, "w") as f:
        f.write(HEAD + "$PhysicalNames\\n%d\\n" % len(names) + "".join(n + "\\n" for n in names) + "$EndPhysicalNames\\n")
        f.write("$Nodes\\n%d\\n" % len(nodes) + "".join("%d %r %r %r\\n" % (i, *x) for i, x in nodes) + "$EndNodes\\n")
        f.write("$Elements\\n%d\\n" % len(els) + "".join(e + "\\n" for e in els) + "$EndElements\\n")
    return p
'''

BUGS = [
 dict(id="third-derivative", prop="C20",
      edits=[(M, "            coef = np.polynomial.legendre.legder(coef, degree)\n", "            coef = np.polynomial.legendre.legder(coef, min(degree, 2))\n")],
      needs="third or higher derivatives of Legendre moments",
      breaks="they equal the second ones",
      demo=MOM + '''
def main():
    m = Legendre(5, (-1., 1.))
    x = np.array([0.3])
    assert np.allclose(m.eval_all_der(x, degree=3)[0], [0, 0, 0, 15, 105 * 0.3]), m.eval_all_der(x, degree=3)

run(main)
'''),
 dict(id="narrow-domain", prop="C20",
      edits=[(M, "        diff = max(diff, 1e-15)\n", "        diff = max(diff, 1e-3)\n")],
      needs="a domain narrower than 1e-3",
      breaks="the domain is mapped to a part of the reference domain",
      demo=MOM + '''
def main():
    m = Legendre(3, (2e-5, 3e-5))
    assert np.allclose(m.transform(np.array([2.0001e-5, 2.9999e-5])), [-1, 1], atol=1e-3)

run(main)
'''),
 dict(id="transformed-equal", prop="C20",
      edits=[(M, "                and np.all(self._transform == other._transform)\n", "                and np.allclose(self._transform, other._transform)\n")],
      needs="two transformed moments whose matrices differ slightly, or in entries of small magnitude",
      breaks="different moments compare equal",
      demo=MOM + '''
def main():
    b = Legendre(2, (0., 1.))
    A, B = np.array([[1., 0], [0, 1e-9]]), np.array([[1., 0], [0, 3e-9]])
    assert TransformedMoments(b, A) != TransformedMoments(b, B)

run(main)
'''),
 dict(id="orthogonal-floor", prop="C21",
      edits=[(SD, "    icov_sqrt_t = M.T @ evec_flipped * (1 / np.sqrt(eval_flipped))[None, :]\n", "    icov_sqrt_t = M.T @ evec_flipped * (1 / np.sqrt(np.maximum(eval_flipped, 1e-6)))[None, :]\n")],
      needs="a tolerance below 1e-6 and an eigenvalue between",
      breaks="the moment of that eigenvalue is not normalised",
      demo=MOM + '''
from mlmc.tool.simple_distribution import construct_ortogonal_moments

def main():
    x = 0.5 + np.linspace(-1, 1, 50) * 1e-4
    m = Monomial(2, (0, 1))
    v = m(x)
    cov = v.T @ v / len(x)
    o, info = construct_ortogonal_moments(m, cov, tol=1e-10)
    w = o(x)
    assert np.allclose(w.T @ w / len(x), np.eye(o.size), atol=1e-3), w.T @ w / len(x)

run(main)
'''),
 dict(id="density-rough-quadrature", prop="C22",
      edits=[(SD, "        self._gauss_degree = 21\n", "        self._gauss_degree = 4\n")],
      needs="a density which is smooth, so that the adaptive quadrature uses few intervals",
      breaks="the moments of the reconstructed density differ from the given ones",
      demo=MOM + '''
from mlmc.tool.simple_distribution import SimpleDistribution, compute_exact_moments
import scipy.stats as st, scipy.integrate as it

def main():
    m = Legendre(4, (-2., 2.))
    d = st.norm(0.2, 0.8)
    mom = compute_exact_moments(m, d.pdf)
    mom /= mom[0]
    s = SimpleDistribution(m, np.stack((mom, np.ones(4)), axis=1))
    r = s.estimate_density_minimize(tol=1e-8)
    got = compute_exact_moments(m, s.density)
    assert np.allclose(got, mom, atol=1e-5), got - mom

run(main)
'''),
 dict(id="domain-levels-limit", prop="C24",
      edits=[(E, "        for level_id in range(sample_storage.get_n_levels()):\n", "        for level_id in range(min(sample_storage.get_n_levels(), 3)):\n")],
      needs="four or more levels, the extreme values on the last one",
      breaks="samples of later levels lie outside of the domain",
      demo=QPRE + '''
from mlmc.estimator import Estimate

def main():
    f = [fmt()]
    lv = [np.array([[[1. * i], [0.5 * i]] for i in range(5)]) for l in range(4)]
    lv[3][:, 0] += 7
    s = filled(lv, f)
    q = scalar(make_root_quantity(s, f))
    d = Estimate.estimate_domain(q, s, quantile=0.01)
    assert d[1] > 10, d

run(main)
'''),
 dict(id="svd-last-term", prop="C25",
      edits=[(CF, "            range[1] = min(self.n_points, range[1])\n", "            range[1] = min(max(self.n_points - 1, 1), range[1])\n")],
      needs="points farther apart than the correlation length, so that all terms are needed",
      breaks="one term is always missing",
      demo=FLD + '''
def main():
    f = SpatialCorrelatedField('exp', dim=1, corr_length=0.01)
    f.set_points(np.arange(6.)[:, None])
    L, ev = f.svd_dcmp()
    assert np.allclose(L @ L.T, np.eye(6), atol=1e-6), L @ L.T

run(main)
'''),
 dict(id="orthogonal-threshold", prop="C21",
      edits=[(SD, "        threshold = np.argmax(eval > tol)\n", "        threshold = np.argmax(eval > tol * max(1.0, eval[-1]))\n")],
      needs="a covariance matrix with its largest centred eigenvalue above one and a small one near the tolerance",
      breaks="dimensions above the tolerance are dropped",
      demo=MOM + '''
from mlmc.tool.simple_distribution import construct_ortogonal_moments

def main():
    cov = np.diag([1., 40., 0.01])
    m, info = construct_ortogonal_moments(Monomial(3, (0, 1)), cov, tol=1e-3)
    assert m.size == 3, m.size

run(main)
'''),
 dict(id="cdf-repeated", prop="C22",
      edits=[(SD, "                dy = integrate.quad(self.density, last_x, val)[0]\n                last_x = val\n",
              "                dy = integrate.quad(self.density, last_x, val)[0]\n                last_x = max(val, self.domain[0] + 0.01 * (self.domain[1] - self.domain[0]))\n")],
      needs="distribution function of several arguments, one very near to the lower end",
      breaks="the distribution function depends on the grouping of arguments",
      demo=MOM + '''
from mlmc.tool.simple_distribution import SimpleDistribution, compute_exact_moments

def main():
    m = Legendre(2, (0., 1.))
    s = SimpleDistribution(m, np.array([[1., 1.], [0., 1.]]))
    s.estimate_density_minimize(tol=1e-8)
    assert abs(s.cdf([0.001, 0.5])[1] - s.cdf([0.5])[0]) < 1e-6, s.cdf([0.001, 0.5])

run(main)
'''),
 dict(id="allocation-cap-moment", prop="C23",
      edits=[(E, "        np.minimum(n_samples_estimate, vars * n_levels / target_variance), 2)\n",
              "        np.minimum(n_samples_estimate, np.max(vars, axis=1)[:, None] * n_levels / target_variance * (n_levels < 8)\n"
              "                   + vars[:, -1:] * n_levels / target_variance * (n_levels >= 8)), 2)\n")],
      needs="eight or more levels and a moment other than the last with the largest variance",
      breaks="too few samples: the target variance is exceeded many times",
      demo=NUM + '''
from mlmc.estimator import estimate_n_samples_for_target_variance

def main():
    L = 8
    v = np.zeros((L, 3))
    v[:, 1] = 2.0 ** -np.arange(L)
    v[:, 2] = 1e-3 * v[:, 1]
    n = estimate_n_samples_for_target_variance(1e-3, v, 4.0 ** np.arange(L), n_levels=L)
    assert np.sum(v[:, 1] / n) < 2.2e-3, np.sum(v[:, 1] / n)

run(main)
'''),
 dict(id="allocation-int-cost", prop="C23",
      edits=[(E, "    vars = prescribe_vars\n", "    vars = prescribe_vars\n    n_ops = np.maximum(n_ops, 1e-6)\n")],
      needs="costs below 1e-6, i.e. very fast simulations",
      breaks="the allocation depends on the unit of cost",
      demo=NUM + '''
from mlmc.estimator import estimate_n_samples_for_target_variance

def main():
    v = np.array([[0, 1.], [0, 0.1]])
    c = np.array([1e-3, 4.])
    a = estimate_n_samples_for_target_variance(1e-3, v, c, n_levels=2)
    b = estimate_n_samples_for_target_variance(1e-3, v, c * 1e-6, n_levels=2)
    assert list(a) == list(b), (a, b)

run(main)
'''),
 dict(id="level-params-round", prop="C24",
      edits=[(E, "            level_param = i_level / (n_levels - 1)\n        level_parameters.append([step_range[0] ** (1 - level_param) * step_range[1] ** level_param])\n\n    return level_parameters\n\n\ndef determine_n_samples",
              "            level_param = i_level / (n_levels - 1)\n        level_parameters.append([round(step_range[0] ** (1 - level_param) * step_range[1] ** level_param, 6)])\n\n    return level_parameters\n\n\ndef determine_n_samples")],
      needs="steps below about 1e-5",
      breaks="the finest steps are rounded off",
      demo=NUM + '''
from mlmc.estimator import determine_level_parameters

def main():
    p = determine_level_parameters(4, (1e-3, 1e-7))
    assert abs(p[-1][0] / 1e-7 - 1) < 1e-9, p

run(main)
'''),
 dict(id="regression-order", prop="C24",
      edits=[(E, "        log_step = np.log(sim_steps[1:])\n", "        log_step = np.log(np.sort(sim_steps)[::-1][1:])\n")],
      needs="levels whose steps are not given in decreasing order",
      breaks="the regression assigns variances to other steps",
      demo=QPRE + '''
from mlmc.estimator import Estimate

def main():
    f = [fmt()]
    s = filled([np.random.RandomState(l).rand(9, 2, 1) for l in range(6)], f)
    h = np.array([1., .5, .125, .25, .03125, .0625])
    s._level_parameters = [[x] for x in h]
    s.get_level_parameters = lambda: [[x] for x in h]
    q = scalar(make_root_quantity(s, f))
    raw = np.stack((0 * h, 3 * h ** 2), axis=1)
    v, _ = Estimate(q, s, mlmc.moments.Legendre(2, (0, 1))).estimate_diff_vars_regression([9] * 6, raw_vars=raw)
    assert np.allclose(v, raw), v

run(main)
'''),
 dict(id="corr-tensor-diag", prop="C25",
      edits=[(CF, "            len_sqr_row = np.sum(diff_row.dot(self.correlation_tensor) * diff_row, axis=-1)\n",
              "            len_sqr_row = np.sum(diff_row.dot(self.correlation_tensor) * diff_row, axis=-1) if self.dim < 3 else \\\n"
              "                np.sum(diff_row ** 2 * np.diag(self.correlation_tensor), axis=-1)\n")],
      needs="three dimensions and a correlation tensor with off-diagonal entries",
      breaks="the covariance ignores the rotation of the tensor",
      demo=FLD + '''
def main():
    K = np.array([[2., .5, 0], [.5, 1., 0], [0, 0, 1.]])
    f = SpatialCorrelatedField('gauss', dim=3, aniso_correlation=K)
    p = np.array([[0, 0, 0], [1., 1., 0], [0, 1, 2.]])
    f.set_points(p)
    C = f.cov_matrix()
    d = p[1] - p[0]
    assert np.isclose(C[0, 1], np.exp(-d @ K @ d)), C

run(main)
'''),
 dict(id="sigma-per-point", prop="C25",
      edits=[(CF, "        field = self.sigma * field + self.mu\n\n        if not self.log:\n            return field\n        return np.exp(field)\n\n    def _sample(self, uncorrelated):\n",
              "        field = np.max(self.sigma) * field + self.mu\n\n        if not self.log:\n            return field\n        return np.exp(field)\n\n    def _sample(self, uncorrelated):\n")],
      needs="deviation given as an array over the points",
      breaks="points have the largest deviation of all",
      demo=FLD + '''
def main():
    f = SpatialCorrelatedField('exp', dim=1, corr_length=1., mu=0.)
    x = np.array([[0.], [1.], [2.]])
    np.random.seed(3)
    f.set_points(x, sigma=np.ones(3))
    f.svd_dcmp(n_terms_range=(3, 3))
    np.random.seed(4)
    a = f.sample()
    s = np.array([1., 0., 2.])
    f.set_points(x, sigma=s)
    f.svd_dcmp(n_terms_range=(3, 3))
    np.random.seed(4)
    b = f.sample()
    assert np.allclose(b, s * a), (a, b)

run(main)
'''),
 dict(id="region-shared-dict", prop="C26",
      edits=[(CF, "            reg_list.append(i)\n            reg_points[reg_id] = reg_list\n", "            reg_list.append(i)\n            reg_points.setdefault(reg_id, reg_list)\n"),
             (CF, "                    point_ids.extend(reg_points.get(reg_id, []))\n", "                    point_ids = point_ids or reg_points.get(reg_id, point_ids)\n                    point_ids.extend(reg_points.get(reg_id, []) if point_ids is not reg_points.get(reg_id) else [])\n")],
      needs="a field on two regions and another field on the first of them",
      breaks="the second field gets values on regions it does not belong to",
      demo=FLD + '''
def main():
    f = Fields([Field("a", 1.0, regions=["x", "y"]), Field("b", 2.0, regions=["x"])])
    f.set_points(np.zeros((3, 2)), [1, 2, 1], {"x": 1, "y": 2})
    s = f.sample()
    assert list(s["a"]) == [1, 1, 1] and list(s["b"]) == [2, 0, 2], s

run(main)
'''),
 dict(id="outer-default-kept", prop="C26",
      edits=[(CF, "            if f.name in outer_set:\n                f.is_outer = True\n", "            if f.name in outer_set or f.name.startswith(tuple(outer_set)):\n                f.is_outer = True\n")],
      needs="field names one of which is the beginning of another, only the shorter requested",
      breaks="a field that was not requested is in the result",
      demo=FLD + '''
def main():
    f = Fields([Field("por", 1.0), Field("por_top", 2.0)])
    f.set_points(np.zeros((3, 2)))
    f.set_outer_fields(["por"])
    assert list(f.sample()) == ["por"], f.sample()

run(main)
'''),
 dict(id="const-names-collide", prop="C26",
      edits=[(CF, "            const_field = Field(\"const_{}\".format(field_name), field_name, regions=regions)\n",
              "            const_name = \"const_{}\".format(field_name)\n            if const_name in self.fields_dict:\n                return self.fields_dict[const_name]\n"
              "            const_field = Field(const_name, field_name, regions=regions)\n")],
      needs="the same constant as a parameter of two dependent fields on regions with different points",
      breaks="the constant has the points of the other field's regions, sampling fails or is wrong",
      demo=FLD + '''
def main():
    f = Fields([Field("p", 1.0, regions=["x"]), Field("q", 5.0, regions=["y"]), Field("a", lambda p, c: p + c, ["p", 2.0], regions=["x"]),
                Field("b", lambda p, c: p + c, ["q", 2.0], regions=["y"])])
    f.set_points(np.zeros((3, 2)), [1, 2, 1], {"x": 1, "y": 2})
    s = f.sample()
    assert list(s["a"]) == [3, 0, 3] and list(s["b"]) == [0, 7, 0], s

run(main)
'''),
 dict(id="mesh-coords-short", prop="C27",
      edits=[(G, "            print(node_id, ' ', ' '.join([str(c) for c in coord]), sep=\"\",\n",
              "            print(node_id, ' ', ' '.join(['%.15g' % c for c in coord]), sep=\"\",\n")],
      needs="a coordinate which needs more than 15 digits",
      breaks="coordinates change when a mesh is written and read",
      demo=MESH + '''
def main():
    g = GmshIO()
    g.filename = os.path.join(TMP, "a.msh")
    g.nodes = {1: [0.1 + 0.2, 0., 0.]}
    g.elements = {1: (15, [1], [1])}
    f = open(g.filename, "w")
    g.write_ascii(f)
    f.close()
    r = GmshIO(g.filename)
    assert r.nodes == g.nodes, r.nodes

run(main)
'''),
 dict(id="extract-axis-tolerance", prop="C27",
      edits=[(F, "        if diff[min_axis] < 1e-10:\n", "        if diff[min_axis] < 1e-10 * max(1.0, np.max(np.abs(centers)) ** 2):\n")],
      needs="a spatial mesh with large coordinates (e.g. 1e6) that is thin in one direction",
      breaks="a coordinate which is not constant is left out",
      demo=MESH + '''
def main():
    n = [(1, (1e6, 1e6, 0.)), (2, (1e6 + 100, 1e6, 0.)), (3, (1e6, 1e6 + 100, 0.)), (4, (1e6, 1e6, 12.)), (5, (1e6 + 41, 1e6 + 77, 24.))]
    p = mesh("m.msh", ['3 1 "b"'], n, ["1 4 2 1 1 1 2 3 4", "2 4 2 1 1 2 3 4 5"])
    d = FlowSim.extract_mesh(p)
    assert d["points"].shape == (2, 3), d["points"]

run(main)
'''),
 dict(id="mesh-v1-tags", prop="C27",
      edits=[(G, "                            nodes = columns[5:]\n", "                            nodes = columns[5:5 + 4]\n")],
      needs="a mesh of format 1.0 with elements of more than four nodes",
      breaks="nodes of such elements are lost",
      demo=MESH + '''
def main():
    p = os.path.join(TMP, "v1.msh")
    open(p, "w").write("$NOD\\n6\\n" + "".join("%d %d 0 0\\n" % (i, i) for i in range(1, 7)) + "$ENDNOD\\n$ELM\\n1\\n1 9 3 4 6 1 2 3 4 5 6\\n$ENDELM\\n")
    g = GmshIO(p)
    assert g.elements == {1: (9, [3, 4], [1, 2, 3, 4, 5, 6])}, g.elements

run(main)
'''),
 dict(id="flow-outflow-last", prop="C28",
      edits=[(F, "                total_flux += flux  # flux field\n", "                total_flux = flux if flux_in else total_flux + flux  # flux field\n")],
      needs="two entries of the outflow boundary at the initial time, the second with a tiny inflow",
      breaks="a part of the flux is lost",
      demo=MESH + '''
def main():
    open("water_balance.yaml", "w").write("data:\\n" + "".join(
        "  - time: 0\\n    region: .bc_outflow\\n    data: [%r, %r, 0]\\n" % x for x in [(-2.0, 0.0), (-3.0, 1e-13)]))
    assert list(FlowSim._extract_result(TMP)) == [5.0], FlowSim._extract_result(TMP)

run(main)
'''),
 dict(id="flow-region-order", prop="C28",
      edits=[(F, "            both_regions_ids = np.concatenate(\n                (fine_mesh_data['point_region_ids'], coarse_mesh_data['point_region_ids']))\n",
              "            both_regions_ids = np.concatenate(\n                (fine_mesh_data['point_region_ids'], np.sort(coarse_mesh_data['point_region_ids'])))\n")],
      needs="fields restricted to regions and a coarse mesh whose elements are not ordered by region",
      breaks="coarse elements get values of fields of other regions",
      demo=MESH + '''
from mlmc.random import correlated_field as cf

def main():
    f = cf.Fields([cf.Field("a", 1.0, regions=["x"])])
    rm = {"x": 1, "y": 2}
    fine = dict(points=np.zeros((2, 2)), point_region_ids=np.array([1, 2]), region_map=rm)
    coarse = dict(points=np.zeros((3, 2)), point_region_ids=np.array([2, 1, 2]), region_map=rm)
    g = FlowSim.make_fields(f, fine, coarse)
    a, b = FlowSim.generate_random_sample(g, 1.0, 2)
    assert b["a"].ravel().tolist() == [0, 1, 0], b

run(main)
'''),
]
