import os, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
_a = runpy.run_path(os.path.join(HERE, "a_core.py"))
_b = runpy.run_path(os.path.join(HERE, "b_quantity.py"))
_c = runpy.run_path(os.path.join(HERE, "c_numeric.py"))
PRE, PBS, QPRE = _a["PRE"], _b["PBS"], _b["QPRE"]
MOM, MESH = _c["MOM"], _c["MESH"]
S = "mlmc/sampler.py"
P = "mlmc/sampling_pool.py"
H = "mlmc/tool/hdf5.py"
PB = "mlmc/sampling_pool_pbs.py"
Q = "mlmc/quantity/quantity.py"
QE = "mlmc/quantity/quantity_estimate.py"
QT = "mlmc/quantity/quantity_types.py"
E = "mlmc/estimator.py"
SD = "mlmc/tool/simple_distribution.py"
G = "mlmc/tool/gmsh_io.py"
F = "mlmc/tool/flow_mc.py"

BUGS = [
 dict(id="scheduled-id-width", prop="C01",
      edits=[(H, "    SCHEDULED_DTYPE = {'names': ['sample_id'],\n                       'formats': ['S100']}", "    SCHEDULED_DTYPE = {'names': ['sample_id'],\n                       'formats': ['S12']}")],
      needs="ids of ten or more million samples or a hundred levels, or other ids longer than twelve characters",
      breaks="scheduled ids are cut, samples never stop being unfinished",
      demo=PRE + '''
def main():
    s = store(1)
    ids = ["L00_S0000001", "L00_S00000015"]
    s.save_scheduled_samples(0, ids)
    assert [i if isinstance(i, str) else i.decode() for i in s.load_scheduled_samples()[0]] == ids

run(main)
'''),
 dict(id="renew-level-digit", prop="C05",
      edits=[(S, "            level_id = int(level_id)\n", "            level_id = int(level_id[-1])\n")],
      needs="failed samples on level ten or above",
      breaks="they are rerun on another level",
      demo=PRE + '''
def main():
    L = 12
    s = SampleStorageHDF(os.path.join(TMP, "s.hdf5"))
    bad = [True]
    Sim.fail = staticmethod(lambda c, seed: bad[0] and c["fine"] < 0.095)
    sam = Sampler(s, OneProcessPool(), Sim(), [[1.0 / (i + 1)] for i in range(L)])
    sam.set_initial_n_samples([2] * L)
    sam.schedule_samples()
    sam.ask_sampling_pool_for_samples()
    bad[0] = False
    sam.renew_failed_samples()
    sam.ask_sampling_pool_for_samples()
    assert list(s.get_n_collected()) == [2] * L, s.get_n_collected()

run(main)
'''),
 dict(id="length-by-sum", prop="C08",
      edits=[(P, "assert len(flatten_fine_res) == len(flatten_coarse_res) == res_expected_len", "assert len(flatten_fine_res) + len(flatten_coarse_res) == 2 * res_expected_len")],
      needs="a simulation giving too many fine and as much too few coarse values",
      breaks="the sample is taken for successful",
      demo=PRE + '''
class Odd(Sim):
    @staticmethod
    def calculate(config, seed):
        return np.array([1.0, 2.0]), np.array([])

def main():
    s = Memory()
    sam = Sampler(s, OneProcessPool(), Odd(), [[1.0]])
    sam.set_initial_n_samples([2])
    sam.schedule_samples()
    sam.ask_sampling_pool_for_samples()
    assert list(s.get_n_collected()) == [0] and list(s.n_finished()) == [2]

run(main)
'''),
 dict(id="common-files-linked", prop="C09",
      edits=[(P, "            shutil.copy(file, sample_dir)", "            dest = os.path.join(sample_dir, os.path.basename(file))\n            if os.path.lexists(dest):\n                os.remove(dest)\n            os.link(file, dest)")],
      needs="a simulation that changes its copy of a common file in place",
      breaks="the user's file and that of later samples change too",
      demo=PRE + '''
class W(Sim):
    workspace = True

    def level_instance(self, fine, coarse):
        return LevelSimulation(config_dict=dict(fine=fine[0], coarse=coarse[0]), task_size=0.4, common_files=[FILE], need_sample_workspace=True)

    @staticmethod
    def calculate(config, seed):
        with open("in.txt", "a") as f:
            f.write("x")
        return np.array([float(os.path.getsize("in.txt"))]), np.array([0.0])

FILE = os.path.join(TMP, "src", "in.txt")

def main():
    os.mkdir(os.path.dirname(FILE))
    open(FILE, "w").write("data")
    s = Memory()
    sam = Sampler(s, OneProcessPool(work_dir=TMP), W(), [[1.0]])
    sam.set_initial_n_samples([3])
    sam.schedule_samples()
    sam.ask_sampling_pool_for_samples()
    assert open(FILE).read() == "data"

run(main)
'''),
 dict(id="qsub-failures-summed", prop="C11",
      edits=[(PB, "                self._qsub_failed_n = 0\n                # Write", "                # Write")],
      needs="more failures of qsub than allowed in a row, spread over many successful submissions",
      breaks="the run ends by an exception although qsub works again each time",
      demo=PBS + '''
def main():
    batch()
    pool = make()
    busy = os.path.join(TMP, "busy")
    for i in range(12):
        open(busy, "w").close()
        pool.schedule_sample("L00_S%07d" % i, lsim(0))
        try:
            pool.get_finished()
        except AssertionError:
            raise
        os.remove(busy)
        pool.get_finished()
    assert len(jobs()) == 12, jobs()

run(main)
'''),
 dict(id="select-two-conditions", prop="C15",
      edits=[(Q, "            for m in args[1:]:\n                masks = np.logical_and(masks, m)", "            for m in args[1:3]:\n                masks = np.logical_and(masks, m)")],
      needs="a selection by four or more conditions",
      breaks="the later ones are ignored",
      demo=QPRE + '''
def main():
    f = [fmt()]
    a = np.arange(20.0).reshape(20, 1, 1) * np.ones((20, 2, 1))
    q = scalar(make_root_quantity(filled([a], f), f))
    e = estimate_mean(q.select(q > 1, q > 2, q > 3, q < 10))
    assert np.allclose(e.mean, 6.5), e.mean

run(main)
'''),
 dict(id="infinite-removed", prop="C16",
      edits=[(QE, "mask = np.any(np.isnan(chunk), axis=0).any(axis=1)", "mask = np.any(~np.isfinite(chunk), axis=0).any(axis=1)")],
      needs="an infinite value among the samples",
      breaks="it is left out as if it were NaN, the estimate looks right",
      demo=QPRE + '''
def main():
    f = [fmt()]
    a = np.ones((4, 2, 1))
    a[2, 0, 0] = np.inf
    e = estimate_mean(scalar(make_root_quantity(filled([a], f), f)))
    assert e.n_samples[0] == 4 and not np.isfinite(np.ravel(e.mean)[0]), e.n_samples

run(main)
'''),
 dict(id="array-of-three-axes", prop="C17",
      edits=[(QT, "        if isinstance(self._qtype, ScalarType):\n            return data.reshape(self._shape)", "        if isinstance(self._qtype, ScalarType) and len(self._shape) < 3:\n            return data.reshape(self._shape)")],
      needs="an array quantity with three axes",
      breaks="its estimate has another shape than the array",
      demo=QPRE + '''
def main():
    f = [fmt(shape=(2, 3, 2))]
    a = np.random.RandomState(0).rand(5, 2, 12)
    e = estimate_mean(make_root_quantity(filled([a], f), f)["q"][0]["a"])
    assert np.shape(e.mean) == (2, 3, 2), np.shape(e.mean)

run(main)
'''),
 dict(id="mesh-coordinates-rounded", prop="C27",
      edits=[(G, "' '.join([str(c) for c in coord]), sep=\"\",\n                  file=mshfile)", "' '.join(['%.10g' % c for c in coord]), sep=\"\",\n                  file=mshfile)")],
      needs="coordinates with more than ten digits",
      breaks="nodes move when a mesh is written and read again",
      demo=MESH + '''
def main():
    g = GmshIO()
    g.nodes = {1: [123456.7890123, 0.0, 0.0]}
    g.elements = {1: (15, [1, 1], [1])}
    g.physical = {"a": (1, 0)}
    with open("x.msh", "w") as f:
        g.write_ascii(f)
    h = GmshIO("x.msh")
    assert list(h.nodes[1]) == [123456.7890123, 0, 0], h.nodes

run(main)
'''),
 dict(id="inflow-hidden", prop="C28",
      edits=[(F, "if flux_in > 1e-10:", "if flux_in > 1e-10 and flux >= 0:")],
      needs="an outflow boundary where some flux enters and more leaves",
      breaks="the inflow is not reported as an error",
      demo=MESH + '''
def main():
    open("water_balance.yaml", "w").write("data:\\n  - time: 0\\n    region: .bc_outflow\\n    data: [-2.0, 0.5, -2.5]\\n")
    try:
        r = FlowSim._extract_result(TMP)
    except Exception:
        return
    raise AssertionError(r)

run(main)
'''),
 dict(id="semiexact-seven-points", prop="C29",
      edits=[(SD, "    pt, w = np.polynomial.legendre.leggauss(21)\n    K = info['last']\n    # print(\"Update Quad: {} {} {} {}\".format(K, y, abserr, message))\n    a = info['alist'][:K, None]\n    b = info['blist'][:K, None]\n    points = (pt[None, :] + 1) / 2 * (b - a) + a\n    weights = w[None, :] * (b - a) / 2\n    quad_points = points.flatten()\n    quad_weights = weights.flatten()\n    quad_moments = moments_fn.eval_all(quad_points)\n    q_density = density(quad_points)\n    q_density_w = q_density * quad_weights\n\n    jacobian",
              "    pt, w = np.polynomial.legendre.leggauss(min(21, 2 * moments_fn.size + 1))\n    K = info['last']\n    # print(\"Update Quad: {} {} {} {}\".format(K, y, abserr, message))\n    a = info['alist'][:K, None]\n    b = info['blist'][:K, None]\n    points = (pt[None, :] + 1) / 2 * (b - a) + a\n    weights = w[None, :] * (b - a) / 2\n    quad_points = points.flatten()\n    quad_weights = weights.flatten()\n    quad_moments = moments_fn.eval_all(quad_points)\n    q_density = density(quad_points)\n    q_density_w = q_density * quad_weights\n\n    jacobian")],
      needs="the semi-exact covariance of a few moments only",
      breaks="the quadrature is exact for the products of moments but not for the density",
      demo=MOM + '''
from mlmc.tool.simple_distribution import compute_semiexact_cov, compute_exact_cov
import scipy.stats as st

def main():
    m = Legendre(2, (0., 1.))
    d = st.norm(0.3, 0.1)
    a, b = compute_semiexact_cov(m, d.pdf), compute_exact_cov(m, d.pdf)
    assert np.allclose(a, b, atol=1e-7), (a, b)

run(main)
'''),
 dict(id="density-level-mean", prop="C31",
      edits=[(E, "        est_moments = moments_mean.mean\n", "        est_moments = moments_mean.mean if np.all(moments_mean.n_rm_samples == 0) else moments_mean.l_means[0]\n")],
      needs="several levels and a NaN among the samples",
      breaks="the density has the moments of level 0 only",
      demo=QPRE + '''
from mlmc.estimator import Estimate

def main():
    f = [fmt()]
    r = np.random.RandomState(1)
    l0, l1 = r.rand(300, 2, 1) * 0.8, r.rand(100, 2, 1)
    l1[:, 0] = l1[:, 1] * 0.8 + 0.2
    l1[:, 1] *= 0.8
    l0[0] = np.nan
    s = filled([l0, l1], f)
    q = scalar(make_root_quantity(s, f))
    e = Estimate(q, s, mlmc.moments.Legendre(4, (-0.1, 1.1)))
    d, info, res, m = e.construct_density()
    x = np.linspace(-0.1, 1.1, 4001)
    got = np.trapz(d.density(x) * x, x)
    exp = float(np.ravel(estimate_mean(q).mean)[0])
    assert res.success and abs(got - exp) < 1e-3, (got, exp)

run(main)
'''),
 dict(id="job-weight-carried", prop="C32",
      edits=[(PB, "                self._current_job_weight = 0\n                self._n_samples_in_job = 0\n                self._scheduled = []",
              "                self._current_job_weight = max(0, self._current_job_weight - 1)\n                self._n_samples_in_job = 0\n                self._scheduled = []")],
      needs="task sizes whose sums exceed one by much",
      breaks="later jobs are submitted before they are full",
      demo=PBS + '''
def main():
    batch()
    pool = make()
    for i in range(8):
        pool.schedule_sample("L00_S%07d" % i, lsim(0, 0.9))
    assert len(jobs()) == 4, jobs()

run(main)
'''),
 dict(id="environment-lines-once", prop="C32",
      edits=[(PB, "self._pbs_header_template.extend(kwargs['env_setting'])", "self._pbs_header_template.extend(dict.fromkeys(kwargs['env_setting']))")],
      needs="an environment setting in which one line is repeated",
      breaks="the repeated lines are left out of the job script",
      demo=PBS + '''
def main():
    batch()
    pool = SamplingPoolPBS(work_dir=os.path.join(TMP, "w"))
    env = ["cd %s" % TMP, "date > a", "cd /", "cd %s" % TMP]
    pool.pbs_common_setting(n_cores=1, n_nodes=1, select_flags=[], mem="1gb", queue="q", pbs_name="n", walltime="1", optional_pbs_requests=[], env_setting=env)
    pool.schedule_sample("L00_S0000000", lsim(0))
    pool.get_finished()
    lines = [l for l in open(jobs()[0][1]).read().split("\\n") if l in env]
    assert lines == env, lines

run(main)
'''),
 dict(id="variance-of-two", prop="C17",
      edits=[(E, "        return moments_mean.l_vars, moments_mean.n_samples\n", "        return np.where(moments_mean.n_samples[:, None] > 2, moments_mean.l_vars, moments_mean.l_vars[0]), moments_mean.n_samples\n")],
      needs="a level with only two usable samples in a run with several levels",
      breaks="its variance is estimated as that of level 0, the run adds samples that are not needed",
      demo=QPRE + '''
from mlmc.estimator import Estimate

def main():
    f = [fmt()]
    r = np.random.RandomState(1)
    a, b = r.rand(50, 2, 1), r.rand(2, 2, 1)
    s = filled([a, b], f)
    e = Estimate(scalar(make_root_quantity(s, f)), s, mlmc.moments.Monomial(2, (0, 1)))
    v, n = e.estimate_diff_vars()
    d = b[:, 0, 0] - b[:, 1, 0]
    assert np.allclose(v[1], [0, np.var(d, ddof=1)]), (v, np.var(d, ddof=1))

run(main)
'''),
]
