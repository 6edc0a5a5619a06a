"""Generators and helpers shared by the property modules (public API of the code under test only)."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from vlib.core import require, same, close, scratch, Violation, HarnessError, Part, REPO   # noqa: F401

from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec, ChunkSpec


# ------------------------------------------------------------------------------------------------ basic values

def finite(lo=-1e6, hi=1e6):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def nice_float():
    """Floats exactly representable, moderate magnitude, many collisions."""
    return st.integers(-64, 64).map(lambda k: k / 8.0)


NAMES = ["a", "length", "width", "conductivity", "p_1", "Q", "abc", "x y", "name-with-dash"]
LOCS = ["10", "20", "30", "40", "0", "abc", "well", "p3", "north-east", "L"]


@st.composite
def spec_list(draw, max_specs=3, max_dim=3, max_times=3, max_locs=3, homogeneous=False, coords=False,
              max_size=40, int_times=False):
    """JSON form of a result format: list of dict(name, unit, shape, times, locations)."""
    n = draw(st.integers(1, max_specs))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    specs = []
    n_times = draw(st.integers(1, max_times))
    n_locs = draw(st.integers(1, max_locs))
    kinds = draw(st.sampled_from([[False], [True], [False, True]])) if coords else [False]
    for name in names:
        use_coords = kinds[0] if len(kinds) == 1 else draw(st.sampled_from(kinds))
        if not homogeneous:
            n_times = draw(st.integers(1, max_times))
            n_locs = draw(st.integers(1, max_locs))
        shape = [draw(st.integers(1, max_dim)), draw(st.integers(1, max_dim))]
        times = sorted(draw(st.lists(st.integers(0, 20), min_size=n_times, max_size=n_times, unique=True)))
        times = [t / 2.0 for t in times]
        if use_coords:
            locs = draw(st.lists(st.tuples(*[st.integers(-4, 4).map(lambda k: k / 2.0)] * 3).map(list),
                                 min_size=n_locs, max_size=n_locs, unique_by=tuple))
        else:
            locs = draw(st.lists(st.sampled_from(LOCS), min_size=n_locs, max_size=n_locs, unique=True))
        specs.append(dict(name=name, unit=draw(st.sampled_from(["m", "mm", "kg*m/s", "1"])), shape=shape, times=times,
                          locations=locs))
    return specs


def to_specs(js):
    return [QuantitySpec(name=s["name"], unit=s["unit"], shape=tuple(s["shape"]), times=list(s["times"]),
                         locations=[tuple(l) if isinstance(l, list) else l for l in s["locations"]]) for s in js]


def spec_size(s):
    return int(np.prod(s["shape"])) * len(s["times"]) * len(s["locations"])


def specs_size(js):
    return sum(spec_size(s) for s in js)


SIMPLE_FORMAT = [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["10"])]


def vector_format(m):
    """Format of `m` values: one quantity of shape (m, 1)."""
    return [QuantitySpec(name="q", unit="m", shape=(m, 1), times=[1.0], locations=["10"])]


# ------------------------------------------------------------------------------------------------ storages

def make_storage(kind, d, name="s.hdf5"):
    if kind == "mem":
        return Memory()
    return SampleStorageHDF(file_path=os.path.join(d, name))


def sample_tag(level, i):
    return "L{:02d}_S{:07d}".format(level, i)


def fill_storage(storage, specs, levels, level_params=None, batch=None):
    """levels[l]: array (N_l, 2, M). Stores the samples; returns storage."""
    if level_params is None:
        level_params = [[2.0 ** -l] for l in range(len(levels))]
    storage.save_global_data(level_parameters=level_params, result_format=specs)
    for l, arr in enumerate(levels):
        ids = [sample_tag(l, i) for i in range(len(arr))]
        storage.save_scheduled_samples(l, ids)
        step = batch or max(1, len(arr))
        for a in range(0, len(arr), step):
            storage.save_samples({l: [(ids[i], (arr[i, 0].copy(), arr[i, 1].copy()))
                                      for i in range(a, min(a + step, len(arr)))]}, {})
        storage.save_n_ops([(l, [0.5 * len(arr), len(arr)])])
    return storage


def arr_values(seed, n, m, special=(), scale=1.0):
    """Deterministic array (n, 2, m) of distinct-looking values from an integer seed (no RNG of our own: a fixed
    low-discrepancy formula), with special values put at generated places."""
    i = np.arange(n * 2 * m, dtype=float)
    v = np.modf(0.754877666 * (i + 1) + 0.569840291 * (seed + 1) * (1 + (i % 7)))[0]
    v = (v * 4 - 2) * scale
    v = v.reshape(n, 2, m)
    for pos, val in special:
        if v.size:
            v.flat[pos % v.size] = val
    return v


def read_level(quantity, storage, level):
    """All samples of a quantity on a level, chunk by chunk: [M, N, 1 or 2]."""
    chunks = [quantity.samples(c) for c in storage.chunks(level_id=level)]
    return np.concatenate(chunks, axis=1)
