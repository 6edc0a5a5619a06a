from vlib.props.storage_model import *

RULE = ("A case is a generated history of save-scheduled / save-results / save-failed / clear-failed operations over 1-4 "
        "levels with result vectors of 1-5 values and special floats, applied to the real storage and to a dictionary "
        "model and compared after every operation. Non-trivial: at least one successful and one failed sample, or "
        "samples on more than one level.")
ASSUMPTIONS = ["sample ids are ASCII and at most 100 characters, error messages at most 1000 bytes are compared by id only"]

ERRS = ("boom", "", "x" * 3000, "Traceback: \u010d\u00e1ra \u2603", "line1\nline2")


def run(kind):
    def f(case):
        with scratch() as d:
            special = fix_special(case)
            storage = make_storage(kind, d)
            storage.save_global_data(level_parameters=level_params(case), result_format=vector_format(case["m"]))
            model = Model(case["n_levels"], case["m"], case["ids"])
            compare(storage, model, kind == "hdf")
            for op in case["ops"]:
                apply_op(storage, model, op, special, ERRS)
                compare(storage, model, kind == "hdf")
            labels, tot, fail = classify(model, case)
            if tot and (fail or sum(1 for l in model.ok if model.ok[l]) > 1):
                labels.append("nt")
            return labels
    return f


PARTS = [
    Part("memory", history(["sched", "save", "save", "sched"]), run("mem"), quick=1500, thorough=20000),
    Part("hdf", history(["sched", "save", "save", "sched", "clear"]), run("hdf"), quick=240, thorough=4000, shards=4),
    Part("hdf_long", history(["sched", "save", "save", "save"], max_levels=2, max_ops=40, max_m=3, max_batch=60), run("hdf"),
         quick=40, thorough=800, shards=2),
    Part("hdf_many_levels", history(["sched", "save", "save", "clear"], min_levels=9, max_levels=13, max_ops=6, max_m=2, max_batch=3), run("hdf"),
         quick=24, thorough=300, shards=3),
    Part("memory_many_levels", history(["sched", "save", "save"], min_levels=9, max_levels=110, max_ops=8, max_m=2, max_batch=3), run("mem"),
         quick=60, thorough=1000),
    Part("hdf_big", history(["sched", "save", "save"], max_levels=2, max_ops=6, max_m=30, max_batch=900), run("hdf"),
         quick=24, thorough=300, shards=2),
    Part("hdf_huge", huge_history(["", "clear"]), run("hdf"), quick=16, thorough=200, shards=4),
    Part("memory_huge", huge_history([""]), run("mem"), quick=12, thorough=200, shards=2),
]
