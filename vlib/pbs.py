"""A fake batch system: `qsub` and `qstat` stubs on PATH, jobs run in this process when the harness says so."""
import errno
import os
import re
import resource
import sys

import numpy as np
from vlib.core import Violation, HarnessError, require
from mlmc.sampling_pool_pbs import SamplingPoolPBS
from mlmc.tool.pbs_job import PbsJob

QSUB = r"""#!/bin/sh
D="{d}"
read n < "$D/qsub_fail"
if [ "$n" -gt 0 ]; then
  echo $((n - 1)) > "$D/qsub_fail"
  read r < "$D/qsub_row"
  echo $((r + 1)) > "$D/qsub_row"
  echo "qsub: server busy" >&2
  exit 1
fi
echo 0 > "$D/qsub_row"
read id < "$D/next_id"
echo $((id + $(cat "$D/id_step"))) > "$D/next_id"
echo "$id $1" >> "$D/jobs"
echo "$id Q" > "$D/state_$id"
echo "$id.pbs-m1.server.cz"
"""

QSTAT = r"""#!/bin/sh
D="{d}"
read n < "$D/qstat_fail"
if [ "$n" -gt 0 ]; then
  echo $((n - 1)) > "$D/qstat_fail"
  read r < "$D/qstat_row"
  echo $((r + 1)) > "$D/qstat_row"
  echo "qstat: cannot connect to server" >&2
  exit 1
fi
echo 0 > "$D/qstat_row"
echo "Job id                 Name             User              Time Use S Queue"
echo "---------------------  ---------------- ----------------  -------- - -----"
for id in "$@"; do
  case "$id" in
    -*) ;;
    *)
      if [ -f "$D/state_$id" ]; then
        read i s < "$D/state_$id"
        echo "$i.pbs-m1.server.cz    {name}        {user}              00:00:0$((i % 7)) $s q_2h"
      else
        echo "qstat: $id Unknown Job Id" >&2
        exit 153
      fi ;;
  esac
done
"""


class Killed(BaseException):
    """The batch system kills the job while a sample runs."""


class FakePBS:
    def __init__(self, d, first_id=100, id_step=1, name="MLMC_test", user="user"):
        self.d = os.path.join(d, "pbs")
        os.makedirs(self.d)
        for cmd, text in (("qsub", QSUB), ("qstat", QSTAT)):
            p = os.path.join(self.d, cmd)
            with open(p, "w") as f:
                f.write(text.replace("{d}", self.d).replace("{name}", name).replace("{user}", user))
            os.chmod(p, 0o755)
        for row in ("qsub_row", "qstat_row"):       # failures in a row so far
            self._put(row, 0)
        self._put("qsub_fail", 0)
        self._put("qstat_fail", 0)
        self._put("next_id", first_id)
        self._put("id_step", id_step)
        self._put("jobs", None)
        os.environ["PATH"] = self.d + os.pathsep + os.environ["PATH"]

    def _put(self, name, n):
        with open(os.path.join(self.d, name), "w") as f:
            if n is not None:
                f.write("{}\n".format(n))

    def fail(self, what, n):
        """The next n calls fail, but never more than ten in a row."""
        with open(os.path.join(self.d, what + "_row")) as f:
            row = int(f.read())
        self._put(what + "_fail", max(0, min(n, 10 - row)))

    def failing(self, what):
        with open(os.path.join(self.d, what + "_fail")) as f:
            return int(f.read())

    def jobs(self):
        """[(pbs id, job script path)] in order of submission."""
        out = []
        with open(os.path.join(self.d, "jobs")) as f:
            for line in f:
                i, path = line.rstrip("\n").split(" ", 1)
                out.append((i, path))
        return out

    def set_state(self, pbs_id, s):
        self._put("state_" + pbs_id, "{} {}".format(pbs_id, s))

    def run_job(self, script, limit=None):
        """Run the job's command in this process; returns True if it ran to its end. Writing beyond `limit` bytes of a
        file ends the job."""
        with open(script) as f:
            text = f.read()
        m = re.findall(r"-m\s+mlmc\.tool\.pbs_job\s+(\S+)\s+(\S+)", text)
        require(len(m) == 1, "job script {} does not start the job once:\n{}", script, text)
        argv, cwd = sys.argv, os.getcwd()
        sys.argv = ["pbs_job.py", m[0][0], m[0][1]]
        try:
            job = PbsJob.create_process()
            if limit is not None:
                hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            job.calculate_samples()
            return True
        except Killed:
            return False
        except OSError as e:
            if limit is None or e.errno != errno.EFBIG:
                raise
            return False
        finally:
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
            sys.argv = argv
            os.chdir(cwd)


def make_pool(work_dir, debug=False):
    pool = SamplingPoolPBS(work_dir=work_dir, debug=debug)
    pool.pbs_common_setting(optional_pbs_requests=[], env_setting=["cd $MLMC_WORKDIR"], n_nodes=1, n_cores=1, mem="1Gb", walltime="1:00:00",
                            queue="charon_2h", pbs_name="flow123d", python="python3")
    return pool
