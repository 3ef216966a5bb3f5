"""Worlds of several MPI ranks of the package under test, fed with cases over a socket by a single-process worker.

As a program: one rank.  argv: socket path, folder of /verif, property module, scratch folder.
"""
import os
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from multiprocessing import connection

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class World:
    def __init__(self, size, module, farm, tmp):
        self.size = size
        self.dir = tempfile.mkdtemp(prefix="w%d" % size, dir=tmp)
        sock = tempfile.mktemp(prefix="vpmpi", dir="/tmp")
        self.listener = connection.Listener(sock, "AF_UNIX", backlog=size)
        env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", TMPDIR=self.dir, OMP_NUM_THREADS="2",
                   PRTE_ALLOW_RUN_AS_ROOT="1", PRTE_ALLOW_RUN_AS_ROOT_CONFIRM="1")
        self.err = open(os.path.join(self.dir, "err"), "w+")
        self.p = subprocess.Popen(
            ["mpirun", "-q", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader", "--mca", "btl_vader_single_copy_mechanism", "none",
             "--mca", "mpi_yield_when_idle", "1", "-n", str(size), sys.executable, os.path.abspath(__file__), sock, HERE, module, farm, self.dir, str(os.getpid())],
            env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err, cwd=self.dir)
        self.conns = [None] * size
        self.listener._listener._socket.settimeout(120)
        try:
            for _ in range(size):
                c = self.listener.accept()
                self.conns[c.recv()] = c
        except OSError as e:
            self.close()
            self.err.seek(0)
            raise RuntimeError("the MPI world of %d ranks did not start: %s\n%s" % (size, e, self.err.read()[-2000:]))
        finally:
            self.listener.close()

    def run(self, spec, tmp, timeout):
        """-> per rank ("ok", value) | ("raised", text) | ("none", "") when there is no answer in time."""
        for c in self.conns:
            c.send((spec, tmp))
        out = [("none", "")] * self.size
        left = set(range(self.size))
        t_end = time.time() + timeout
        while left and time.time() < t_end:
            ready = connection.wait([self.conns[i] for i in left], max(0.0, t_end - time.time()))
            if not ready:
                break
            for i in list(left):
                if self.conns[i] in ready:
                    try:
                        out[i] = self.conns[i].recv()
                    except (EOFError, OSError):
                        out[i] = ("died", "")
                        t_end = min(t_end, time.time() + 5)
                    if out[i][0] == "raised":  # the others may wait for this one for ever
                        t_end = min(t_end, time.time() + 10)
                    left.discard(i)
        return out

    def close(self):
        for c in self.conns:
            if c is not None:
                c.close()
        try:
            self.p.wait(2)
        except subprocess.TimeoutExpired:
            self.p.terminate()
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.send_signal(signal.SIGKILL)
                self.p.wait()


def rank_main():
    sock, verif, module, farm, tmp, parent = sys.argv[1:7]
    conn = connection.Client(sock, "AF_UNIX")

    def watch():  # MPI calls that wait release the GIL
        while True:
            time.sleep(1)
            try:
                os.kill(int(parent), 0)
            except OSError:
                os._exit(1)

    threading.Thread(target=watch, daemon=True).start()
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    sys.path.insert(0, verif)
    import importlib
    import matplotlib
    matplotlib.use("Agg")
    from mpi4py import MPI
    from vlib import core
    rank = MPI.COMM_WORLD.Get_rank()
    mod = importlib.import_module("props." + module)
    import cosmic_profiles
    assert os.path.abspath(cosmic_profiles.__file__).startswith(farm)
    ctx = core.Ctx(os.path.join(tmp, "rank%d" % rank))
    conn.send(rank)
    while True:
        try:
            spec, case = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        try:
            ctx.fresh()
            r = ("ok", mod.observe(spec, ctx, case, rank))
        except BaseException as e:
            r = ("raised", "%s\n%s" % (core.describe(e), traceback.format_exc()[-1500:]))
        try:
            import matplotlib.pyplot as plt
            plt.close("all")
        except Exception:
            pass
        conn.send(r)


if __name__ == "__main__":
    rank_main()
