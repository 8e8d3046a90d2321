"""Servers: an MPI job of harness ranks that executes generated programs."""
import os, select, shutil, signal, struct, subprocess, tempfile, time, random, glob
import numpy as np

MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
               OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_plm="isolated",
               OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1",
               OMPI_MCA_btl_vader_single_copy_mechanism="none",
               OMPI_MCA_osc="^ucx", OMPI_MCA_mpi_warn_on_fork="0", OMPI_MCA_orte_abort_print_stack="0",
               OMP_NUM_THREADS="1")


class ServerDied(Exception):
    """The job ended (crash, abort, diagnosed error) while executing a case."""


class ServerHang(Exception):
    """The job did not finish a case within its time limit."""


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "/tmp"


def clean_shm():
    """Remove shared-memory files of the library whose creating process no longer exists."""
    for f in glob.glob("/dev/shm/*cmx*"):
        n = os.path.basename(f)
        i = n.index("cmx") + 3
        try:
            pid = int(n[i + 10:i + 20])
        except ValueError:
            continue
        if not os.path.exists("/proc/%d" % pid):
            try:
                os.unlink(f)
            except OSError:
                pass


class Server:
    count = 0

    def __init__(self, exe, np_, port="ts", env=None, start_timeout=90):
        Server.count += 1
        self.np, self.port = np_, port
        self.dir = tempfile.mkdtemp(prefix="gav%d_" % os.getpid(), dir=scratch_base())
        self.fin, self.fout = self.dir + "/in", self.dir + "/out"
        os.mkfifo(self.fin)
        os.mkfifo(self.fout)
        e = dict(os.environ)
        e.update(MPI_ENV)
        e.update(TMPDIR=self.dir, OMPI_MCA_orte_tmpdir_base=self.dir,
                 OMPI_MCA_btl_vader_backing_directory=self.dir, GADRV_DIR=self.dir)
        if port == "mpi3":
            e["DRV_SINGLE"] = "1"      # this MPI has no windows over caller memory with MPI_THREAD_MULTIPLE
        e.update(env or {})
        nr = np_ + (1 if port == "pr" else 0)
        self.log = open(self.dir + "/log", "wb+")
        self.p = subprocess.Popen(["mpirun", "-n", str(nr), exe, self.fin, self.fout],
                                  stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log,
                                  env=e, cwd=self.dir, start_new_session=True)
        self.w = self.r = -1
        t0 = time.time()
        self.r = os.open(self.fout, os.O_RDONLY | os.O_NONBLOCK)
        while True:
            try:
                self.w = os.open(self.fin, os.O_WRONLY | os.O_NONBLOCK)
                break
            except OSError:
                if self.p.poll() is not None or time.time() - t0 > start_timeout:
                    msg = self.tail()
                    self.kill()
                    raise ServerDied("server did not start: " + msg)
                time.sleep(0.01)
        os.set_blocking(self.w, True)
        # the writer end may open later than our reader: EOF before that is not the end
        self.started = False
        self.ncases = 0

    def tail(self, n=8000):
        try:
            self.log.flush()
            with open(self.dir + "/log", "rb") as f:
                s = f.read()
            return s[-n:].decode(errors="replace")
        except OSError:
            return ""

    def _read(self, n, deadline):
        buf = b""
        while len(buf) < n:
            left = deadline - time.time()
            if left <= 0:
                raise ServerHang("no answer in time")
            rl, _, _ = select.select([self.r], [], [], min(left, 0.2))
            if not rl:
                if self.p.poll() is not None:
                    raise ServerDied(self.tail())
                continue
            try:
                c = os.read(self.r, min(n - len(buf), 1 << 20))
            except BlockingIOError:
                continue
            if not c:
                if self.p.poll() is not None or self.started:
                    time.sleep(0.3)
                    raise ServerDied(self.tail())
                time.sleep(0.002)
                continue
            self.started = True
            buf += c
        return buf

    def run(self, text, timeout=30.0):
        """-> {(op, rank): [(kind, value), ...]}"""
        self.ncases += 1
        b = text.encode()
        try:
            os.write(self.w, struct.pack("<i", len(b)))
            o = 0
            while o < len(b):
                o += os.write(self.w, b[o:o + 65536])
        except BrokenPipeError:
            time.sleep(0.3)
            raise ServerDied(self.tail())
        dl = time.time() + timeout
        n, = struct.unpack("<i", self._read(4, dl))
        data = self._read(n, dl)
        res, o = {}, 0
        while o < n:
            op, rk, sz = struct.unpack_from("<iii", data, o)
            o += 12
            kind = chr(rk & 255)
            raw = data[o:o + sz]
            o += sz
            if kind == "i":
                v = np.frombuffer(raw, dtype=np.int64)
            elif kind == "d":
                v = np.frombuffer(raw, dtype=np.float64)
            elif kind in "sFE":
                v = raw.decode(errors="replace")
            else:
                v = raw
            res.setdefault((op, rk >> 8), []).append((kind, v))
        return res

    def close(self):
        """Orderly end; returns the exit code (None if it had to be killed)."""
        rc = None
        try:
            os.write(self.w, struct.pack("<i", -1))
            rc = self.p.wait(timeout=20)
        except (OSError, subprocess.TimeoutExpired):
            pass
        self.kill()
        return rc

    def kill(self):
        for fd in (self.w, self.r):
            if fd >= 0:
                try:
                    os.close(fd)
                except OSError:
                    pass
        self.w = self.r = -1
        kids = _descendants(self.p.pid)
        if self.p.poll() is None:
            try:
                self.p.terminate()
                self.p.wait(timeout=1.5)
            except (subprocess.TimeoutExpired, OSError):
                pass
        for k in [self.p.pid] + kids:
            try:
                os.killpg(k, signal.SIGKILL) if k == self.p.pid else os.kill(k, signal.SIGKILL)
            except OSError:
                pass
        try:
            self.p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            pass
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        clean_shm()


def _descendants(pid):
    """Processes started below the job we started ourselves."""
    out, todo = [], [pid]
    while todo:
        x = todo.pop()
        try:
            for t in os.listdir("/proc/%d/task" % x):
                with open("/proc/%d/task/%s/children" % (x, t)) as f:
                    c = [int(k) for k in f.read().split()]
                out += c
                todo += c
        except (OSError, ValueError):
            pass
    return out
