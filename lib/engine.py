"""Generated-input search engine: Hypothesis drives gen(), build() predicts, a server executes.

A check module defines
  PROP, RULE                      property id, what makes a case non-trivial
  TARGET                          harness kind ('gadrv', 'comexdrv', ...)
  configs(tier) -> [dict(port, np, n, variant?, ...)]
  gen(draw, cfg) -> case          JSON-able
  build(case, cfg) -> Prog        program text + expectations (the oracle)
  nontrivial(case, cfg) -> bool
  known(case, cfg) -> id | None   cases excluded because they reach a listed known finding
"""
import hashlib, importlib, json, multiprocessing as mp, os, sys, time, traceback, queue
import numpy as np

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(0, os.path.join(V, "checks"))
import build as B
from gasrv import Server, ServerDied, ServerHang, clean_shm


class Mismatch(Exception):
    pass


class EndShrink(BaseException):
    """The time for shrinking is used up."""


def jd(x):
    return json.dumps(x, sort_keys=True, default=_js)


def _js(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


class Prog:
    """Program text plus expectations on the records it must produce."""

    def __init__(self, np_):
        self.np = np_
        self.lines = []
        self.exp = []            # (op, rank, k, fn(value)->None|str, what)
        self.mem = True
        self.posts = []

    def op(self, name, *args, mask=-1):
        a = []
        for x in args:
            if isinstance(x, (list, tuple, np.ndarray)):
                a += [_tok(y) for y in x]
            else:
                a.append(_tok(x))
        self.lines.append("%d %s %s" % (mask, name, " ".join(a)))
        return len(self.lines) - 1

    def expect(self, op, rank, k, fn, what):
        self.exp.append((op, rank, k, fn, what))

    def expect_bytes(self, op, rank, arr, what, k=0):
        want = np.array(arr, order="C", copy=True)

        def f(v):
            if v[0] != "b":
                return "unexpected record %r" % (v,)
            if len(v[1]) != want.nbytes:
                return "got %d bytes, expected %d" % (len(v[1]), want.nbytes)
            if v[1] == want.tobytes():
                return None
            got = np.frombuffer(v[1], dtype=want.dtype).reshape(want.shape)
            if want.dtype.kind in "fc":       # -0.0 and 0.0 are the same value
                if np.array_equal(got, want, equal_nan=True):
                    return None
            bad = np.argwhere(got != want)
            if len(bad) == 0:
                bad = np.zeros((1, want.ndim), int)
            i = tuple(int(x) for x in bad[0])
            return "%d of %d elements differ; first at %s: got %s expected %s" % (
                len(bad), want.size, i, got[i] if want.ndim else got, want[i] if want.ndim else want)
        self.expect(op, rank, k, f, what)

    def expect_ints(self, op, rank, vals, what, k=0):
        want = [int(x) for x in np.asarray(vals).ravel()]

        def f(v):
            if v[0] != "i":
                return "unexpected record %r" % (v,)
            got = [int(x) for x in v[1]]
            return None if got == want else "got %s expected %s" % (_short(got), _short(want))
        self.expect(op, rank, k, f, what)

    def expect_close(self, op, rank, arr, what, k=0, rtol=1e-9, atol=0.0, dtype=None):
        want = np.array(arr, order="C", copy=True)

        def f(v):
            got = np.frombuffer(v[1], dtype=dtype or want.dtype).reshape(want.shape) \
                if v[0] == "b" else v[1].reshape(want.shape)
            if np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True):
                return None
            d = np.abs(got - want)
            i = np.unravel_index(int(np.nanargmax(d)) if not np.all(np.isnan(d)) else 0, want.shape) if want.ndim else ()
            return "differs beyond tolerance at %s: got %s expected %s" % (i, got[i], want[i])
        self.expect(op, rank, k, f, what)

    def post(self, fn):
        """fn(res) -> None | message: a check over all records together."""
        self.posts.append(fn)

    def text(self):
        return "\n".join(self.lines) + "\n"

    def verify(self, res):
        for (op, rk), recs in sorted(res.items(), key=lambda x: x[0]):
            for kind, v in recs:
                if kind == "F":
                    raise Mismatch("op %d on rank %d: %s   [%s]" % (op, rk, v, self._line(op)))
        for op, rk, k, fn, what in self.exp:
            recs = res.get((op, rk))
            if recs is None or len(recs) <= k:
                raise Mismatch("op %d on rank %d produced no result (%s)  [%s]" % (op, rk, what, self._line(op)))
            m = fn(recs[k])
            if m:
                raise Mismatch("op %d rank %d: %s: %s   [%s]" % (op, rk, what, m, self._line(op)))
        for fn in self.posts:
            m = fn(res)
            if m:
                raise Mismatch(m)

    def _line(self, op):
        return self.lines[op][:200] if 0 <= op < len(self.lines) else "end of case"


def _short(x):
    s = str(x)
    return s if len(s) < 300 else s[:300] + "..."


def _tok(x):
    if isinstance(x, (bool, np.bool_)):
        return "1" if x else "0"
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    return str(x)


END = 1 << 20


def vcfg(cfg):
    """The configuration a check module sees: the process group when its programs run embedded in one."""
    return dict(cfg, np=len(cfg["emb"])) if cfg.get("emb") else cfg


class Exec:
    """Runs cases of one module on servers of one configuration, restarting as needed."""

    def __init__(self, mod, cfg, exe):
        self.mod, self.cfg, self.exe = mod, cfg, exe
        self.srv, self.hist, self.mem0 = None, [], None
        self.starts = 0
        self.timeout = float(cfg.get("timeout", 30))

    def server(self):
        if self.srv is None:
            for attempt in range(3):
                try:
                    self.srv = Server(self.exe, self.cfg["np"], self.cfg.get("port", "ts"),
                                      env=self.cfg.get("env"))
                    break
                except ServerDied as e:
                    if attempt == 2:
                        raise Mismatch("the job does not start: " + _crash_summary(str(e)))
                    time.sleep(1)
            self.hist, self.mem0 = [], None
            self.starts += 1
        return self.srv

    def drop(self):
        if self.srv:
            self.srv.kill()
            self.srv = None

    def run_case(self, case, keep=True):
        """Raises Mismatch when the property is broken on this case."""
        prog = self.mod.build(case, vcfg(self.cfg))
        if prog is None:
            return None
        fresh = getattr(self.mod, "FRESH", False) or self.cfg.get("fresh")
        if fresh:
            self.drop()
        s = self.server()
        if keep:
            self.hist.append(case)
        try:
            emb, cha = self.cfg.get("emb"), self.cfg.get("chaos")
            pre, suf = [], ""
            if cha is not None:
                # how eagerly held operations are released varies with the case
                h = int(hashlib.md5(prog.text().encode()).hexdigest()[:8], 16)
                pre.append("-1 chaos 1 %d %d\n" % ((0, 0, 1, 4, 10)[h % 5], h))
            if emb:
                pre.append("-1 embed %d %s\n" % (len(emb), " ".join(map(str, emb))))
                suf = "-1 unembed\n"
            raw = s.run("".join(pre) + prog.text() + suf, self.timeout)
            inv = {r: i for i, r in enumerate(sorted(emb))} if emb else {r: r for r in range(self.cfg["np"] + (1 if self.cfg.get("noinit") else 0))}
            res = {(END, r): v for (o, r), v in raw.items() if o == END}
            res.update({(o - len(pre), inv[r]): v for (o, r), v in raw.items() if o != END and r in inv})
        except ServerDied as e:
            msg = str(e)
            self.drop()
            raise Mismatch("the job died: " + _crash_summary(msg))
        except ServerHang:
            self.drop()
            raise Mismatch("HANG: the job did not finish the program within %.0f s" % self.timeout)
        if fresh and getattr(self.mod, "CHECK_EXIT", False):
            rc = s.close()
            self.srv = None
            if rc != 0:
                raise Mismatch("the job did not terminate cleanly (exit %s)" % rc)
        try:
            prog.verify(res)
            if prog.mem:
                self._mem(res)
        except Mismatch:
            # state of the job is suspect after a failed case
            self.drop()
            raise
        if len(self.hist) >= self.cfg.get("restart_every", 400):
            s.close()
            self.srv = None
        return prog

    def _mem(self, res):
        for rk in range(self.cfg["np"]):
            r = res.get((END, rk))
            if not r:
                continue
            v = int(r[0][1][0])
            if self.mem0 is None:
                self.mem0 = {}
            if rk in self.mem0 and self.mem0[rk] != v:
                raise Mismatch("array memory in use after every array was destroyed: %d bytes, was %d" % (v, self.mem0[rk]))
            self.mem0[rk] = v


def _crash_summary(msg):
    import re, subprocess
    keep = [l for l in msg.splitlines() if any(k in l for k in (
        "GAERROR", "Error", "error", "ERROR", "signal", "Signal", "Assert", "assert", "harness", "Segmentation",
        "SUMMARY", "runtime error")) and "***" not in l]
    fr = re.findall(r"(/[^ (]*/build/[^ (]*)\(\+(0x[0-9a-f]+)\)", msg)[:10]
    if fr:
        try:
            o = subprocess.run(["addr2line", "-f", "-s", "-e", fr[0][0]] + [a for _, a in fr], capture_output=True,
                               text=True, timeout=20).stdout.split("\n")
            keep.append(" < ".join("%s@%s" % (o[2 * i], o[2 * i + 1]) for i in range(len(fr))))
        except (OSError, subprocess.TimeoutExpired, IndexError):
            pass
    if "AddressSanitizer" in msg or "runtime error" in msg:
        keep = [re.sub(r"^==\d+==|0x[0-9a-f]+ in ", "", l.strip()) for l in msg.splitlines()
                if "ERROR: Addr" in l or re.match(r"\s+#\d ", l) or "runtime error" in l or "SUMMARY" in l][:16]
        s = " | ".join(keep)
        return s[:1500]
    s = " | ".join(keep[:8]) or " | ".join(msg.splitlines()[-4:])
    return s[:1500]


def _worker(modname, cfg, exe, seed, n, tcap, shrink_cap, q, stop):
    try:
        _worker2(modname, cfg, exe, seed, n, tcap, shrink_cap, q, stop)
    except BaseException as e:
        q.put(("error", cfg, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]))
    finally:
        q.put(("done", cfg, None))


def _worker2(modname, cfg, exe, seed, n, tcap, shrink_cap, q, stop):
    import hypothesis
    from hypothesis import given, settings, strategies as st, HealthCheck, Phase
    mod = importlib.import_module(modname)
    ex = Exec(mod, cfg, exe)
    stats = dict(eval=0, nontrivial=set(), excluded={}, labels={}, samples=[], starts=0, skipped=0)
    t0 = time.time()
    state = dict(fail=None, tfail=None, pending=None, last=None)

    def one(case):
        key = jd(case)
        if state["tfail"] is not None and time.time() - state["tfail"] > shrink_cap:
            raise EndShrink()
        if state["tfail"] is None and (time.time() - t0 > tcap or stop.is_set()):
            stats["skipped"] += 1
            return
        kf = mod.known(case, vcfg(cfg)) if hasattr(mod, "known") else None
        if kf:
            stats["excluded"][kf] = stats["excluded"].get(kf, 0) + 1
            return
        try:
            stats["eval"] += 1
            prog = ex.run_case(case)
        except Mismatch as e:
            if state["tfail"] is None:
                state["tfail"] = time.time()
                state["first"] = (case, str(e), list(ex.hist))
            if state["fail"] is None or len(key) <= len(jd(state["fail"][0])):
                state["fail"] = (case, str(e))
            raise
        if mod.nontrivial(case, vcfg(cfg)):
            stats["nontrivial"].add(hashlib.md5((jd(cfg) + key).encode()).hexdigest())
            if len(stats["samples"]) < 3 and stats["eval"] % 7 == 1:
                stats["samples"].append(dict(config=cfg, case=case, program=(prog.lines[:40] if prog else [])))
        if hasattr(mod, "labels"):
            for l in mod.labels(case, vcfg(cfg)):
                stats["labels"][l] = stats["labels"].get(l, 0) + 1

    chunk, ci = min(n, 250), 0
    done = 0
    while done < n and state["fail"] is None and time.time() - t0 < tcap and not stop.is_set():
        m = min(chunk, n - done)

        @hypothesis.seed(seed * 1000003 + ci * 7919 + cfg.get("salt", 0))
        @settings(max_examples=m, database=None, deadline=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), print_blob=False,
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet)
        @given(st.data())
        def t(data):
            one(mod.gen(data.draw, vcfg(cfg)))
        before = stats["eval"]
        try:
            t()
        except (Mismatch, EndShrink):
            break
        except Exception as e:
            if state["fail"] is None:
                raise
            break
        ci += 1
        done += m
    ex.drop() if state["fail"] else (ex.srv and ex.srv.close())
    stats["starts"] = ex.starts
    stats["wall"] = time.time() - t0
    q.put(("stats", cfg, stats))
    if state["fail"]:
        q.put(("fail", cfg, dict(case=state["fail"][0], msg=state["fail"][1], first=state["first"][0],
                                 first_msg=state["first"][1], hist=state["first"][2])))


def target_of(mod, cfg):
    t = getattr(mod, "TARGET", "gadrv")
    return t if "-" in t else "%s-%s" % (t, cfg.get("port", "ts"))


def _try(mod, cfg, exe, cases, timeout=None):
    """Execute a list of cases on one fresh server; message of the failure of the last one, or None."""
    c = dict(cfg)
    if timeout:
        c["timeout"] = timeout
    c["restart_every"] = 10 ** 9
    ex = Exec(mod, c, exe)
    try:
        for i, k in enumerate(cases):
            try:
                ex.run_case(k)
            except Mismatch as e:
                return str(e), cases[:i + 1]
        return None, None
    finally:
        ex.drop()


def confirm(mod, cfg, exe, f):
    """Replay a failure on fresh servers. -> (cases, message) or None"""
    cap = time.time() + 330
    hang = f["msg"].startswith("HANG")
    for cases in ([f["case"]], [f["first"]], f["hist"]):
        hits, msg, n = 0, None, (3 if not getattr(mod, "RACY", False) else 12)
        need = 3 if not getattr(mod, "RACY", False) else 1
        for k in range(n):
            if time.time() > cap:
                break
            m, _ = _try(mod, cfg, exe, cases, 60 if hang else None)
            if m:
                hits += 1
                msg = m
            elif need == 3 and k == 0:
                # not deterministic on its own: keep trying, any reproduction counts
                need, n = 1, 8
            if hits >= need:
                return cases, msg
        if hits:
            return cases, msg
    return None


def load_known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def run_check(modname, tier=None, seed=None):
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1) if seed is None else seed
    mod = importlib.import_module(modname)
    t0 = time.time()
    cfgs = json.loads(os.environ["GA_CFGS"]) if os.environ.get("GA_CFGS") else mod.configs(tier)
    only = os.environ.get("GA_ONLY_CFG")
    if only:
        cfgs = [c for i, c in enumerate(cfgs) if str(i) in only.split(",")]
    mult = float(os.environ.get("GA_MULT", "1"))
    exes = {}
    for var in sorted(set(c.get("variant", "opt") for c in cfgs)):
        tg = sorted(set(target_of(mod, c) for c in cfgs if c.get("variant", "opt") == var))
        for k, v in B.build(tg, var).items():
            exes[(var, k)] = v
    tb = time.time() - t0
    q, stop = mp.Queue(), mp.Event()
    tcap = float(os.environ.get("GA_TCAP", {"quick": 240, "thorough": 1500}[tier]))
    shrink_cap = 20 if tier == "quick" else 120
    procs = []
    for i, c in enumerate(cfgs):
        c.setdefault("salt", i * 104729)
        p = mp.Process(target=_worker, args=(modname, c, exes[(c.get("variant", "opt"), target_of(mod, c))], seed,
                                             max(1, int(c["n"] * mult)), tcap, shrink_cap, q, stop))
        procs.append(p)
    # limit the number of simultaneous jobs by their rank count
    slots = int(os.environ.get("GA_SLOTS", "14"))
    used, run, pend = 0, {}, list(zip(procs, cfgs))
    stats, fails, errors = [], [], []
    cost = lambda c: c["np"] + (1 if c.get("port") == "pr" else 0)
    ndone = 0
    while ndone < len(cfgs):
        for pc in list(pend):
            if not run or used + cost(pc[1]) <= slots:
                pend.remove(pc)
                pc[0].start()
                run[jd(pc[1])] = pc
                used += cost(pc[1])
        try:
            kind, c, v = q.get(timeout=1.0)
        except queue.Empty:
            for k, (p, c) in list(run.items()):
                if not p.is_alive() and p.exitcode not in (0, None):
                    errors.append("worker died with exit code %s" % p.exitcode)
                    used -= cost(c)
                    del run[k]
                    ndone += 1
            continue
        if kind == "stats":
            stats.append((c, v))
        elif kind == "fail":
            fails.append((c, v))
            stop.set()
        elif kind == "error":
            errors.append(v)
            stop.set()
        elif kind == "done":
            pc = run.pop(jd(c), None)
            if pc:
                used -= cost(c)
                ndone += 1
                pc[0].join(timeout=10)
    for p in procs:
        if p.is_alive():
            p.terminate()
    # known findings: shown to still fail
    kf_lines = []
    for k in load_known():
        if k.get("property") == mod.PROP and k.get("status") != "fixed":
            kf_lines.append("KNOWN-FINDING: property=%s %s" % (mod.PROP, k["what"]))
    viol = 0
    out = []
    unrep = []
    for c, f in fails[:3]:
        exe = exes[(c.get("variant", "opt"), target_of(mod, c))]
        r = confirm(mod, c, exe, f)
        if r is None:
            unrep.append(dict(config=c, case=f["first"], msg=f["first_msg"]))
            continue
        rp = os.path.join(V, "work", "replay")
        os.makedirs(rp, exist_ok=True)
        h = hashlib.md5(jd(r[0]).encode()).hexdigest()[:10]
        path = os.path.join(rp, "%s-%s.json" % (mod.PROP, h))
        with open(path, "w") as fh:
            fh.write(json.dumps(dict(property=mod.PROP, module=modname, config=c, cases=r[0], message=r[1],
                                     program=[mod.build(x, vcfg(c)).lines for x in r[0][-1:]]), default=_js, indent=1))
        viol += 1
        out.append("%s\n  config %s\n  case %s" % (r[1], jd(c), _short(jd(r[0][-1]))))
        out.append("VIOLATION property=%s replay=%s" % (mod.PROP, path))
        break
    ev = sum(s["eval"] for _, s in stats)
    nt = set()
    labels, excl, samples = {}, {}, []
    for c, s in stats:
        nt |= s["nontrivial"]
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s["excluded"].items():
            excl[k] = excl.get(k, 0) + v
        samples += s["samples"]
    rules = mod.RULE
    evd = dict(property=mod.PROP, tier=tier, seed=seed, level="exploration",
               coverage=dict(evaluations=ev, distinct_nontrivial=len(nt), rule=rules,
                             samples=(samples[::max(1, len(samples) // 5)] or samples)[:5],
                             classes=labels, excluded_known=excl,
                             configurations=[dict(config=c, cases=s["eval"], not_reached=s["skipped"], server_starts=s["starts"],
                                                  wall_s=round(s["wall"], 1)) for c, s in stats],
                             unreproduced=[dict(x, case=_short(jd(x["case"]))) for x in unrep]),
               assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=viol)
    ed = os.environ.get("GA_EVID") or os.path.join(V, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, mod.PROP + ".json"), "w") as fh:
        json.dump(evd, fh, default=_js, indent=1)
    for l in kf_lines:
        print(l)
    for l in out:
        print(l)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs%s" % (
        mod.PROP, tier, seed, ev, len(nt), tb, time.time() - t0,
        "" if not unrep else ", %d unreproduced" % len(unrep)))
    for u in unrep:
        print("UNREPRODUCED: %s  %s" % (u["msg"], _short(jd(u["case"]))))
    clean_shm()
    if viol:
        return 1
    if errors:
        print("ERROR in the check:\n" + errors[0])
        return 2
    if ev == 0:
        print("ERROR: no case was executed")
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module(d["module"])
    c = d["config"]
    exe = list(B.build([target_of(mod, c)], c.get("variant", "opt")).values())[0]
    m, _ = _try(mod, c, exe, d["cases"])
    print("reproduced: " + m if m else "not reproduced")
    return 1 if m else 0
