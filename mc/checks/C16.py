"""Parallel kernels of the numba simulator: per-iteration access sets, all iteration orders and partitions, and all two-thread access interleavings."""
import itertools, threading
import numpy as np
from mc import numba_stub
numba_stub.install()
from mc.numba_stub import LOCAL
from mc import ref, rng
from mc.build import circ, add, instances, targets, generic_prefix, PARAMS
from blueqat import Circuit

ONE = ref.UNITARY + ["ccz"]
BOUNDS = {
 "quick": "every parallel kernel reached by every gate, measurement and reset x every target, n=1..7 (n=8, 10, 11, 13 spot): pairwise disjointness of the access sets of all loop iterations, on amplitudes and on arrays made outside the loop; all iteration orders (<=4 iterations; 6 orders beyond), all two-way partitions with private scalars (<=4 iterations; 8 beyond); "
          "all access-level interleavings of two threads for kernels with 2 iterations (and 4 iterations where <= 4000 schedules)",
 "thorough": "n=1..8, interleavings up to 20000 schedules"}
ASSUMPTIONS = ["numba runs prange iterations on threads with private scalars, combining reductions; accesses to one array element are the atomic steps", "numba itself is not installed here; the kernels' source runs under a Python stand-in"]
P = {0: [[]], 1: [[0.7]], 2: [[0.7, -1.3]], 3: [[0.7, -1.3, 2.1]]}


class Rec(np.ndarray):
    """records which loop iteration touches which element; may yield to a scheduler before each access"""
    def __array_finalize__(self, obj):
        self.log = getattr(obj, "log", None) if isinstance(obj, Rec) and (self.base is obj or obj.base is self.base is not None) else None

    def _at(self, k):
        """addresses of the elements selected"""
        a = np.asarray(self)
        if isinstance(k, (int, np.integer)):
            return (a.__array_interface__["data"][0] + (int(k) % len(a)) * a.strides[0],)
        p = a.__array_interface__["data"][0] + np.arange(a.size).reshape(a.shape) * a.itemsize if a.flags.c_contiguous else \
            sum((np.arange(m) * st).reshape([-1 if j == i else 1 for j in range(a.ndim)]) for i, (m, st) in enumerate(zip(a.shape, a.strides))) + a.__array_interface__["data"][0]
        return np.ravel(p[k]).tolist()

    def _touch(self, k, w):
        if self.log is not None:
            self.log.touch(self, k, w)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return np.ndarray.__getitem__(self, k)          # a view: touched when it is used
        self._touch(k, False)
        return np.asarray(self)[k]

    def __setitem__(self, k, v):
        if isinstance(v, Rec):
            v._touch(slice(None), False)
            v = np.asarray(v)
        self._touch(k, True)
        np.asarray(self)[k] = v

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def copy(self, *a):
        self._touch(slice(None), False)
        r = np.asarray(self).copy(*a)
        return self.log.local(r) if self.log is not None else r

    def __array_ufunc__(self, uf, method, *ins, out=None, **kw):
        for x in ins:
            if isinstance(x, Rec):
                x._touch(slice(None), False)
        for x in out or ():
            if isinstance(x, Rec):
                x._touch(slice(None), True)
        raw = lambda x: np.asarray(x) if isinstance(x, Rec) else x
        if out is not None:
            kw["out"] = tuple(map(raw, out))
        r = getattr(uf, method)(*map(raw, ins), **kw)
        return out[0] if out is not None and len(out) == 1 else r

    def __array_function__(self, f, types, args, kw):
        seen = [x for x in list(args) + list(kw.values()) if isinstance(x, Rec)]
        for i, x in enumerate(seen):
            x._touch(slice(None), f is np.copyto and i == 0)
        raw = lambda x: np.asarray(x) if isinstance(x, Rec) else x
        return f(*map(raw, args), **{k: raw(v) for k, v in kw.items()})


class Numpy:
    """numpy as the kernels see it while accesses are recorded: arrays made outside a loop are shared by its iterations"""
    def __init__(self, log):
        self._log = log

    def __getattr__(self, k):
        f = getattr(np, k)
        if k in ("empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like", "array", "arange", "copy"):
            return lambda *a, **kw: self._log.local(f(*a, **kw))
        return f


class Log:
    def __init__(self, sched=None):
        self.epoch = -1
        self.it = None
        self.acc = {}          # (epoch, iteration) -> (reads, writes)
        self.sched = sched
        self.n = 0
        self.its = []          # per loop
        self.arrays = []       # (name, array): kept alive, so that addresses stay distinct

    def local(self, a):
        if self.it is not None or not isinstance(a, np.ndarray):
            return a           # made by an iteration: its own
        a = np.asarray(a)
        self.arrays.append((f"local array {sum(n != 'amplitude' for n, _ in self.arrays)}", a))
        v = a.view(Rec)
        v.log = self
        return v

    def name(self, p):
        for n, a in self.arrays:
            o = p - a.__array_interface__["data"][0]
            if 0 <= o < a.nbytes:
                return f"{n} {o // a.itemsize}" if n == "amplitude" else f"element {o // a.itemsize} of {n}"
        return f"element at {p}"

    def touch(self, arr, k, w):
        self.n += 1
        if self.sched is not None:
            self.sched()
            return
        if self.it is None:
            return
        r, wr = self.acc.setdefault((self.epoch, self.it), (set(), set()))
        (wr if w else r).update(arr._at(k))

    def prange(self, order=None):
        def f(*a):
            self.epoch += 1
            its = list(range(*a))
            self.its.append(its)
            for i in (its if order is None else order(its)):
                self.it = i
                yield i
            self.it = None
        return f


def run_kernel(fn, args, order=None, log=None, rec=True, local=False):
    """run on copies of the arrays -> (result, arrays, log)"""
    log = log or Log()
    a2 = [a.copy() for a in args if isinstance(a, np.ndarray)]
    it = iter(a2)
    arrs = []
    real = []
    for a in args:
        if isinstance(a, np.ndarray):
            c = next(it)
            arrs.append(c)
            if rec and c.dtype.kind == "c":
                log.arrays.append(("amplitude", c))
                c = c.view(Rec)
                c.log = log
            real.append(c)
        else:
            real.append(a)
    LOCAL.prange = log.prange(order)
    glob = fn.__globals__
    old = {k: v for k, v in glob.items() if v is np} if rec and log.sched is None and local else {}
    for k in old:
        glob[k] = Numpy(log)
    try:
        r = fn(*real)
    finally:
        LOCAL.prange = None
        glob.update(old)
    if isinstance(r, Rec):
        r = np.asarray(r)
    for c in real:
        if isinstance(c, Rec):
            c.log = None
    return r, arrs, log


def same(a, b):
    (r1, x1, _), (r2, x2, _) = a, b
    if (r1 is None) != (r2 is None):
        return False
    if r1 is not None and not isinstance(r1, np.ndarray) and abs(r1 - r2) > 1e-9:
        return False
    return all(np.allclose(x, y, atol=1e-9) for x, y in zip(x1, x2) if x.dtype.kind == "c")


def partition_run(fn, args, part):
    """every thread runs its own iterations with private scalars; reductions are combined"""
    shared = None
    res = []
    base = run_kernel(fn, args, lambda its: [])
    arrs = [a.copy() for a in args if isinstance(a, np.ndarray)]
    for tset in part:
        it = iter(arrs)
        # each thread has its own small index arrays, the amplitudes are shared
        real = []
        for a in args:
            if isinstance(a, np.ndarray):
                c = next(it)
                real.append(c if c.dtype.kind == "c" else c.copy())
            else:
                real.append(a)
        log = Log()
        LOCAL.prange = log.prange(lambda its, s=tset: [i for i in its if i in s])
        try:
            res.append(fn(*real))
        finally:
            LOCAL.prange = None
    r = None
    if base[0] is not None and not isinstance(base[0], np.ndarray):
        r = base[0] + sum(x - base[0] for x in res)
    elif base[0] is not None:
        r = base[0]
    return r, arrs, None


def single(log):
    """one parallel loop whose iterations share nothing but the amplitudes: threads can be played one after another"""
    own = [(a.__array_interface__["data"][0], a.nbytes) for n, a in log.arrays if n != "amplitude"]
    return log.epoch == 0 and not any(0 <= x - p < n for rd, wr in log.acc.values() for x in wr for p, n in own)


class Sched:
    """two threads; `plan` is the sequence of thread numbers taking the next access"""
    def __init__(self):
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.main = threading.Semaphore(0)
        self.done = [False, False]

    def hook(self, i):
        def f():
            self.main.release()
            self.sem[i].acquire()
        return f


def interleave(fn, args, its, limit, t, where, exp):
    """all access-level interleavings of two threads that split `its` in the middle"""
    parts = (its[:len(its) // 2], its[len(its) // 2:])
    lens = []
    for p in parts:
        log = Log()
        run_kernel(fn, args, lambda x: [i for i in x if i in p], log)
        lens.append(log.n)
    import math
    if math.comb(sum(lens), lens[0]) > limit or not all(lens):
        return False
    for pos in itertools.combinations(range(sum(lens)), lens[0]):
        plan = [0 if i in set(pos) else 1 for i in range(sum(lens))]
        s = Sched()
        arrs = [a.copy() for a in args if isinstance(a, np.ndarray)]
        res = [None, None]
        err = []

        def body(i):
            s.sem[i].acquire()
            log = Log(s.hook(i))
            it = iter(arrs)
            real = []
            for a in args:
                if isinstance(a, np.ndarray):
                    c = next(it)
                    if c.dtype.kind == "c":
                        v = c.view(Rec)
                        v.log = log
                        real.append(v)
                    else:
                        real.append(c.copy())
                else:
                    real.append(a)
            LOCAL.prange = Log().prange(lambda x: [k for k in x if k in parts[i]])
            try:
                res[i] = fn(*real)
            except BaseException as ex:
                err.append(ex)
            s.done[i] = True
            s.main.release()
        th = [threading.Thread(target=body, args=(i,), daemon=True) for i in (0, 1)]
        for x in th:
            x.start()
        for i in (0, 1):            # run up to the first access
            s.sem[i].release()
            s.main.acquire()
        for i in plan:
            if s.done[i]:
                continue
            s.sem[i].release()
            s.main.acquire()
        for i in (0, 1):
            while not s.done[i]:
                s.sem[i].release()
                s.main.acquire()
        for x in th:
            x.join(10)
        t.trans(len(plan))
        t.trace()
        t.check(not err, lambda: f"{where}: schedule {plan}: {err}")
        t.check(all(np.allclose(a, b, atol=1e-9) for a, b in zip(arrs, exp[1]) if a.dtype.kind == "c"), lambda: f"{where}: access order {plan} of two threads gives {np.round(arrs[0], 4)} instead of {np.round(exp[1][0], 4)}")
        t.state((where, pos))
    t.outcome("kernel interleavings exhausted")
    return True


class Parity:
    def __init__(self, p):
        self.p = p

    def __contains__(self, i):
        return i % 2 == self.p


ODD, EVEN = Parity(1), Parity(0)
_done = set()


class Checker:
    def __init__(self, t, limit):
        self.t, self.limit = t, limit
        self.calls = 0
        self.seen = set()
        self.deep = True

    def __call__(self, fn, args):
        t = self.t
        self.calls += 1
        shape = [a for a in args if not isinstance(a, np.ndarray)]
        where = f"{fn.__name__}{tuple(a.tolist() if isinstance(a, np.ndarray) and a.dtype.kind != 'c' else '<amplitudes>' if isinstance(a, np.ndarray) else a for a in args)}"
        ref_run = run_kernel(fn, args, local=True)
        r, arrs, log = ref_run
        t.trace()
        key = (fn.__name__, where)
        if key not in self.seen:
            self.seen.add(key)
            its = log.its[0] if log.its else []
            for e in {e for e, _ in log.acc}:
                owner, readers = {}, {}
                for (e2, i), (rd, wr) in log.acc.items():
                    if e2 != e:
                        continue
                    for x in wr:
                        t.check(x not in owner, lambda: f"{where}: iterations {owner[x]} and {i} both write {log.name(x)}")
                        owner[x] = i
                    for x in rd:
                        readers.setdefault(x, set()).add(i)
                    t.trans(len(rd) + len(wr))
                for x, i in owner.items():
                    t.check(readers.get(x, {i}) <= {i}, lambda: f"{where}: iteration {i} writes {log.name(x)}, which iterations {readers[x]} read")
                t.state((where, e))
            k = len(its)
            orders = list(itertools.permutations(range(k))) if k <= 4 else \
                [tuple(reversed(range(k))), tuple(range(k // 2, k)) + tuple(range(k // 2)), tuple(range(0, k, 2)) + tuple(range(1, k, 2)), tuple(range(1, k, 2)) + tuple(range(0, k, 2)),
                 tuple(sorted(range(k), key=lambda i: (i * 7) % 13)), tuple(sorted(range(k), key=lambda i: bin(i)[::-1]))]
            if k > 600:
                orders = orders[:1] + orders[4:5]
            for o in orders:
                t.check(same(run_kernel(fn, args, lambda L, o=o: [L[j] for j in o if j < len(L)] + [L[j] for j in range(len(o), len(L))], rec=False), ref_run), lambda: f"{where}: iteration order {o} changes the result")
                t.trace(), t.trans(k)
            if k <= 4:
                parts = [[set(i for i in range(k) if m >> i & 1), set(i for i in range(k) if not m >> i & 1)] for m in range(2 ** k)]
            else:
                parts = [[set(range(k // 2)), set(range(k // 2, k))], [set(range(k // 2, k)), set(range(k // 2))], [set(range(0, k, 2)), set(range(1, k, 2))], [set(range(1, k, 2)), set(range(0, k, 2))],
                         [set(range(j, k, 3)) for j in range(3)], [{j} for j in range(k)], [{j} for j in reversed(range(k))], [set(range(1)), set(range(1, k))]]
            if k > 600:
                parts = [p for p in parts if len(p) == 2]
            parts = [[{its[j] for j in x} for x in p] for p in parts] if single(log) else []
            for p in parts:
                t.check(same(partition_run(fn, args, p), ref_run), lambda: f"{where}: splitting the iterations into {p} changes the result")
                t.trace(), t.trans(k)
            ikey = (fn.__name__, str([a.tolist() if isinstance(a, np.ndarray) and a.dtype.kind != 'c' else int(a) if isinstance(a, (int, np.integer)) else None for a in args]))
            if self.deep and k in (2, 4) and single(log) and ikey not in _done:
                _done.add(ikey)          # access patterns do not depend on angles
                interleave(fn, args, its, self.limit, t, where, ref_run)
        # the run itself continues with the outcome of an adversarial order
        out = partition_run(fn, args, [ODD, EVEN]) if single(log) else run_kernel(fn, args, lambda its: its[::-1], rec=False)
        for a, b in zip([a for a in args if isinstance(a, np.ndarray)], out[1]):
            if a.dtype.kind == "c":
                a[...] = b
        return out[0]


def arity(nm):
    return 1 if nm in ref.ONE or nm in ('m', 'reset') else 2 if nm in ref.TWO else 3


def cases(tier):
    out = []
    top = 7 if tier == "quick" else 8
    for nm in ONE + ["m", "reset"]:
        for n in range(1, top + 1):
            k = arity(nm)
            if n >= k:
                out.append(dict(kind="gate", name=nm, n=n, limit=4000 if tier == "quick" else 20000))
        out.append(dict(kind="spot", name=nm))
        out.append(dict(kind="large", name=nm))
    out.sort(key=lambda c: (c.get("n", 0), c["kind"]), reverse=True)
    return out


def execute(t, chk, prog, n, base_prog, u=None):
    from mc.numba_stub import HOOK
    c = circ(base_prog, n)
    exp0 = ref.run(base_prog, n)
    c.run(backend="numba")
    for o in prog:
        add(c, o)
    HOOK[0] = chk
    try:
        if u is None:
            got = c.run(backend="numba")
            exp = [ref.run(prog, n, exp0)]
        else:
            with rng.active(rng.Script(u=lambda _: u, idx=lambda _, m: int(u * m))):
                got = c.run(backend="numba")
            exp = [v for p, b, v in ref.branches(prog, n, exp0)]
    finally:
        HOOK[0] = None
    t.check(any(ref.same(got, e) for e in exp), lambda: f"{prog} on {n} qubits with iterations in another order gives {np.round(got, 4)[:8]}")


def run_case(t, d):
    nm = d["name"]
    n = d.get("n")
    if d["kind"] == "gate":
        chk = Checker(t, d["limit"])
        tg = [x for x in (targets(nm, n) if nm != "ccz" else [["t", list(q)] for q in itertools.permutations(range(n), 3)])]
        if len(tg) > 60:
            tg = tg[::max(1, len(tg) // 40)] + tg[-1:]
        for i, x in enumerate(tg):
            chk.deep = (n == arity(nm) + 1 and i <= n) or (t.tier == 'thorough' and n <= 3)
            op = [nm, P[ref.NPARAM[nm]][0], x]
            for u in ((0.01, 0.99) if nm in ("m", "reset") else (None,)):
                execute(t, chk, [op], n, generic_prefix(n), u)
        t.sample([nm, n])
        t.outcome("kernels called" if chk.calls else "no kernel (decomposed or permuted)")
    else:
        for n in (8, 10) if d["kind"] == "spot" else (11, 13):
            chk = Checker(t, 0)
            chk.deep = False
            x = (targets(nm, n) if nm != "ccz" else [["t", [n - 1, 0, 3]]])
            for y in x[-1:] if n < 11 else x[len(x) // 3:][:1]:
                execute(t, chk, [[nm, P[ref.NPARAM[nm]][0], y]], n, [["h", [], 0], ["ry", [0.3], n - 1]], 0.4 if nm in ("m", "reset") else None)
