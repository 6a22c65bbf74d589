"""A deterministic, in-process MPI.

Every rank of a world is a thread, and exactly one of them runs at any time: it keeps the baton until it blocks in an
MPI call (or, with a preempting schedule, enters one), and the world's schedule then picks which runnable rank goes on.
Ranks do not share memory: all payloads are pickled or copied, and each rank has its own import of the code under test
(see ranks.py).  So an execution is a pure function of (code, case), a deadlock is seen exactly (no runnable rank is
left), and a mismatched collective, an unreceived message or a truncated buffer is an error, not luck.

What MPI leaves open is a choice of the case: `sync` makes every standard-mode send block until it is matched (as real
MPI does for large messages) instead of being buffered; `strict` makes every collective a barrier instead of letting
roots and leaves run ahead; `sched` picks the order in which ranks arrive, and the association of reductions.

A feature of mpi4py that is not modelled here raises Unsupported, which is no exception the code under test can catch
by `except Exception`: the check then falls back to real MPI.
"""
import pickle
import sys
import threading
import types

import numpy as np


class Unsupported(BaseException):
    """The code under test used a part of mpi4py this simulator does not have."""


class Abort(BaseException):
    """Unwinds a rank that can never go on."""


class MpiMisuse(BaseException):
    """The ranks' calls do not fit together (erroneous MPI program): ends the whole world."""


HANG_S = 60  # a case takes milliseconds
OP_LIMIT = 400_000  # MPI calls in one case; far above any generated case, so reaching it means no progress


class World:
    def __init__(self, n, sched=0, sync=False, strict=False, install=None, quiet=False):
        self.n = n
        self.sync = bool(sync)
        self.strict = bool(strict)
        self.lcg = int(sched)
        self.tree = bool(sched & 1)
        self.preempt = sched >= 4
        self.install = install
        self.ready = [True] * n
        self.done = [False] * n
        self.pred = [None] * n
        self.desc = [""] * n
        self.outcome = [None] * n
        self.pool = _Pool.get(n)
        self.locks = self.pool.locks
        self.finished = threading.Lock()
        self.finished.acquire()
        self.aborting = False
        self.failure = None  # (kind, text)
        self.unsupported = None
        self.ops = 0
        self.kinds = {}
        self.next_ctx = 0
        self.contexts = []
        self.posted = []
        self.queues = {}  # (ctx, dest) -> list of _Msg
        self.nsplits = 0
        self.max_msg = 0
        self.nreal_sends = 0
        self.world_ctx = Ctx(self, list(range(n)))
        self.self_ctx = [Ctx(self, [r]) for r in range(n)]
        self.current = None

    # -- scheduling -------------------------------------------------------------------------------------------------
    def choice(self, k):
        if k <= 1 or self.lcg == 0:
            return 0
        self.lcg = (self.lcg * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.lcg >> 33) % k

    def progress(self):
        """Match receives that are posted but not waited for."""
        if self.posted:
            self.posted = [p for p in self.posted if not p()]

    def _runnable(self):
        self.progress()
        out = []
        for r in range(self.n):
            if self.done[r]:
                continue
            if self.ready[r] or self.pred[r]():
                out.append(r)
        return out

    def _handover(self, me):
        """Give the baton to another rank (me may be chosen again)."""
        c = None
        if not self.aborting:
            c = self._runnable()
            if not c:
                left = [r for r in range(self.n) if not self.done[r]]
                if left and self.failure is None:
                    self.failure = ("stuck", {r: self.desc[r] for r in left})
                self.aborting = True
        if self.aborting:
            c = [r for r in range(self.n) if not self.done[r]]
            if not c:
                self.finished.release()
                return None
            nxt = c[0]
        else:
            nxt = c[self.choice(len(c))]
        self.ready[nxt] = True
        self.pred[nxt] = None
        if nxt != me:
            self.locks[nxt].release()
        return nxt

    def _resume(self, rank):
        self.current = rank
        if self.install is not None:
            self.install(rank)
        if self.aborting:
            raise Abort()

    def enter(self, rank, kind):
        if self.aborting:
            raise Abort()
        self.ops += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if self.ops > OP_LIMIT:
            self.fail("no-progress", f"more than {OP_LIMIT} MPI calls in one case")
        if self.preempt and self.n > 1 and self.choice(3) == 0:
            self.ready[rank] = True
            if self._handover(rank) != rank:
                self.locks[rank].acquire()
            self._resume(rank)

    def wait(self, rank, pred, desc):
        if self.aborting:
            raise Abort()
        self.progress()
        if pred():
            return
        self.ready[rank] = False
        self.pred[rank] = pred
        self.desc[rank] = desc
        if self._handover(rank) != rank:
            self.locks[rank].acquire()
        self.desc[rank] = ""
        self._resume(rank)

    def fail(self, kind, text):
        if self.failure is None:
            self.failure = (kind, text)
        self.aborting = True
        raise Abort()

    def misuse(self, text):
        self.fail("misuse", text)

    # -- running ----------------------------------------------------------------------------------------------------
    def run(self, fns):
        self.fns = fns
        self.pool.world = self
        self._handover(-1)
        if not self.finished.acquire(timeout=HANG_S):
            self.failure = ("hung", f"rank {self.current} has not come back from its code for {HANG_S} s")
            for r in range(self.n):
                if not self.done[r]:
                    self.outcome[r] = ("stuck", self.desc[r] or "running")
            _Pool.drop()
        self.pool.world = None
        return self

    def main(self, rank):
        """What the pool's thread for this rank does once it first gets the baton."""
        try:
            self._resume(rank)
            self.outcome[rank] = ("ok", self.fns[rank]())
        except Abort:
            self.outcome[rank] = ("stuck", self.desc[rank])
        except Unsupported as e:
            self.unsupported = str(e)
            self.aborting = True
            self.outcome[rank] = ("unsupported", str(e))
        except BaseException as e:  # noqa: BLE001
            self.outcome[rank] = ("exc", e, sys.exc_info()[2])
        self.done[rank] = True
        self._handover(rank)

    def leftovers(self):
        """Messages nobody received and collectives not all members called."""
        out = []
        for (ctx, dest), q in self.queues.items():
            for m in q:
                if not m.matched:
                    out.append(f"message from rank {m.src} to rank {dest} with tag {m.tag} was never received")
        for ctx in self.contexts:
            for idx, slot in ctx.slots.items():
                if len(slot.arrived) < len(ctx.group):
                    missing = sorted(set(range(len(ctx.group))) - set(slot.arrived))
                    out.append(f"collective {slot.kind} #{idx} on {ctx.name}: ranks {missing} never called it")
        return out


class _Pool:
    """The threads ranks run on; kept from case to case."""
    _it = None

    def __init__(self):
        self.locks, self.world = [], None

    @classmethod
    def get(cls, n):
        if cls._it is None:
            cls._it = cls()
        p = cls._it
        while len(p.locks) < n:
            lock = threading.Lock()
            lock.acquire()
            p.locks.append(lock)
            threading.Thread(target=p._loop, args=(len(p.locks) - 1,), daemon=True).start()
        return p

    @classmethod
    def drop(cls):
        cls._it = None

    def _loop(self, rank):
        lock = self.locks[rank]
        while True:
            lock.acquire()
            self.world.main(rank)


class Ctx:
    """One communicator, shared by its members."""

    def __init__(self, world, group):
        self.world = world
        self.group = group  # world ranks
        self.id = world.next_ctx
        world.next_ctx += 1
        self.name = f"comm{self.id}{group}"
        self.count = [0] * len(group)
        self.slots = {}
        self.freed = [False] * len(group)
        world.contexts.append(self)


class _Slot:
    __slots__ = ("kind", "params", "arrived", "data", "cache")

    def __init__(self, kind, params):
        self.kind, self.params = kind, params
        self.arrived, self.data, self.cache = set(), {}, {}


class _Msg:
    __slots__ = ("src", "tag", "payload", "matched", "seq", "pickled")

    def __init__(self, src, tag, payload, pickled):
        self.src, self.tag, self.payload, self.pickled, self.matched = src, tag, payload, pickled, False


ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
UNDEFINED = -32766
ROOT = -3


class _InPlace:
    def __repr__(self):
        return "IN_PLACE"


IN_PLACE = _InPlace()


class MPIException(RuntimeError):
    def __init__(self, ierr=0, text=""):
        super().__init__(text or ierr)
        self.ierr = ierr

    def Get_error_code(self):
        return self.ierr

    def Get_error_class(self):
        return self.ierr

    def Get_error_string(self):
        return str(self)


class Op:
    def __init__(self, name, fn, ufunc, commute=True):
        self.name, self.fn, self.ufunc, self.commute = name, fn, ufunc, commute

    def __call__(self, a, b):
        return self.fn(a, b)

    def __repr__(self):
        return f"Op({self.name})"

    @classmethod
    def Create(cls, function, commute=False):
        raise Unsupported("Op.Create")

    def Is_commutative(self):
        return self.commute

    def Free(self):
        pass


OPS = dict(
    SUM=Op("SUM", lambda a, b: a + b, np.add),
    PROD=Op("PROD", lambda a, b: a * b, np.multiply),
    MAX=Op("MAX", lambda a, b: b if b > a else a, np.maximum),
    MIN=Op("MIN", lambda a, b: b if b < a else a, np.minimum),
    LAND=Op("LAND", lambda a, b: bool(a) and bool(b), np.logical_and),
    LOR=Op("LOR", lambda a, b: bool(a) or bool(b), np.logical_or),
    LXOR=Op("LXOR", lambda a, b: bool(a) ^ bool(b), np.logical_xor),
    BAND=Op("BAND", lambda a, b: a & b, np.bitwise_and),
    BOR=Op("BOR", lambda a, b: a | b, np.bitwise_or),
    BXOR=Op("BXOR", lambda a, b: a ^ b, np.bitwise_xor),
    MAXLOC=Op("MAXLOC", lambda a, b: (b if b[0] > a[0] else a) if a[0] != b[0] else (a[0], min(a[1], b[1])), None),
    MINLOC=Op("MINLOC", lambda a, b: (b if b[0] < a[0] else a) if a[0] != b[0] else (a[0], min(a[1], b[1])), None),
)


class Datatype:
    def __init__(self, name, dtype):
        self.name, self.dtype = name, np.dtype(dtype)

    def Get_size(self):
        return self.dtype.itemsize

    @property
    def size(self):
        return self.dtype.itemsize

    def __repr__(self):
        return f"Datatype({self.name})"

    def __eq__(self, o):
        return isinstance(o, Datatype) and self.dtype == o.dtype

    def __hash__(self):
        return hash(self.dtype)

    def tompi(self):
        return self


DATATYPES = dict(
    DOUBLE="f8", FLOAT="f4", INT="i4", LONG="i8", LONG_LONG="i8", INT64_T="i8", INT32_T="i4", INT16_T="i2",
    INT8_T="i1", UINT64_T="u8", UINT32_T="u4", UINT16_T="u2", UINT8_T="u1", BYTE="u1", CHAR="i1", SHORT="i2",
    UNSIGNED="u4", UNSIGNED_LONG="u8", COMPLEX="c8", DOUBLE_COMPLEX="c16", C_DOUBLE_COMPLEX="c16",
    C_FLOAT_COMPLEX="c8", C_COMPLEX="c8", BOOL="?", CXX_BOOL="?", C_BOOL="?", FLOAT_INT="V8", REAL4="f4", REAL8="f8",
    COMPLEX8="c8", COMPLEX16="c16",
)
DATATYPES = {k: Datatype(k, v) for k, v in DATATYPES.items()}


class Buf:
    """A buffer argument of an upper-case call."""

    def __init__(self, spec, write, what):
        self.counts = self.displs = None
        count, dtype = None, None
        if isinstance(spec, (list, tuple)):
            parts = list(spec)
            buf = parts.pop(0)
            if parts and isinstance(parts[-1], (Datatype, str, np.dtype, type)):
                d = parts.pop()
                if isinstance(d, str):
                    if d in DATATYPES:
                        d = DATATYPES[d]
                    else:
                        d = Datatype(d, d)
                elif not isinstance(d, Datatype):
                    d = Datatype(str(d), d)
                dtype = d.dtype
            if len(parts) == 1:
                c = parts[0]
                if isinstance(c, (tuple, list)) and len(c) == 2 and np.ndim(c[0]) > 0:
                    self.counts, self.displs = c
                elif np.ndim(c) > 0:
                    self.counts = c
                elif c is not None:
                    count = int(c)
            elif len(parts) == 2:
                self.counts, self.displs = parts
                if self.counts is not None and np.ndim(self.counts) == 0:
                    raise Unsupported(f"buffer specification {spec!r}")
            elif parts:
                raise Unsupported(f"buffer specification {spec!r}")
        else:
            buf = spec
        if buf is None:
            self.flat = np.empty(0, dtype or "u1")
            self.dtype, self.count = self.flat.dtype, 0
            return
        if isinstance(buf, (bytearray, bytes, memoryview)):
            arr = np.frombuffer(buf, dtype=dtype or "u1")
        elif isinstance(buf, (np.ndarray, np.generic)):
            arr = np.asarray(buf)
        else:
            try:
                arr = np.asarray(memoryview(buf))
            except TypeError:
                raise TypeError(f"{what}: expecting buffer or list/tuple") from None
        if arr.dtype == object:
            raise TypeError(f"{what}: object arrays have no MPI datatype")
        if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
            raise ValueError("ndarray is not contiguous")
        if write and not arr.flags.writeable:
            raise BufferError("Object is not writable.")
        self.flat = arr.reshape(-1, order="C" if arr.flags.c_contiguous else "F")
        if write and self.flat.size and not np.shares_memory(self.flat, arr):
            raise Unsupported("receive buffer that cannot be viewed flat")
        if dtype is not None and dtype != self.flat.dtype:
            self.flat = self.flat.view(dtype)
        self.dtype = self.flat.dtype
        self.count = self.flat.size if count is None else count
        if self.counts is not None:
            self.counts = [int(c) for c in np.ravel(self.counts)]
            if self.displs is None:
                self.displs = [int(d) for d in np.insert(np.cumsum(self.counts)[:-1], 0, 0)]
            else:
                self.displs = [int(d) for d in np.ravel(self.displs)]

    def get(self):
        return self.flat[: self.count].copy()

    def part(self, i, n):
        if self.counts is not None:
            return self.flat[self.displs[i]: self.displs[i] + self.counts[i]]
        k = self.count // n
        return self.flat[i * k: (i + 1) * k]

    def put(self, world, data, what, target=None):
        t = self.flat[: self.count] if target is None else target
        if data.nbytes > t.nbytes:
            raise MPIException(15, f"MPI_ERR_TRUNCATE: message truncated in {what}")
        if data.dtype != t.dtype:
            world.misuse(f"{what}: type mismatch, {data.dtype} sent but {t.dtype} received")
        t[: data.size] = data


def _dumps(obj):
    return pickle.dumps(obj, protocol=5)


class Status:
    def __init__(self):
        self.source, self.tag, self.count, self.error = ANY_SOURCE, ANY_TAG, 0, 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, datatype=None):
        return self.count

    def Get_error(self):
        return self.error


class Request:
    def __init__(self, comm=None, ready=None, finish=None, desc="request"):
        self._comm, self._ready, self._finish, self._desc = comm, ready, finish, desc
        self._val, self._done = None, comm is None

    def _complete(self):
        if not self._done:
            self._val = self._finish()
            self._done = True
        return self._val

    def wait(self, status=None):
        if not self._done:
            self._comm._w.enter(self._comm._wr, "wait")
            self._comm._w.wait(self._comm._wr, self._ready, self._desc)
        return self._complete()

    def test(self, status=None):
        if self._done:
            return True, self._val
        w, r = self._comm._w, self._comm._wr
        w.enter(r, "test")
        if not self._ready():  # let the others go on, or a polling loop would starve them
            w.ready[r] = True
            others = [q for q in w._runnable() if q != r]
            if others:
                nxt = others[w.choice(len(others))]
                w.ready[nxt], w.pred[nxt] = True, None
                w.locks[nxt].release()
                w.locks[r].acquire()
                w._resume(r)
        if self._ready():
            return True, self._complete()
        return False, None

    def Wait(self, status=None):
        self.wait()
        return True

    def Test(self, status=None):
        return self.test()[0]

    @classmethod
    def waitall(cls, requests, statuses=None):
        return [r.wait() for r in requests]

    @classmethod
    def Waitall(cls, requests, statuses=None):
        for r in requests:
            r.wait()
        return True

    def Free(self):
        pass

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported(f"Request.{name}")


class Group:
    def __init__(self, ranks, me):
        self._ranks, self._me = list(ranks), me

    def Get_size(self):
        return len(self._ranks)

    def Get_rank(self):
        return self._ranks.index(self._me) if self._me in self._ranks else UNDEFINED

    size = property(Get_size)
    rank = property(Get_rank)

    def Incl(self, ranks):
        return Group([self._ranks[r] for r in ranks], self._me)

    def Excl(self, ranks):
        return Group([x for i, x in enumerate(self._ranks) if i not in set(ranks)], self._me)

    def Free(self):
        pass

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported(f"Group.{name}")


class Comm:
    """One rank's handle of a communicator."""

    def __init__(self, ctx=None, me=None):
        self._ctx, self._me = ctx, me  # me: rank in the communicator
        self._attrs = {}

    # COMM_WORLD and COMM_SELF are bound to the world of the current case by ranks.py
    @property
    def _w(self):
        return self._ctx.world

    @property
    def _wr(self):
        return self._ctx.group[self._me]

    def __eq__(self, other):
        return isinstance(other, Comm) and self._ctx is other._ctx

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return id(self._ctx)

    def __bool__(self):
        return self._ctx is not None

    def __reduce__(self):
        raise TypeError("cannot pickle a communicator")

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported(f"Comm.{name}")

    def _check(self):
        if self._ctx is None or self._ctx.freed[self._me]:
            raise MPIException(5, "MPI_ERR_COMM: invalid communicator")

    def Get_rank(self):
        self._check()
        return self._me

    def Get_size(self):
        self._check()
        return len(self._ctx.group)

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return self._ctx.name

    def Set_name(self, name):
        pass

    name = property(Get_name)
    is_intra = True
    is_inter = False

    def Is_intra(self):
        return True

    def Is_inter(self):
        return False

    def Get_group(self):
        return Group(self._ctx.group, self._wr)

    group = property(Get_group)

    @classmethod
    def Compare(cls, a, b):
        if a._ctx is b._ctx:
            return 0
        if a._ctx.group == b._ctx.group:
            return 1
        return 2 if sorted(a._ctx.group) == sorted(b._ctx.group) else 3

    def Set_attr(self, key, value):
        self._attrs[key] = value

    def Get_attr(self, key):
        return self._attrs.get(key)

    def Delete_attr(self, key):
        self._attrs.pop(key, None)

    @classmethod
    def Create_keyval(cls, *a, **k):
        cls._keyval = getattr(cls, "_keyval", 100) + 1
        return cls._keyval

    @classmethod
    def Free_keyval(cls, keyval):
        return -1

    def Set_errhandler(self, h):
        pass

    def Abort(self, errorcode=0):
        self._w.fail("abort", f"rank {self._me} called Abort({errorcode})")

    # -- collectives --------------------------------------------------------------------------------------------------
    def _collective(self, kind, params, data, needs="all", finish=None):
        """Join the next collective of this communicator; needs: 'all', 'root' or 'none' of the others' data."""
        self._check()
        w, ctx, me = self._w, self._ctx, self._me
        w.enter(self._wr, kind)
        idx = ctx.count[me]
        ctx.count[me] += 1
        slot = ctx.slots.get(idx)
        if slot is None:
            slot = ctx.slots[idx] = _Slot(kind, params)
        elif (slot.kind, slot.params) != (kind, params):
            others = sorted(slot.arrived)
            w.misuse(f"collective #{idx} of {ctx.name}: ranks {others} call {slot.kind}{slot.params}, "
                     f"rank {me} calls {kind}{params}")
        slot.arrived.add(me)
        slot.data[me] = data
        n = len(ctx.group)
        if w.strict:
            needs = "all"
        if needs == "all":
            w.wait(self._wr, lambda: len(slot.arrived) == n, f"{kind} #{idx} on {ctx.name}")
        elif needs == "root":
            root = params[0]
            w.wait(self._wr, lambda: root in slot.arrived, f"{kind} #{idx} on {ctx.name}")
        res = finish(slot) if finish else None
        slot.cache.setdefault("left", set()).add(me)
        if len(slot.cache["left"]) == n:
            ctx.slots.pop(idx, None)
        return res

    def _root(self, root):
        root = int(root)
        if not 0 <= root < self.size:
            raise MPIException(8, "MPI_ERR_ROOT: invalid root")
        return root

    def Barrier(self):
        self._collective("Barrier", (), None)

    barrier = Barrier

    def Ibarrier(self):
        raise Unsupported("Comm.Ibarrier")

    def bcast(self, obj=None, root=0):
        root = self._root(root)
        return self._collective("bcast", (root,), _dumps(obj) if self._me == root else None,
                                needs="none" if self._me == root else "root",
                                finish=lambda s: pickle.loads(s.data[root]))

    def gather(self, sendobj, root=0):
        root = self._root(root)
        mine = self._me == root
        return self._collective("gather", (root,), _dumps(sendobj), needs="all" if mine else "none",
                                finish=lambda s: [pickle.loads(s.data[i]) for i in range(self.size)] if mine else None)

    def scatter(self, sendobj=None, root=0):
        root = self._root(root)
        mine = self._me == root
        data = None
        if mine:
            if len(sendobj) != self.size:
                raise ValueError(f"expecting {self.size} items, got {len(sendobj)}")
            data = [_dumps(o) for o in sendobj]
        return self._collective("scatter", (root,), data, needs="none" if mine else "root",
                                finish=lambda s: pickle.loads(s.data[root][self._me]))

    def allgather(self, sendobj):
        return self._collective("allgather", (), _dumps(sendobj),
                                finish=lambda s: [pickle.loads(s.data[i]) for i in range(self.size)])

    def alltoall(self, sendobj):
        sendobj = list(sendobj)
        if len(sendobj) != self.size:
            raise ValueError(f"expecting {self.size} items, got {len(sendobj)}")
        return self._collective("alltoall", (), [_dumps(o) for o in sendobj],
                                finish=lambda s: [pickle.loads(s.data[i][self._me]) for i in range(self.size)])

    def _fold(self, vals, op):
        if self._w.tree:  # balanced association, as recursive doubling does
            while len(vals) > 1:
                vals = [op(vals[i], vals[i + 1]) if i + 1 < len(vals) else vals[i] for i in range(0, len(vals), 2)]
            return vals[0]
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def _op(self, op):
        if not isinstance(op, Op):
            if callable(op):
                return Op(getattr(op, "__name__", "user"), op, None)
            raise TypeError(f"not an MPI op: {op!r}")
        return op

    def allreduce(self, sendobj, op=OPS["SUM"]):
        op = self._op(op)
        return self._collective("allreduce", (op.name,), _dumps(sendobj),
                                finish=lambda s: self._fold([pickle.loads(s.data[i]) for i in range(self.size)], op))

    def reduce(self, sendobj, op=OPS["SUM"], root=0):
        op, root = self._op(op), self._root(root)
        mine = self._me == root
        return self._collective(
            "reduce", (root, op.name), _dumps(sendobj), needs="all" if mine else "none",
            finish=lambda s: self._fold([pickle.loads(s.data[i]) for i in range(self.size)], op) if mine else None)

    def scan(self, sendobj, op=OPS["SUM"]):
        op = self._op(op)
        return self._collective("scan", (op.name,), _dumps(sendobj),
                                finish=lambda s: self._fold([pickle.loads(s.data[i]) for i in range(self._me + 1)], op))

    def exscan(self, sendobj, op=OPS["SUM"]):
        op = self._op(op)
        return self._collective(
            "exscan", (op.name,), _dumps(sendobj),
            finish=lambda s: self._fold([pickle.loads(s.data[i]) for i in range(self._me)], op) if self._me else None)

    # buffers
    def _uniform(self, slot, kind):
        sizes = {(slot.data[i].dtype.str, slot.data[i].size) for i in slot.data}
        if len(sizes) > 1:
            self._w.misuse(f"{kind} on {self._ctx.name}: ranks pass different types or counts {sorted(sizes)}")

    def Bcast(self, buf, root=0):
        root = self._root(root)
        b = Buf(buf, self._me != root, "Bcast")

        def finish(s):
            if self._me != root:
                d = s.data[root]
                if d.size != b.count or d.dtype != b.dtype:
                    self._w.misuse(f"Bcast: root sends {d.size} x {d.dtype}, rank {self._me} expects "
                                   f"{b.count} x {b.dtype}")
                b.put(self._w, d, "Bcast")
        return self._collective("Bcast", (root,), b.get() if self._me == root else None,
                                needs="none" if self._me == root else "root", finish=finish)

    def _reduce_bufs(self, sendbuf, recvbuf, receives):
        r = Buf(recvbuf, True, "reduction") if receives else None
        if sendbuf is IN_PLACE:
            data = r.get()
        else:
            s = Buf(sendbuf, False, "reduction")
            data = s.get()
            if r is not None:
                if s.dtype != r.dtype:
                    raise ValueError("mismatch in send and receive MPI datatypes")
                if s.count != r.count:
                    raise ValueError(f"mismatch in send count {s.count} and receive count {r.count}")
        return data, r

    def _ufold(self, slot, op, upto=None):
        if op.ufunc is None:
            raise Unsupported(f"{op} on buffers")
        vals = [slot.data[i] for i in range(self.size if upto is None else upto)]
        if op.name in ("MAX", "MIN") and vals[0].dtype.kind == "c":
            raise MPIException(9, "MPI_ERR_OP: invalid reduce operation")
        with np.errstate(all="ignore"):
            return self._fold(vals, lambda a, b: op.ufunc(a, b).astype(a.dtype))

    def Allreduce(self, sendbuf, recvbuf, op=OPS["SUM"]):
        op = self._op(op)
        data, r = self._reduce_bufs(sendbuf, recvbuf, True)

        def finish(s):
            self._uniform(s, "Allreduce")
            r.put(self._w, self._ufold(s, op), "Allreduce")
        self._collective("Allreduce", (op.name,), data, finish=finish)

    def Reduce(self, sendbuf, recvbuf, op=OPS["SUM"], root=0):
        op, root = self._op(op), self._root(root)
        mine = self._me == root
        data, r = self._reduce_bufs(sendbuf, recvbuf, mine)

        def finish(s):
            if mine:
                self._uniform(s, "Reduce")
                r.put(self._w, self._ufold(s, op), "Reduce")
        self._collective("Reduce", (root, op.name), data, needs="all" if mine else "none", finish=finish)

    def Scan(self, sendbuf, recvbuf, op=OPS["SUM"]):
        op = self._op(op)
        data, r = self._reduce_bufs(sendbuf, recvbuf, True)
        self._collective("Scan", (op.name,), data,
                         finish=lambda s: r.put(self._w, self._ufold(s, op, self._me + 1), "Scan"))

    def _gatherlike(self, kind, sendbuf, recvbuf, root):
        mine = root is None or self._me == root
        r = Buf(recvbuf, True, kind) if mine else None
        if kind.endswith("v") and mine and r.counts is None and r.count % self.size:
            raise ValueError(f"message: buffer length {r.count} is not multiple of required block count {self.size}")
        if not kind.endswith("v") and mine and r.counts is None and r.count % self.size:
            raise ValueError(f"message: buffer length {r.count} is not multiple of required block count {self.size}")
        data = r.part(self._me, self.size).copy() if sendbuf is IN_PLACE else Buf(sendbuf, False, kind).get()

        def finish(s):
            if not mine:
                return
            for i in range(self.size):
                t, d = r.part(i, self.size), s.data[i]
                if d.nbytes != t.nbytes:
                    if d.nbytes > t.nbytes or not kind.endswith("v"):
                        self._w.misuse(f"{kind}: rank {i} sends {d.size} items where {t.size} are expected")
                r.put(self._w, d, kind, t)
        params = () if root is None else (root,)
        self._collective(kind, params, data, needs="all" if mine else "none", finish=finish)

    def Allgather(self, sendbuf, recvbuf):
        self._gatherlike("Allgather", sendbuf, recvbuf, None)

    def Allgatherv(self, sendbuf, recvbuf):
        self._gatherlike("Allgatherv", sendbuf, recvbuf, None)

    def Gather(self, sendbuf, recvbuf, root=0):
        self._gatherlike("Gather", sendbuf, recvbuf, self._root(root))

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self._gatherlike("Gatherv", sendbuf, recvbuf, self._root(root))

    def _scatterlike(self, kind, sendbuf, recvbuf, root):
        mine = self._me == root
        data = None
        if mine:
            s = Buf(sendbuf, False, kind)
            data = [s.part(i, self.size).copy() for i in range(self.size)]
        r = None if recvbuf is IN_PLACE else Buf(recvbuf, True, kind)

        def finish(slot):
            if r is not None:
                r.put(self._w, slot.data[root][self._me], kind)
        self._collective(kind, (root,), data, needs="none" if mine else "root", finish=finish)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._scatterlike("Scatter", sendbuf, recvbuf, self._root(root))

    def Scatterv(self, sendbuf, recvbuf, root=0):
        self._scatterlike("Scatterv", sendbuf, recvbuf, self._root(root))

    def _alltoalllike(self, kind, sendbuf, recvbuf):
        s, r = Buf(sendbuf, False, kind), Buf(recvbuf, True, kind)
        data = [s.part(i, self.size).copy() for i in range(self.size)]

        def finish(slot):
            for i in range(self.size):
                r.put(self._w, slot.data[i][self._me], kind, r.part(i, self.size))
        self._collective(kind, (), data, finish=finish)

    def Alltoall(self, sendbuf, recvbuf):
        self._alltoalllike("Alltoall", sendbuf, recvbuf)

    def Alltoallv(self, sendbuf, recvbuf):
        self._alltoalllike("Alltoallv", sendbuf, recvbuf)

    # -- communicators --------------------------------------------------------------------------------------------------
    def Split(self, color=0, key=0):
        try:
            color, key = int(color), int(key)
        except TypeError:
            raise TypeError(f"an integer is required, got {color!r}, {key!r}") from None
        if color < 0 and color != UNDEFINED:
            raise MPIException(13, "MPI_ERR_ARG: invalid color")

        def finish(s):
            if "ctx" not in s.cache:
                s.cache["ctx"] = {}
                for c in sorted({d[0] for d in s.data.values()} - {UNDEFINED}):
                    members = sorted((d[1], i) for i, d in s.data.items() if d[0] == c)
                    s.cache["ctx"][c] = (Ctx(self._w, [self._ctx.group[i] for _, i in members]),
                                         [i for _, i in members])
                self._w.nsplits += 1
            if color == UNDEFINED:
                return Comm(None, None)
            ctx, members = s.cache["ctx"][color]
            return type(self)(ctx, members.index(self._me))
        return self._collective("Split", (), (color, key), finish=finish)

    def Dup(self, info=None):
        def finish(s):
            if "ctx" not in s.cache:
                s.cache["ctx"] = Ctx(self._w, list(self._ctx.group))
            return type(self)(s.cache["ctx"], self._me)
        return self._collective("Dup", (), None, finish=finish)

    Clone = Dup

    def Split_type(self, split_type=0, key=0, info=None):
        return self.Split(0, key)

    def Create(self, group):
        def finish(s):
            key = tuple(group._ranks)
            ctxs = s.cache.setdefault("ctx", {})
            if self._wr not in key:
                return Comm(None, None)
            if key not in ctxs:
                ctxs[key] = Ctx(self._w, list(key))
            return type(self)(ctxs[key], key.index(self._wr))
        return self._collective("Create", (), None, finish=finish)

    def Free(self):
        self._collective("Free", (), None)
        self._ctx.freed[self._me] = True

    def Disconnect(self):
        self.Free()

    # -- point to point -------------------------------------------------------------------------------------------------
    def _peer(self, r, what):
        r = int(r)
        if r == PROC_NULL or (r == ANY_SOURCE and what == "source"):
            return r
        if not 0 <= r < self.size:
            raise MPIException(6, f"MPI_ERR_RANK: invalid rank {r}")
        return r

    def _post(self, payload, dest, tag, pickled):
        m = _Msg(self._me, int(tag), payload, pickled)
        self._w.nreal_sends += 1
        self._w.queues.setdefault((self._ctx.id, dest), []).append(m)
        return m

    def _candidates(self, source, tag):
        """First unmatched message of every source that fits."""
        out, seen = [], set()
        for m in self._w.queues.get((self._ctx.id, self._me), ()):
            if m.matched or m.src in seen:
                continue
            if source not in (ANY_SOURCE, m.src):
                continue
            if tag not in (ANY_TAG, m.tag):
                continue
            seen.add(m.src)
            out.append(m)
        return out

    def _take(self, source, tag, status):
        c = self._candidates(source, tag)
        m = c[self._w.choice(len(c))]
        m.matched = True
        self._w.queues[(self._ctx.id, self._me)].remove(m)
        if status is not None:
            status.source, status.tag = m.src, m.tag
            status.count = len(m.payload) if m.pickled else m.payload.size
        return m

    def _send(self, payload, dest, tag, pickled, mode):
        self._check()
        dest = self._peer(dest, "dest")
        w = self._w
        w.enter(self._wr, "send")
        if dest == PROC_NULL:
            return
        m = self._post(payload, dest, tag, pickled)
        if mode == "sync" or (mode == "standard" and w.sync):
            w.wait(self._wr, lambda: m.matched, f"send to {dest} with tag {tag} on {self._ctx.name}")

    def send(self, obj, dest, tag=0):
        self._send(_dumps(obj), dest, tag, True, "standard")

    def bsend(self, obj, dest, tag=0):
        self._send(_dumps(obj), dest, tag, True, "buffered")

    def ssend(self, obj, dest, tag=0):
        self._send(_dumps(obj), dest, tag, True, "sync")

    def Send(self, buf, dest, tag=0):
        self._send(Buf(buf, False, "Send").get(), dest, tag, False, "standard")

    def Ssend(self, buf, dest, tag=0):
        self._send(Buf(buf, False, "Send").get(), dest, tag, False, "sync")

    def _recvwait(self, source, tag, status):
        w = self._w
        w.wait(self._wr, lambda: bool(self._candidates(source, tag)),
               f"recv from {source} with tag {tag} on {self._ctx.name}")
        return self._take(source, tag, status)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._check()
        source = self._peer(source, "source")
        self._w.enter(self._wr, "recv")
        if source == PROC_NULL:
            return None
        return self._unpickle(self._recvwait(source, tag, status))

    def _unpickle(self, m):
        if not m.pickled:
            self._w.misuse("recv of a message sent as a buffer")
        return pickle.loads(m.payload)

    def _fill(self, m, b):
        if m.pickled:
            self._w.misuse("Recv of a message sent as a pickle")
        b.put(self._w, m.payload, "Recv")

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._check()
        source = self._peer(source, "source")
        b = Buf(buf, True, "Recv")
        self._w.enter(self._wr, "recv")
        if source == PROC_NULL:
            return
        self._fill(self._recvwait(source, tag, status), b)

    def _isend(self, payload, dest, tag, pickled):
        self._check()
        dest = self._peer(dest, "dest")
        self._w.enter(self._wr, "isend")
        if dest == PROC_NULL:
            return Request()
        m = self._post(payload, dest, tag, pickled)
        ready = (lambda: m.matched) if self._w.sync else (lambda: True)
        return Request(self, ready, lambda: None, f"wait for isend to {dest} with tag {tag}")

    def isend(self, obj, dest, tag=0):
        return self._isend(_dumps(obj), dest, tag, True)

    issend = isend

    def Isend(self, buf, dest, tag=0):
        return self._isend(Buf(buf, False, "Isend").get(), dest, tag, False)

    def _irecv(self, source, tag, finish):
        self._check()
        source = self._peer(source, "source")
        self._w.enter(self._wr, "irecv")
        if source == PROC_NULL:
            return Request()
        # matched when it completes; receives posted later on the same source and tag complete later in all our callers
        box = {}

        def ready():
            if "m" not in box and self._candidates(source, tag):
                box["m"] = self._take(source, tag, None)
            return "m" in box
        ready()
        req = Request(self, ready, lambda: finish(box["m"]), f"wait for irecv from {source} with tag {tag}")
        self._w.posted.append(ready)
        return req

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return self._irecv(source, tag, self._unpickle)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        b = Buf(buf, True, "Irecv")
        return self._irecv(source, tag, lambda m: self._fill(m, b))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.isend(sendobj, dest, sendtag)
        out = self.recv(None, source, recvtag, status)
        r.wait()
        return out

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.Isend(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag, status)
        r.wait()

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._w.enter(self._wr, "probe")
        self._w.wait(self._wr, lambda: bool(self._candidates(source, tag)), "probe")
        if status is not None:
            m = self._candidates(source, tag)[0]
            status.source, status.tag = m.src, m.tag
            status.count = len(m.payload) if m.pickled else m.payload.size
        return True

    Probe = probe


class Intracomm(Comm):
    pass


def make_mpi_module(comm_world, comm_self):
    """A module object that stands for mpi4py.MPI on one rank."""
    m = types.ModuleType("mpi4py.MPI")
    m.COMM_WORLD, m.COMM_SELF, m.COMM_NULL = comm_world, comm_self, Comm(None, None)
    m.Comm, m.Intracomm, m.Op, m.Request, m.Status, m.Group, m.Datatype = \
        Comm, Intracomm, Op, Request, Status, Group, Datatype
    m.Exception = MPIException
    m.ANY_SOURCE, m.ANY_TAG, m.PROC_NULL, m.UNDEFINED, m.ROOT, m.IN_PLACE = \
        ANY_SOURCE, ANY_TAG, PROC_NULL, UNDEFINED, ROOT, IN_PLACE
    m.SUCCESS = 0
    m.IDENT, m.CONGRUENT, m.SIMILAR, m.UNEQUAL = 0, 1, 2, 3
    m.COMM_TYPE_SHARED = 0
    m.REQUEST_NULL = Request()
    m.KEYVAL_INVALID = -1
    for k, v in OPS.items():
        setattr(m, k, v)
    for k, v in DATATYPES.items():
        setattr(m, k, v)
    m.Wtime = lambda: float(comm_world._w.ops)
    m.Wtick = lambda: 1.0
    m.Get_processor_name = lambda: "sim"
    m.Is_initialized = lambda: True
    m.Is_finalized = lambda: False
    m.Get_version = lambda: (3, 1)
    m.Query_thread = lambda: 3
    m.pickle = types.SimpleNamespace(dumps=_dumps, loads=pickle.loads)

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"MPI.{name}")
    m.__getattr__ = missing
    return m
