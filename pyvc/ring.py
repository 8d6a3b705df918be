"""pyvc.ring -- collections.deque of symbolic length, with the assumed contract of
its methods (rotate, popleft, pop, append, appendleft; maxlen if given)."""
import z3

from . import core
from .arr import note_write
from .core import SBool, SInt, Unsupported, ctx
from .loops import VList
from .symseq import RecProxy, SymSeq, Store, put_elem


class Ring(VList):
    maxlen = None

    def _move(self, n, at):
        """New contents: element j is the old element at(j)."""
        s = self.sym
        note_write(ctx(), s.store)
        st = Store(s.store.template, terms=dict(s.store.a))
        j = z3.Int(ctx().fresh_name("j"))
        for p, a in s.store.a.items():
            st.a[p] = z3.Lambda([j], z3.Select(a, at(j)))
        s.store.dead = True
        st.serial = s.store.serial
        self.sym = SymSeq(st, n, s.t, None, s.path, s.flavor)

    def rotate(self, k=1):
        n = core.term(self.sym.n)
        k = core.term(k)
        self._move(self.sym.n, lambda j: z3.If(n > 0, (j - k) % n, j))

    def _single(self, i):
        return RecProxy(self.sym.store, self.sym.path, self.sym.t, core.term(i)).__deepcopy__({})

    def popleft(self):
        ctx().safe("pop from a deque with elements", self.sym.n > 0)
        v = self._single(SInt(z3.IntVal(0)))
        self._move(self.sym.n - 1, lambda j: j + 1)
        return v

    def pop(self, *a):
        if a:
            raise TypeError("deque.pop() takes no arguments")
        ctx().safe("pop from a deque with elements", self.sym.n > 0)
        v = self._single(self.sym.n - 1)
        self._move(self.sym.n - 1, lambda j: j)
        return v

    def _full(self):
        return self.maxlen is not None and ctx().fork(self.sym.n == self.maxlen)

    def append(self, v):
        if self._full():
            self.popleft()
        n = self.sym.n
        self._move(n + 1, lambda j: j)
        put_elem(self.sym.store, self.sym.path, self.sym.t, core.term(n), v, "append")

    def appendleft(self, v):
        if self._full():
            self.pop()
        self._move(self.sym.n + 1, lambda j: j - 1)
        put_elem(self.sym.store, self.sym.path, self.sym.t, z3.IntVal(0), v, "append")

    def extend(self, vs):
        for v in vs:
            self.append(v)

    insert = sort = __mul__ = __rmul__ = __add__ = None

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise TypeError("sequence index must be integer, not 'slice'")
        return VList.__getitem__(self, i)
