"""Page trees of every shape, with attributes at any node."""
import functools
from mc import refpdf as R


@functools.lru_cache(None)
def forests(n):
    """Every ordered forest of n nodes: tuples of trees, a tree being the tuple of its children."""
    if n == 0:
        return ((),)
    out = []
    for first in range(1, n + 1):
        for t in forests(first - 1):
            for r in forests(n - first):
                out.append((t,) + r)
    return tuple(out)


def shapes(maxnodes, minnodes=1):
    """Forests under the root; a tree without children is a page."""
    return [f for n in range(minnodes, maxnodes + 1) for f in forests(n)]


def leaves(forest):
    return sum(leaves(t) if t else 1 for t in forest)


class Tree:
    """objs: {num: value} with catalog 1 and the tree from 2 on in depth-first order (or backwards)."""

    def __init__(self, forest, reverse=False, empty=()):
        self.objs = {}
        self.nodes = []         # numbers in depth-first order, root first
        self.leaf = []
        count = [0]
        total = 1 + self.size(forest)

        def number():
            n = 1 + total - count[0] if reverse else 2 + count[0]
            count[0] += 1
            return n

        def rec(children, parent, root=False):
            n = number()
            self.nodes.append(n)
            if not children and not root and (len(self.nodes) - 1) not in empty:
                self.objs[n] = {'/Type': '/Page', '/Parent': complex(0, parent)}
                self.leaf.append(n)
                return n, 1
            self.objs[n] = o = {'/Type': '/Pages'}
            if parent:
                o['/Parent'] = complex(0, parent)
            kids, c = [], 0
            for t in children:
                k, x = rec(t, n)
                kids.append(complex(0, k))
                c += x
            o['/Kids'] = kids
            o['/Count'] = c
            return n, c
        self.root = rec(forest, 0, True)[0]
        self.objs[1] = {'/Type': '/Catalog', '/Pages': complex(0, self.root)}
        self.next = total + 2

    @staticmethod
    def size(forest):
        return sum(1 + Tree.size(t) for t in forest)

    def new(self, v):
        n = self.next
        self.objs[n] = v
        self.next += 1
        return complex(0, n)

    def data(self, form='table', trailer=None, **kw):
        pk = [n for n in sorted(self.objs) if not isinstance(self.objs[n], R.S)] if form == 'packed' else ()
        rev = R.Rev(dict(self.objs), form={'packed': 'stream'}.get(form, form), packed=pk, trailer=trailer or {}, **kw)
        return R.build([rev], root=1j)[0]
