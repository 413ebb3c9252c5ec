"""Abstract interpretation of parsa_python_cst over the tree language of the grammar.

Domain: a lazily expanded partial tree.  A tree node is (labels, parent, kids, anchor, exact):
  labels  frozenset of grammar labels the node may have
  parent  node id | None (not explored) | -1 (has none)
  kids    None (not explored) | (entries, gaps): known children in order, entry = (id, s, t) with the
          grammar automaton's state before/after it; gaps[i] says whether unknown children may
          stand before entry i (gaps[-1]: before the end)
  anchor  a known child whose position among the children is not yet chosen
  exact   False if the label set is a gross over-approximation (nothing may be concluded)
Forks happen on automaton states and on label sets only; there is no solver and nothing is run.
"""
import sys
sys.setrecursionlimit(20000)
from grammar import is_leaf

OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
TOP = ('top',)
NONE = ('a', OPT, 0, ())
QNONE = ('a', OPT, 0, (), 'q')
UNIT = ('t', ())
def some(v):
    return ('a', OPT, 1, (v,))
def I(n):
    return ('i', n)
def B(b, q=False):
    return ('i', 1 if b else 0, 'q') if q else ('i', 1 if b else 0)
def is_none(v):
    return v[0] == 'a' and v[1] == OPT and v[2] == 0
def is_some(v):
    return v[0] == 'a' and v[1] == OPT and v[2] == 1
def tainted(v):
    return v[0] == 'top' or v[-1] == 'q'

class Bail(Exception):
    pass

class Budget:
    used = 0
    limit = 10**12

class Tick:
    """gives up on what takes too long or too much memory, whatever the budget of states says"""
    until = None
    on = False
    @staticmethod
    def start(seconds):
        import signal, time
        Tick.until = time.time() + seconds
        if not Tick.on:
            Tick.on = True
            signal.signal(signal.SIGALRM, Tick.fire)
            signal.setitimer(signal.ITIMER_REAL, 0.5, 0.5)
    @staticmethod
    def stop():
        Tick.until = None
    @staticmethod
    def fire(*_):
        import time
        if Tick.until is not None and (time.time() > Tick.until or rss() > 2500):
            raise Bail('budget')

def rss():
    """memory of this process, in MB"""
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096 >> 20

class St:
    __slots__ = ('env', 'cells', 'g', 'opq', 'nxt')
    def __init__(self, env, cells, g, nxt, opq=0):
        self.env, self.cells, self.g, self.nxt, self.opq = env, cells, g, nxt, opq
    def copy(self):
        Budget.used += 1
        if Budget.used > Budget.limit:
            raise Bail('budget')
        return St(dict(self.env), dict(self.cells), dict(self.g), self.nxt, self.opq)
    def new(self, labels, parent=None, kids=None, anchor=None, exact=True):
        i = self.nxt
        self.nxt += 1
        self.g[i] = (frozenset(labels), parent, kids, anchor, exact)
        return i

MAXKIDS = 7
MANY = 45

class Tree:
    """graph operations; all return lists of (result, state)"""
    def __init__(self, gr):
        self.gr = gr
        self.childlabels = {}
        for l in gr.reachable:
            if is_leaf(l):
                self.childlabels[l] = frozenset()
            else:
                s = set()
                for ls in gr.dfa[l].edges.values():
                    s |= ls
                self.childlabels[l] = frozenset(s & gr.reachable)
        self.parentlabels = {l: frozenset(p for p, _, _ in gr.parents.get(l, ())) for l in gr.reachable}
        self.root = ('N', gr.first)

    def setl(self, st, n, labels, depth=0):
        """refine labels; False if impossible"""
        old, parent, kids, anchor, exact = st.g[n]
        labels = old & labels
        if not labels:
            return False
        if labels == old:
            return True
        st.g[n] = (labels, parent, kids, anchor, exact)
        if anchor is not None and kids is None:
            ok = set()
            for l in labels:
                ok |= self.childlabels[l]
            if not self.setl(st, anchor, frozenset(ok), depth+1):
                return False
        if parent not in (None, -1):
            p = st.g.get(parent)
            if p and p[2] is None and p[3] == n and depth < 8:
                ok = set()
                for l in labels:
                    ok |= self.parentlabels[l]
                if not self.setl(st, parent, frozenset(ok), depth+1):
                    return False
        return True

    def single(self, st, n):
        """fork until n has one label and its children list is initialised"""
        labels, parent, kids, anchor, exact = st.g[n]
        if kids is not None and len(labels) == 1:
            return [st]
        if len(labels) > MANY:
            return None
        out = []
        for l in sorted(labels):
            s = st if len(labels) == 1 else st.copy()
            if not self.setl(s, n, frozenset([l])):
                continue
            if s.g[n][2] is not None:
                out.append(s)
                continue
            if is_leaf(l):
                lb, p, _, _, e = s.g[n]
                s.g[n] = (lb, p, ((), (False,)), None, e)
                out.append(s)
                continue
            if anchor is None:
                lb, p, _, _, e = s.g[n]
                s.g[n] = (lb, p, ((), (True,)), None, e)
                out.append(s)
                continue
            d = self.gr.dfa[l]
            al = s.g[anchor][0]
            for (a, b), ls in sorted(d.edges.items()):
                if ls & al:
                    s2 = s.copy()
                    lb, p, _, _, e = s2.g[n]
                    s2.g[n] = (lb, p, (((anchor, a, b),), (True, True)), None, e)
                    if self.setl(s2, anchor, ls):
                        out.append(s2)
        return out

    def blurchild(self, st, n):
        labels = st.g[n][0]
        ok = set()
        for l in labels:
            ok |= self.childlabels[l]
        if not ok:
            return [(None, st)]
        s1, s2 = st, st.copy()
        c = s2.new(ok, parent=None, exact=False)
        s1.opq |= 4
        s2.opq |= 4
        return [('q', s1), (c, s2)]

    def step(self, st, n, i, fwd):
        """neighbour of position i of n's children (fwd: after entry i, -1 = start; else before
        entry i, len = end).  st must be single at n.  -> [(child id | None, st)]"""
        labels, parent, kids, anchor, exact = st.g[n]
        (l,) = labels
        ents, gaps = kids
        gi = i+1 if fwd else i
        left, right = gi-1, gi
        if not gaps[gi]:
            j = right if fwd else left
            if 0 <= j < len(ents):
                return [(ents[j][0], st)]
            return [(None, st)]
        d = self.gr.dfa[l]
        out = []
        ls_ = 0 if left < 0 else ents[left][2]
        rs = None if right >= len(ents) else ents[right][1]
        # close the gap
        if (rs is None and ls_ in d.acc) or (rs is not None and rs == ls_):
            s = st.copy()
            g2 = gaps[:gi] + (False,) + gaps[gi+1:]
            s.g[n] = (labels, parent, (ents, g2), None, exact)
            j = right if fwd else left
            out.append((ents[j][0] if 0 <= j < len(ents) else None, s))
        if fwd:
            cand = [(ls_, t, lab) for t, lab in d.out[ls_] if rs is None or rs in d.reach[t]]
        else:
            if rs is None:
                cand = [(s0, t, lab) for (s0, t), lab in sorted(d.edges.items()) if t in d.acc and s0 in d.reach[ls_]]
            else:
                cand = [(s0, rs, lab) for s0, lab in d.inn[rs] if s0 in d.reach[ls_]]
        for s0, t, lab in cand:
            lab = lab & self.gr.reachable
            if not lab:
                continue
            s = st.copy()
            c = s.new(lab, parent=n, exact=exact)
            e2 = ents[:gi] + ((c, s0, t),) + ents[gi:]
            g2 = gaps[:gi] + ((False, True) if fwd else (True, False)) + gaps[gi+1:]
            s.g[n] = (labels, parent, (e2, g2), None, exact)
            out.append((c, s))
        return out

    def find(self, st, n, c):
        k = st.g[n][2]
        if k is not None:
            for i, e in enumerate(k[0]):
                if e[0] == c:
                    return i
        return None

    def first_after(self, st, n, cur):
        """next child of n after cursor (None=start, or child id)."""
        ss = self.single(st, n)
        if ss is None:
            return self.blurchild(st, n)
        out = []
        for s in ss:
            if cur is None:
                i = -1
            else:
                i = self.find(s, n, cur)
                if i is None:
                    out += self.blurchild(s, n)
                    continue
            out += self.step(s, n, i, True)
        return out

    def last_child(self, st, n):
        ss = self.single(st, n)
        if ss is None:
            return self.blurchild(st, n)
        out = []
        for s in ss:
            out += self.step(s, n, len(s.g[n][2][0]), False)
        return out

    def parent(self, st, n):
        labels, parent, kids, anchor, exact = st.g[n]
        if parent == -1:
            return [(None, st)]
        if parent is not None:
            return [(parent, st)]
        out = []
        if self.root in labels:
            s = st.copy()
            lb, p, k, a, e = s.g[n]
            s.g[n] = (lb & frozenset([self.root]), -1, k, a, e)
            out.append((None, s))
        ok = frozenset(l for l in labels if self.parentlabels[l])
        if ok:
            s = st.copy()
            pl = set()
            for l in ok:
                pl |= self.parentlabels[l]
            p = s.new(pl, anchor=n, exact=exact)
            lb, _, k, a, e = s.g[n]
            s.g[n] = (lb & ok, p, k, a, e)
            out.append((p, s))
        return out

    def sibling(self, st, n, fwd):
        out = []
        for p, s in self.parent(st, n):
            if p is None:
                out.append((None, s))
                continue
            ss = self.single(s, p)
            if ss is None:
                s1, s2 = s, s.copy()
                c = s2.new(self.gr.reachable, exact=False)
                s1.opq |= 4
                s2.opq |= 4
                out += [('q', s1), (c, s2)]
                continue
            for s2 in ss:
                i = self.find(s2, p, n)
                if i is None:
                    s3 = s2.copy()
                    c = s3.new(self.gr.reachable, exact=False)
                    s2.opq |= 4
                    s3.opq |= 4
                    out += [('q', s2), (c, s3)]
                    continue
                out += self.step(s2, p, i, fwd)
        return out
