"""The Python grammar of /repo, read from the create_grammar! invocation, as a tree language.

Every nonterminal N gets a minimal DFA over child labels.  A label is one of
  ('N', rule) ('T', terminal) ('K', keyword)       proper nodes
  ('EN', rule) ('ET', terminal) ('EK', keyword)    nodes with the error-recovery bit
Rules marked `:?` are omitted from the tree when they have exactly one child, so a reference to such
a rule is expanded to the labels that can stand in its place.
Lookaheads are ignored (over-approximation).
"""
import re

class GrammarError(Exception):
    pass

TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<str>"(?:[^"\\]|\\.)*")|(?P<id>[A-Za-z_]\w*)|(?P<op>[|*+?()\[\].:!&@,=;~])''', re.S)

def tokenize(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise GrammarError('cannot tokenize grammar at %r' % text[i:i+30])
        i = m.end()
        if m.group('str') is not None:
            out.append(('str', m.group('str')[1:-1].replace('\\\\', '\\').replace('\\"', '"')))
        elif m.group('id'):
            out.append(('id', m.group('id')))
        elif m.group('op'):
            out.append(('op', m.group('op')))
    return out

def find_invocation(src):
    m = re.search(r'create_grammar!\s*\(', src)
    if not m:
        raise GrammarError('create_grammar! invocation not found')
    i = m.end()
    depth, j = 1, i
    while depth:
        c = src[j]
        if c == '"':
            j += 1
            while src[j] != '"':
                j += 2 if src[j] == '\\' else 1
        elif src.startswith('//', j):
            j = src.index('\n', j)
        elif c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        j += 1
    return src[i:j-1]

class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else ('eof', '')
    def op(self, o):
        if self.peek() == ('op', o):
            self.i += 1
            return True
        return False
    def need(self, o):
        if not self.op(o):
            raise GrammarError('expected %r got %r' % (o, self.peek()))
    def alt(self, end):
        self.op('|')
        parts = [self.seq(end)]
        while self.op('|'):
            parts.append(self.seq(end))
        return ('alt', parts) if len(parts) > 1 else parts[0]
    def seq(self, end):
        items = []
        while True:
            k = self.peek()
            if k[0] == 'eof' or k == ('op', '|') or (k[0] == 'op' and k[1] in end):
                break
            if end == '' and k[0] == 'id' and self.peek(1) == ('op', ':'):
                break
            items.append(self.item())
        return ('seq', items)
    def prim(self):
        k, v = self.peek()
        self.i += 1
        if k == 'str':
            return ('sym', ('K', v))
        if k == 'id':
            return ('sym', ('T', v) if v[0].isupper() else ('N', v))
        if (k, v) == ('op', '('):
            a = self.alt(')')
            self.need(')')
            return a
        if (k, v) == ('op', '['):
            a = self.alt(']')
            self.need(']')
            return ('opt', a)
        raise GrammarError('unexpected %r' % ((k, v),))
    def item(self):
        if self.op('!'):
            self.prim()
            return ('look', '-')
        if self.op('&'):
            self.prim()
            return ('look', '+')
        if self.op('~'):
            return self.item()
        a = self.prim()
        if self.op('.'):
            b = self.prim()
            self.need('+')
            return ('seq', [b, ('opt', ('multi', ('seq', [a, b])))])
        if self.op('*'):
            return ('opt', ('multi', a))
        if self.op('+'):
            return ('multi', a)
        if self.op('?'):
            return ('opt', a)
        return a

class DFA:
    """states 0..n-1, start 0; trans[s] = {label: t}; acc = set"""
    def __init__(self, trans, acc):
        self.trans, self.acc = trans, acc
        n = len(trans)
        self.n = n
        # edges grouped by (s,t)
        self.edges = {}
        for s in range(n):
            for l, t in trans[s].items():
                self.edges.setdefault((s, t), set()).add(l)
        self.edges = {k: frozenset(v) for k, v in self.edges.items()}
        self.out = [[] for _ in range(n)]
        self.inn = [[] for _ in range(n)]
        for (s, t), ls in sorted(self.edges.items()):
            self.out[s].append((t, ls))
            self.inn[t].append((s, ls))
        self.reach = []
        for s in range(n):
            seen, st = {s}, [s]
            while st:
                x = st.pop()
                for t, _ in self.out[x]:
                    if t not in seen:
                        seen.add(t)
                        st.append(t)
            self.reach.append(frozenset(seen))
        self.coacc = frozenset(s for s in range(n) if self.reach[s] & self.acc)
        self.reach_plus = []
        for s in range(n):
            r = set()
            for t, _ in self.out[s]:
                r |= self.reach[t]
            self.reach_plus.append(frozenset(r))

def build_nfa(expr, cut=False):
    eps, tr = {}, {}
    cnt = [0]
    def new():
        cnt[0] += 1
        return cnt[0]-1
    def e(a, b):
        eps.setdefault(a, set()).add(b)
    # Mirrors parsa's own construction (RuleAutomaton::build), which adds no fresh states for the
    # optional and repetition operators.
    def go(x):
        k = x[0]
        if k == 'sym':
            a, b = new(), new()
            tr.setdefault(a, []).append((x[1], b))
            return a, b
        if k == 'look':
            a, b = new(), new()
            if not (cut and x[1] == '+'):
                e(a, b)
            return a, b
        if k == 'seq':
            a, cur = go(x[1][0])
            for y in x[1][1:]:
                p, q = go(y)
                e(cur, p)
                cur = q
            return a, cur
        if k == 'alt':
            a, b = new(), new()
            for y in x[1]:
                p, q = go(y)
                e(a, p)
                e(q, b)
            return a, b
        if k == 'opt':
            a, b = go(x[1])
            e(a, b)
            return a, b
        if k == 'multi':
            a, b = go(x[1])
            e(b, a)
            return a, b
        raise GrammarError(k)
    s, f = go(expr)
    return eps, tr, s, f

def determinize(eps, tr, s, f, expand):
    def clo(S):
        S = set(S)
        st = list(S)
        while st:
            x = st.pop()
            for y in eps.get(x, ()):
                if y not in S:
                    S.add(y)
                    st.append(y)
        return frozenset(S)
    start = clo([s])
    idx = {start: 0}
    order = [start]
    trans = []
    i = 0
    while i < len(order):
        S = order[i]
        m = {}
        for x in S:
            for l, y in tr.get(x, ()):
                for l2 in expand(l):
                    m.setdefault(l2, set()).add(y)
        row = {}
        for l, Y in m.items():
            T = clo(Y)
            if T not in idx:
                idx[T] = len(order)
                order.append(T)
            row[l] = idx[T]
        trans.append(row)
        i += 1
    acc = {i for i, S in enumerate(order) if f in S}
    return trans, acc

def minimize(trans, acc):
    n = len(trans)
    # trim non-coaccessible
    rev = {}
    for s in range(n):
        for l, t in trans[s].items():
            rev.setdefault(t, set()).add(s)
    live = set(acc)
    st = list(acc)
    while st:
        x = st.pop()
        for y in rev.get(x, ()):
            if y not in live:
                live.add(y)
                st.append(y)
    part = {s: (1 if s in acc else 0) for s in live}
    while True:
        sig = {}
        new = {}
        for s in sorted(live):
            k = (part[s], tuple(sorted((l, part[t]) for l, t in trans[s].items() if t in live)))
            new[s] = sig.setdefault(k, len(sig))
        if len(set(new.values())) == len(set(part.values())):
            part = new
            break
        part = new
    if 0 not in live:
        return DFA([{}], set())
    # renumber by BFS from start in sorted label order (canonical)
    rep = {}
    for s in sorted(live):
        rep.setdefault(part[s], s)
    num = {part[0]: 0}
    order = [part[0]]
    i = 0
    out = []
    while i < len(order):
        s = rep[order[i]]
        row = {}
        for l, t in sorted(trans[s].items()):
            if t in live:
                p = part[t]
                if p not in num:
                    num[p] = len(order)
                    order.append(p)
                row[l] = num[p]
        out.append(row)
        i += 1
    a = {num[part[s]] for s in acc if s in live and part[s] in num}
    return DFA(out, a)

ERR = {'N': 'EN', 'T': 'ET', 'K': 'EK'}
def err(l):
    return (ERR.get(l[0], l[0]), l[1])
def proper(l):
    return ({'EN': 'N', 'ET': 'T', 'EK': 'K'}.get(l[0], l[0]), l[1])
def is_leaf(l):
    return l[0] in ('T', 'K', 'ET', 'EK')

class Grammar:
    def __init__(self, src, terminals=()):
        body = find_invocation(src)
        m = re.search(r'soft_keywords\s*=\s*\[', body)
        if not m:
            raise GrammarError('soft_keywords not found')
        j = body.index(']', m.end())
        self.soft = set(re.findall(r'"([^"]+)"', body[m.end():j]))
        p = P(tokenize(body[j+1:]))
        self.rules, self.omit, self.recover = {}, set(), set()
        self.first = None
        while p.peek()[0] != 'eof':
            k, name = p.peek()
            if k != 'id' or p.peek(1) != ('op', ':'):
                raise GrammarError('rule head expected, got %r' % ((k, name),))
            p.i += 2
            if p.op('?'):
                self.omit.add(name)
            if p.op('@'):
                if p.peek() != ('id', 'error_recovery'):
                    raise GrammarError('unknown annotation')
                p.i += 1
                self.recover.add(name)
            if name in self.rules:
                raise GrammarError('duplicate rule ' + name)
            self.rules[name] = p.alt('')
            self.first = self.first or name
        self.order = list(self.rules)
        raw = {}
        for r, e in self.rules.items():
            raw[r] = build_nfa(e)
        for r, (eps, tr, s, f) in raw.items():
            for x in tr.values():
                for l, _ in x:
                    if l[0] == 'N' and l[1] not in self.rules:
                        raise GrammarError('undefined nonterminal ' + l[1])
        # single-child alternatives of omitted rules
        single, fullsingle = {}, {}
        for r in self.omit:
            eps, tr, s, f = raw[r]
            t, a = determinize(eps, tr, s, f, lambda l: [l])
            # A left recursive rule that ends in a positive lookahead is continued by its own left
            # recursion: for other rules only the alternatives without lookahead count.
            if ('N', r) in t[0]:
                fullsingle[r] = {l for l, x in t[0].items() if x in a}
                eps, tr, s, f = build_nfa(self.rules[r], True)
                t, a = determinize(eps, tr, s, f, lambda l: [l])
            single[r] = {l for l, x in t[0].items() if x in a}
        self._exp = {}
        def expand(l, seen=()):
            if l[0] != 'N' or l[1] not in self.omit:
                return frozenset([l])
            if l in self._exp:
                return self._exp[l]
            out, st, seen = set(), [l], set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                out_x = x
                if x[0] == 'N' and x[1] in self.omit:
                    out.add(x)
                    st.extend(single[x[1]])
                else:
                    out.add(x)
            self._exp[l] = frozenset(out)
            return self._exp[l]
        self.expand = expand
        # labels with which an unfinished (hence not yet materialised) omitted rule can begin
        begin = {}
        for r in self.omit:
            eps, tr, s, f = raw[r]
            t, a = determinize(eps, tr, s, f, lambda l: [l])
            begin[r] = set(t[0])
        self._starts = {}
        def starts(l):
            if l[0] != 'N' or l[1] not in self.omit:
                return {l}
            if l not in self._starts:
                out, st, seen = {l}, [l], set()
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    out.add(x)
                    if x[0] == 'N' and x[1] in self.omit:
                        st.extend(begin[x[1]])
                self._starts[l] = out
            return self._starts[l]
        syms = {l for _, tr, _, _ in raw.values() for x in tr.values() for l, _ in x}
        err_leaves = {err(l) for l in syms if l[0] in 'TK'} | {('ET', t) for t in terminals}
        # rules that use an omitted rule which starts with a negative lookahead on "_"
        def starts_neg(e):
            return e == ('look', '-') or e[0] == 'seq' and starts_neg(e[1][0])
        neg = {r for r in self.omit if starts_neg(self.rules[r])}
        negfirst = {r for r, (_, tr, _, _) in raw.items() if any(l[0] == 'N' and l[1] in neg for x in tr.values() for l, _ in x)}
        self.dfa = {}
        keep = {}
        for r, (eps, tr, s, f) in raw.items():
            # A recovering rule (stmt) can be replaced by its error node, and a token that fits
            # nowhere becomes an additional error node in front of it.
            tr2 = {}
            for a, outs in tr.items():
                lst = tr2.setdefault(a, [])
                for l, b in outs:
                    lst.append((l, b))
                    if l[0] == 'N' and l[1] in self.recover:
                        lst.append((('EN', l[1]), b))
                        lst.append((('EN', l[1]), a))
            trans, acc = determinize(eps, tr2, s, f, (lambda l, r=r: expand(l) | (fullsingle[r] if l == ('N', r) else frozenset())) if r in fullsingle else expand)
            if r in self.omit:
                trans, acc = at_least_two(trans, acc)
            self.dfa[('N', r)] = minimize(trans, acc)
            # error nodes: a non-empty prefix whose last child may itself be an error node
            t2 = [dict(x) for x in trans]
            n = len(t2)
            t2.append({})
            acc2 = set(range(n+1))
            for i in range(n):
                for l in list(trans[i]):
                    if l[0] in 'TK':
                        continue
                    for l2 in starts(l):
                        if err(l2) not in t2[i]:
                            t2[i][err(l2)] = n
                if r in negfirst:
                    t2[i].setdefault(('EK', '_'), n)
                if r in self.recover and i == 0:
                    for k in err_leaves:
                        t2[i].setdefault(k, n)
                if r != 'kwarg':
                    t2[i].pop(('T', 'Name'), None)
            # at least one child
            t3, acc3 = at_least_one(t2, acc2)
            self.dfa[('EN', r)] = minimize(t3, acc3)
            keep[r] = (trans, acc, t2, acc2)
        self._complete_is_not_error(keep, begin)
        self._no_error_leaf_for_a_token_that_starts_a_statement()
        # a label N of an omitted rule is impossible if its dfa is empty
        self.empty = set()
        while True:
            e = {l for l, d in self.dfa.items() if 0 not in d.coacc}
            if e == self.empty:
                break
            self.empty = e
            for l, d in list(self.dfa.items()):
                self.dfa[l] = minimize([{k: v for k, v in row.items() if k not in e} for row in d.trans], d.acc)
        # parents
        self.parents = {}
        reach = {('N', self.first)}
        st = [('N', self.first)]
        while st:
            x = st.pop()
            if x not in self.dfa or x in self.empty:
                continue
            for (s, t), ls in self.dfa[x].edges.items():
                for l in ls:
                    if l in self.empty:
                        continue
                    self.parents.setdefault(l, []).append((x, s, t))
                    if l not in reach:
                        reach.add(l)
                        st.append(l)
        for v in self.parents.values():
            v.sort()
        self.reachable = reach
        self.labels = frozenset(reach)
        self.leaves = frozenset(l for l in reach if is_leaf(l))
        self.keywords = {l[1] for l in reach if l[0] == 'K'}
        self.terminals = {l[1] for l in reach if l[0] == 'T'}
        self._first_last()
        self._desc()
    def _complete_is_not_error(self, keep, begin):
        """A rule that was entered and left without any choice between alternatives (no two
        edges share a first token, no lookahead) is popped as soon as it is complete, so its
        error node never holds a complete sequence of proper children."""
        first = {}
        def f(l, seen):
            if is_leaf(l):
                return {('T', 'Name')} if l[0] == 'K' and l[1] in self.soft else {l}
            if l in first:
                return first[l]
            if l in seen or l not in self.dfa:
                return set()
            out = set()
            for x in self.dfa[l].trans[0]:
                if x[0] in 'NTK':
                    out |= f(x, seen | {l})
            if not seen:
                first[l] = out
            return out
        for l in [x for x in self.dfa if x[0] == 'N']:
            f(l, frozenset())
        def unambiguous(row, l):
            fl = f(l, frozenset())
            return not any(x != l and x[0] in 'NTK' and f(x, frozenset()) & fl for x in row)
        amb = set()
        for l, d in self.dfa.items():
            if l[0] == 'N':
                for row in d.trans:
                    for x in row:
                        if x[0] == 'N' and not unambiguous(row, x):
                            amb.add(x[1])
        def looks(ast):
            return ast in (('look', '-'), ('look', '+')) or isinstance(ast, (tuple, list)) and any(looks(x) for x in ast)
        omitfirst = set()
        for r in self.omit:
            st, seen = [('N', r)], set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x[0] == 'N' and x[1] in self.omit:
                    st.extend(begin[x[1]])
            omitfirst |= {x[1] for x in seen if x[0] == 'N'}
        self.strict = set()
        for r, (trans, acc, t2, acc2) in keep.items():
            if r in self.omit or r in amb or r in omitfirst or looks(self.rules[r]):
                continue
            cut = False
            for i, row in enumerate(trans):
                for l, j in row.items():
                    if l[0] in 'NTK' and j in acc and not trans[j] and unambiguous(row, l) and t2[i].get(l) == j:
                        del t2[i][l]
                        cut = True
            if cut:
                self.strict.add(r)
                t3, acc3 = at_least_one(t2, acc2)
                self.dfa[('EN', r)] = minimize(t3, acc3)
    def _no_error_leaf_for_a_token_that_starts_a_statement(self):
        for r in self.recover:
            fs, st = set(), [('N', r)]
            seen = set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if is_leaf(x):
                    fs.add(x)
                    if x[0] == 'K' and x[1] in self.soft:
                        fs.add(('T', 'Name'))
                elif x in self.dfa:
                    st += [y for y in self.dfa[x].trans[0] if y[0] in 'NTK']
            d = self.dfa[('EN', r)]
            bad = {err(x) for x in fs}
            self.dfa[('EN', r)] = minimize([{k: v for k, v in row.items() if k not in bad} for row in d.trans], d.acc)
    def _first_last(self):
        # LAST leaf labels, FIRST leaf labels and single-leaf labels
        self.last = {l: ({l} if is_leaf(l) else set()) for l in self.reachable}
        self.firstl = {l: ({l} if is_leaf(l) else set()) for l in self.reachable}
        self.single = {l: ({l} if is_leaf(l) else set()) for l in self.reachable}
        ch = True
        while ch:
            ch = False
            for l in self.reachable:
                if is_leaf(l):
                    continue
                d = self.dfa[l]
                for (s, t), ls in d.edges.items():
                    for x in ls:
                        if x in self.empty:
                            continue
                        for tgt, cond in ((self.last, t in d.acc), (self.firstl, s == 0), (self.single, s == 0 and t in d.acc)):
                            if cond and not tgt[x] <= tgt[l]:
                                tgt[l] |= tgt[x]
                                ch = True
    def _desc(self):
        self.desc = {l: set() for l in self.reachable}
        ch = True
        while ch:
            ch = False
            for l in self.reachable:
                if is_leaf(l):
                    continue
                for ls in self.dfa[l].edges.values():
                    for x in ls:
                        if x in self.empty or x not in self.reachable:
                            continue
                        if x not in self.desc[l] or not self.desc[x] <= self.desc[l]:
                            self.desc[l].add(x)
                            self.desc[l] |= self.desc[x]
                            ch = True

def at_least_one(trans, acc):
    # fresh start state that is not accepting
    n = len(trans)
    out = [{} for _ in range(n+1)]
    for i in range(n):
        out[i+1] = {l: t+1 for l, t in trans[i].items()}
    out[0] = dict(out[1])
    return out, {a+1 for a in acc}

def at_least_two(trans, acc):
    n = len(trans)
    # states: 0 = start(0 children), 1..n = after one child (state i-1), n+1.. = >=2
    out = [{} for _ in range(2*n+1)]
    out[0] = {l: t+1 for l, t in trans[0].items()}
    for i in range(n):
        out[1+i] = {l: t+1+n for l, t in trans[i].items()}
        out[1+n+i] = {l: t+1+n for l, t in trans[i].items()}
    return out, {a+1+n for a in acc}

def load(repo='/repo'):
    tk = open(repo + '/crates/parsa_python/src/tokenizer.rs').read()
    m = re.search(r'create_terminals!\s*\(\s*struct\s+\w+\s*,\s*enum\s+\w+\s*,\s*\[([^\]]*)\]', tk)
    if not m:
        raise GrammarError('create_terminals! invocation not found')
    terms = re.findall(r'\w+', re.sub(r'//[^\n]*', '', m.group(1)))
    return Grammar(open(repo + '/crates/parsa_python/src/lib.rs').read(), terms)

if __name__ == '__main__':
    import time
    t = time.time()
    g = load()
    print(len(g.rules), len(g.omit), g.recover, len(g.reachable), 'time', time.time()-t)
    for r in ('class_def', 'atom', 'disjunction', 'import_from', 'dotted_as_name', 'with_items'):
        d = g.dfa[('N', r)]
        print(r, d.n, sorted(d.acc))
        for (s, t), ls in sorted(d.edges.items()):
            print('  ', s, t, sorted(ls)[:12])
    print(sum(d.n for d in g.dfa.values()), max((d.n, l) for l, d in g.dfa.items()))
