"""Language equality of the grammar rules with the reference grammar (spec/grammar_ref.json).

Per rule: the minimal DFA over the rule's symbols (sub-rules, terminals, keywords, lookaheads with the
minimal DFA of their contents, cuts).  Two spellings of a rule are equal iff the automata are."""
import json, os, sys, hashlib
import grammar
from grammar import P, tokenize, find_invocation, build_nfa, determinize, minimize
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec', 'grammar_ref.json')

class P2(P):
    def item(self):
        if self.op('!'):
            return ('sym', ('LOOK', '!' + dfa_text(self.prim())))
        if self.op('&'):
            return ('sym', ('LOOK', '&' + dfa_text(self.prim())))
        if self.op('~'):
            return ('seq', [('sym', ('CUT', '~')), self.item()])
        return P.item(self)

def dfa_of(expr):
    eps, tr, s, f = build_nfa(expr)
    t, a = determinize(eps, tr, s, f, lambda l: [l])
    return minimize(t, a)

def rows(d):
    r = [{} for _ in range(d.n)]
    for (s, t), ls in d.edges.items():
        for l in ls:
            r[s]['%s:%s' % l] = t
    return r, sorted(d.acc)

def raw_of(expr):
    """deterministic automaton that keeps, per state, its symbols in source order (with repetitions)"""
    eps, tr, s, f = build_nfa(expr)
    def clo(S):
        S, st = set(S), list(S)
        while st:
            for y in eps.get(st.pop(), ()):
                if y not in S:
                    S.add(y)
                    st.append(y)
        return frozenset(S)
    idx, order, trans, seqs = {clo([s]): 0}, [clo([s])], [], []
    for S in order:
        m, q = {}, []
        for x in sorted(S):
            for l, y in tr.get(x, ()):
                l = '%s:%s' % l
                m.setdefault(l, set()).add(y)
                if not q or q[-1] != l:
                    q.append(l)
        row = {}
        for l in sorted(m):
            t = clo(m[l])
            if t not in idx:
                idx[t] = len(order)
                order.append(t)
            row[l] = idx[t]
        trans.append(row)
        seqs.append(q)
    return trans, sorted(i for i, S in enumerate(order) if f in S), seqs

def priorities(rules, soft):
    """per rule and state: for each two symbols that can begin with the same token, the order in which they are tried"""
    soft = {'K:' + x for x in soft}
    first = {n: set() for n in rules}
    def of(n, i, l, seen=()):
        if l[:2] in ('LO', 'CU'):
            t = rules[n][0][i][l]
            if (n, t) in seen:
                return set()
            out = set()
            for m in rules[n][0][t]:
                out |= of(n, t, m, seen + ((n, t),))
            return out
        if l[:2] == 'N:':
            return first.get(l[2:], set())
        if l == 'T:Name':
            return {l} | soft
        return {l}
    ch = True
    while ch:
        ch = False
        for n in rules:
            k = len(first[n])
            for l in rules[n][0][0]:
                first[n] |= of(n, 0, l)
            ch = ch or len(first[n]) != k
    out = {}
    for n, r in rules.items():
        per = []
        for i, q in enumerate(r[3]):
            d = {}
            ls = [l for l in sorted(set(q)) if not (i == 0 and l == 'N:' + n)]
            fs = {l: of(n, i, l) for l in ls}
            for a in ls:
                for b in ls:
                    if a < b and fs[a] & fs[b]:
                        z = [x for x in q if x in (a, b)]
                        z = [x for j, x in enumerate(z) if j == 0 or z[j-1] != x]
                        d[a + '  ' + b] = '  '.join(z)
            per.append(d)
        out[n] = per
    return out

def dfa_text(expr):
    r, a = rows(dfa_of(expr))
    if len(r) == 2 and a == [1] and not r[1]:
        return '(' + '|'.join(sorted(x.split(':', 1)[1] for x in r[0])) + ')'
    return json.dumps([[sorted(x.items()) for x in r], a])

def read(repo='/repo'):
    import re
    src = open(repo + '/crates/parsa_python/src/lib.rs').read()
    body = find_invocation(src)
    m = re.search(r'soft_keywords\s*=\s*\[', body)
    j = body.index(']', m.end())
    soft = sorted(set(re.findall(r'"([^"]+)"', body[m.end():j])))
    p = P2(tokenize(body[j+1:]))
    rules, flags, first = {}, {}, None
    while p.peek()[0] != 'eof':
        k, name = p.peek()
        if k != 'id' or p.peek(1) != ('op', ':'):
            raise grammar.GrammarError('rule head expected, got %r' % ((k, name),))
        p.i += 2
        fl = []
        if p.op('?'):
            fl.append('omit')
        if p.op('@'):
            fl.append(p.peek()[1])
            p.i += 1
        rules[name] = raw_of(p.alt(''))
        flags[name] = fl
        first = first or name
    return {'rules': {k: [v[0], v[1], flags[k], v[2]] for k, v in rules.items()}, 'soft': soft, 'first': first}

def inline_aliases(cur, known):
    """a new rule that only names alternatives of one child each and collapses leaves no trace in the tree"""
    al = {}
    for n, (r, a, fl, q) in cur['rules'].items():
        if n not in known and fl == ['omit'] and len(r) == 2 and a == [1] and not r[1]:
            al['N:' + n] = q[0]
    for _ in range(4):
        for n, (r, a, fl, q) in cur['rules'].items():
            for i, row in enumerate(r):
                if any(x in al for x in q[i]):
                    q[i] = [y for x in q[i] for y in al.get(x, [x])]
                for l in [x for x in row if x in al]:
                    t = row.pop(l)
                    for m in al[l]:
                        if row.get(m, t) == t:
                            row[m] = t
    return {x[2:] for x in al}

def witness(a, b, pa=None, pb=None):
    """a shortest sequence of children one automaton has and the other does not (or after which alternatives are tried in another order), or None"""
    (ra, fa), (rb, fb) = (a[0], set(a[1])), (b[0], set(b[1]))
    start = (0, 0)
    prev = {start: None}
    q = [start]
    for x in q:
        i, j = x
        other = None
        if pa and i is not None and j is not None:
            other = [(pb[j][k], v) for k, v in sorted(pa[i].items()) if pb[j].get(k, v) != v]
        if (i in fa) != (j in fb) or other:
            w, y = [], x
            while prev[y]:
                w.append(prev[y][1])
                y = prev[y][0]
            return list(reversed(w)), (i in fa), other
        la = ra[i] if i is not None else {}
        lb = rb[j] if j is not None else {}
        for l in sorted(set(la) | set(lb)):
            y = (la.get(l), lb.get(l))
            if y not in prev:
                prev[y] = (x, l)
                q.append(y)
    return None

def show(w):
    out = []
    for x in w:
        k, v = x.split(':', 1)
        out.append("'%s'" % v if k == 'K' else v)
    return ' '.join(out) or '(nothing)'

if __name__ == '__main__':
    d = read()
    if sys.argv[1:] == ['gen']:
        json.dump(d, open(SPEC, 'w'), indent=0, sort_keys=True)
        print(len(d['rules']), sum(len(r[0]) for r in d['rules'].values()), os.path.getsize(SPEC))
