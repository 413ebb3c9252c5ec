"""Regular expressions (the syntax of the regex crate used here) as automata over sets of characters.

`match_dfa(rx)` is the automaton of the texts on which an anchored leftmost-first search ends exactly at the
end of the text; `lang_dfa(rx)` the one of its language (longest match).  Both are over classes of characters,
so that the comparison covers every text."""
MAXC = 0x10FFFF
class Unsupported(Exception):
    pass

def neg(s):
    out, lo = [], 0
    for a, b in norm(s):
        if lo < a:
            out.append((lo, a - 1))
        lo = b + 1
    if lo <= MAXC:
        out.append((lo, MAXC))
    return tuple(out)
def norm(s):
    out = []
    for a, b in sorted(s):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)
ESC = {'n': '\n', 'r': '\r', 't': '\t', 'f': '\f', 'v': '\v', '0': '\0', 'a': '\a'}

class P:
    def __init__(self, t):
        self.t, self.i = t, 0
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None
    def alt(self, fl):
        out = [self.cat(fl)]
        while self.peek() == '|':
            self.i += 1
            out.append(self.cat(fl))
        return ('alt', tuple(out)) if len(out) > 1 else out[0]
    def cat(self, fl):
        out = []
        while self.peek() not in (None, '|', ')'):
            a = self.atom(fl)
            if a is None:
                continue
            while self.peek() is not None and self.peek() in '*+?{':
                c = self.peek()
                lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}.get(c, (None, None))
                if c == '{':
                    j = self.t.find('}', self.i)
                    m = self.t[self.i+1:j].split(',')
                    if j < 0 or not m[0].isdigit():
                        raise Unsupported('{')
                    lo = int(m[0])
                    hi = lo if len(m) == 1 else int(m[1]) if m[1] else None
                    self.i = j
                self.i += 1
                lazy = self.peek() == '?'
                if lazy:
                    self.i += 1
                a = ('rep', a, lo, hi, not lazy)
            out.append(a)
        return ('cat', tuple(out))
    def atom(self, fl):
        c = self.t[self.i]
        self.i += 1
        if c == '(':
            if self.peek() == '?':
                self.i += 1
                f, on, f2 = '', True, dict(fl)
                if self.t.startswith('P<', self.i) or self.t.startswith('<', self.i):
                    self.i = self.t.index('>', self.i) + 1
                else:
                    while self.peek() not in (':', ')'):
                        f = self.peek()
                        self.i += 1
                        if f == '-':
                            on = False
                        elif f in 'sim':
                            f2[f] = on
                        else:
                            raise Unsupported('flag ' + str(f))
                    if self.peek() == ')':
                        self.i += 1
                        fl.update(f2)
                        return None
                    self.i += 1
                r = self.alt(f2)
            else:
                r = self.alt(dict(fl))
            if self.peek() != ')':
                raise Unsupported('unclosed group')
            self.i += 1
            return r
        if c == '[':
            return ('set', self.cls(fl))
        if c == '.':
            return ('set', ((0, MAXC),) if fl.get('s') else neg(((10, 10),)))
        if c == '^':
            return ('begin',)
        if c == '$':
            return ('end',)
        if c == '\\':
            e = self.esc()
            if e == 'A ':
                return ('begin',)
            if e == 'z ':
                return ('end',)
            return ('set', self.fold(e if isinstance(e, tuple) else ((ord(e), ord(e)),), fl))
        return ('set', self.fold(((ord(c), ord(c)),), fl))
    def fold(self, s, fl):
        if not fl.get('i'):
            return s
        out = list(s)
        for a, b in s:
            for x in range(a, min(b, 127) + 1):
                out += [(ord(chr(x).lower()),) * 2, (ord(chr(x).upper()),) * 2]
            if b > 127:
                raise Unsupported('case folding')
        return norm(out)
    def esc(self):
        c = self.t[self.i]
        self.i += 1
        if c in 'dDwWsS':
            raise Unsupported('\\' + c)       # unicode aware in the regex crate
        if c in 'ux':
            if self.peek() == '{':
                j = self.t.index('}', self.i)
                h = self.t[self.i+1:j]
                self.i = j + 1
            else:
                n = 4 if c == 'u' else 2
                h = self.t[self.i:self.i+n]
                self.i += n
            return chr(int(h, 16))
        if c in 'Az':
            return c + ' '
        if c in ESC:
            return ESC[c]
        if c.isalnum():
            raise Unsupported('\\' + c)
        return c
    def cls(self, fl):
        n = self.peek() == '^'
        if n:
            self.i += 1
        out, first = [], True
        while first or self.peek() != ']':
            if self.peek() is None:
                raise Unsupported('unclosed class')
            first = False
            c = self.t[self.i]
            if self.t.startswith('[:', self.i) or self.t.startswith('&&', self.i) or c == '[':
                raise Unsupported('nested class')
            self.i += 1
            if c == '\\':
                c = self.esc()
            if self.peek() == '-' and self.i + 1 < len(self.t) and self.t[self.i+1] != ']':
                self.i += 1
                d = self.t[self.i]
                self.i += 1
                if d == '\\':
                    d = self.esc()
                out.append((ord(c), ord(d)))
            else:
                out.append((ord(c), ord(c)))
        self.i += 1
        s = self.fold(norm(out), fl)
        return neg(s) if n else s

def parse(t):
    p = P(t)
    r = p.alt({})
    if p.i != len(t):
        raise Unsupported('trailing ' + t[p.i:])
    return r

class NFA:
    """states: ('set', s, next) ('split', [next]) ('begin', next) ('end', next) ('match',)"""
    def __init__(self, ast):
        self.st = []
        m = self.add('match')
        self.start = self.build(ast, m)
    def add(self, *x):
        self.st.append(x)
        return len(self.st) - 1
    def build(self, a, nxt):
        k = a[0]
        if k == 'set':
            return self.add('set', a[1], nxt)
        if k in ('begin', 'end'):
            return self.add(k, nxt)
        if k == 'cat':
            for x in reversed(a[1]):
                nxt = self.build(x, nxt)
            return nxt
        if k == 'alt':
            return self.add('split', [self.build(x, nxt) for x in a[1]])
        if k == 'rep':
            _, x, lo, hi, greedy = a
            if hi is None:
                s = self.add('split', None)
                b = self.build(x, s)
                self.st[s] = ('split', [b, nxt] if greedy else [nxt, b])
                nxt = s
            else:
                end = nxt
                for _ in range(hi - lo):
                    b = self.build(x, nxt)
                    nxt = self.add('split', [b, end] if greedy else [end, b])
            for _ in range(lo):
                nxt = self.build(x, nxt)
            return nxt
        raise Unsupported(k)

def classes(*asts):
    pts = {0}
    def walk(a):
        if a[0] == 'set':
            for x, y in a[1]:
                pts.add(x)
                pts.add(y + 1)
        for y in a[1:]:
            if isinstance(y, tuple):
                for z in (y if y and isinstance(y[0], tuple) else (y,)):
                    if isinstance(z, tuple) and z and isinstance(z[0], str):
                        walk(z)
    for a in asts:
        walk(a)
    return sorted(p for p in pts if p <= MAXC)

class Search:
    """the leftmost-first search at the beginning of the text, as a deterministic automaton over classes of characters"""
    def __init__(self, ast, reps, longest=False):
        self.n, self.reps, self.longest = NFA(ast), reps, longest
        self.memo = {}
    def close(self, seeds, begin):
        out, seen = [], set()
        def go(q):
            if q in seen:
                return False
            seen.add(q)
            x = self.n.st[q]
            if x[0] == 'split':
                for y in x[1]:
                    if go(y):
                        return True
                return False
            if x[0] == 'begin':
                return go(x[1]) if begin else False
            if x[0] == 'end':
                out.append(q)       # decided at the end of the text
                return False
            out.append(q)
            return x[0] == 'match' and not self.longest
        for q in seeds:
            if go(q):
                break
        return tuple(out) if not self.longest else tuple(sorted(out))
    def init(self):
        return self.close([self.n.start], True)
    def accepts(self, s):
        for q in s:
            x = self.n.st[q]
            if x[0] == 'match':
                return True
            if x[0] == 'end':
                if any(self.n.st[y][0] == 'match' for y in self.close([x[1]], False)):
                    return True
        return False
    def step(self, s, c):
        k = (s, c)
        if k not in self.memo:
            t = [self.n.st[q][2] for q in s if self.n.st[q][0] == 'set' and any(a <= c <= b for a, b in self.n.st[q][1])]
            self.memo[k] = self.close(t, False)
        return self.memo[k]

def anchored(ast):
    if ast[0] == 'begin':
        return True
    if ast[0] == 'cat':
        return bool(ast[1]) and anchored(ast[1][0])
    if ast[0] == 'alt':
        return all(anchored(x) for x in ast[1])
    return False

def ended(ast):
    if ast[0] == 'end':
        return True
    if ast[0] == 'cat':
        return bool(ast[1]) and ended(ast[1][-1])
    if ast[0] == 'alt':
        return all(ended(x) for x in ast[1])
    return False

def compare(rx, ref, limit=20000, maxc=None):
    """None if a search for rx at the beginning of a text always ends where the longest member of ref ends, else
    (shortest text on which they differ, whether rx matches it entirely)"""
    a, b = parse(rx), parse(ref)
    if not anchored(a):
        return ('', None)
    reps = [c for c in classes(a, b) if maxc is None or c <= maxc]
    A, B = Search(a, reps), Search(b, reps, True)
    start = (A.init(), B.init())
    seen, todo = {start: None}, [start]
    for s in todo:
        x, y = A.accepts(s[0]), B.accepts(s[1])
        if x != y:
            w = []
            while seen[s]:
                s, c = seen[s]
                w.append(c)
            return (''.join(chr(c) for c in reversed(w)), x)
        for c in reps:
            n = (A.step(s[0], c), B.step(s[1], c))
            if n not in seen and (n[0] or n[1]):
                seen[n] = (s, c)
                todo.append(n)
                if len(todo) > limit:
                    raise Unsupported('too many states')
    return None
def states(rx, ref):
    return len(NFA(parse(rx)).st) + len(NFA(parse(ref)).st)
