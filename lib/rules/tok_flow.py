"""C14: the tokenizer goes through the code from front to back and keeps track of indentation, brackets and f-strings."""
import itertools, re, tok
from tok import lin, spell, add
from rules.tok_lex import OPS
from vfsflow import V, Rules, s

IX = {'self.index': 1}
def eff(p):
    """final values of what was written: {place: linear form or spelling}"""
    out = {}
    for a, b, e in p.writes():
        out[spell(a)] = lin(p.F.resolve(p.st, e[2]))
    return out
def seqs(p):
    """pushes, pops, clears and drains: [(what, container, argument)]"""
    out = []
    for e in p.events:
        if e[0] == 'call':
            n = e[1].split('::')[-1].replace('seq ', '')
            if n in ('push', 'pop', 'clear', 'drain', 'truncate', 'remove', 'insert', 'retain', 'split_off') and e[2]:
                out.append((n, spell(s(e[2][0])), spell(s(e[2][1])) if len(e[2]) > 1 else ''))
    return out

def v_new(v):
    return next((f['def'] for f in v.c.list if f['name'] == 'new' and 'PythonTokenizer' in f['def'] and 'Tokenizer' in (f.get('itrait') or '')), 'PythonTokenizer::new')
def possible(p, f, E, values):
    """the given values (0: any other one) a term can have on a path; None when a fact about it is not understood"""
    out = list(values)
    for k, x in f.items():
        if E not in k:
            continue
        if k == E:
            if isinstance(x, int):
                out = [y for y in out if y == x] or [x]
            continue
        m = re.fullmatch(r'(eq|lt)\((.*), (\d+)\)', k)
        m2 = re.fullmatch(r'(eq|lt)\((\d+), (.*)\)', k)
        if m and m.group(2) == E:
            c = int(m.group(3))
            out = [y for y in out if ((y == c) if m.group(1) == 'eq' else y < c) == bool(x)]
        elif m2 and m2.group(3) == E:
            c = int(m2.group(2))
            out = [y for y in out if ((y == c) if m2.group(1) == 'eq' else c < y) == bool(x)]
        elif re.search(r'\b%s' % re.escape(E), k) and re.match(r'(lt|contains|matches|is_\w+|eq_ignore\w*)\(', k):
            return None
        elif k.startswith('eq(') and not re.fullmatch(r'eq\(elem\(.*, elem\(.*\)', k):
            return None
    for k in p._ne:
        if spell(k) == E:
            out = [y for y in out if y not in p._ne[k]]
    return out
def impossible(p):
    """a comparison of two sums that differ by a constant, decided the wrong way"""
    for k, x in p.st.facts.items():
        if k[0] == 'T' and k[1] in ('eq', 'lt') and len(k) == 4:
            try:
                d = add(lin(k[2]), {a: -c for a, c in lin(k[3]).items()})
            except Exception:
                continue
            if not [a for a in d if a != 1]:
                c = d.get(1, 0)
                if ((c == 0) if k[1] == 'eq' else c < 0) != bool(x):
                    return True
    return False
def agree(f, E, chars):
    """whether characters fit the comparisons between them; chars: {index: character}"""
    for k, x in f.items():
        m = re.fullmatch(r'eq\((elem\(.*\)\S*), (elem\(.*\)\S*)\)', k)
        if m:
            a, b = [next((c for i, c in chars.items() if E(i) == t), None) for t in m.groups()]
            if a is not None and b is not None and (a or b) and (a == b) != bool(x):
                return False
    return True
def run(rep):
    rep.rule('On every path of the functions of the tokenizer, the token handed out, the new position and the changes of the stacks of indentations and f-strings and of the nesting of brackets are what the statement demands for the characters the path has seen.')
    v = V('parsa_python')
    R = Rules(rep, v)
    names = tok.kinds(v)
    a = v.c.adts.get('parsa_python::tokenizer::QuoteType')
    quotes = [x['n'] for x in a['v']] if a else []
    TK = 'PythonTokenizer::'
    st = tok.setting(v)
    if st is None or not names:
        rep.undecided('the tokenizer')
        return
    NEXT = st[0]
    def token(p, r=None):
        """(kind, start, length) of a token, or None"""
        r = r or p.ret
        if r[0] == 'adt' and r[2] == 1 and r[3] and r[3][0][0] == 'adt' and len(r[3][0][3]) == 4:
            t = r[3][0][3]
            return names[t[2][2]] if t[2][0] == 'adt' else '?', lin(t[0]), lin(t[1])
        return None
    def none(p):
        return p.ret[0] == 'adt' and p.ret[2] == 0
    def shown(l):
        return ' + '.join('%s%s' % ('' if c == 1 else '%d*' % c, a) if a != 1 else str(c) for a, c in l.items()) or '0'
    def num(p, k):
        return p.facts.get(k)
    def zeros(p, t):
        got = set()
        for k, x in p.facts.items():
            k = spell(k)
            if k in ('eq(%s, 0)' % t, 'eq(0, %s)' % t, 'lt(%s, 1)' % t):
                got.add(bool(x))
            if k == 'lt(0, %s)' % t:
                got.add(not x)
            if k == t and isinstance(x, int):
                got.add(x == 0)
        for k, x in p._ne.items():
            if spell(k) == t and 0 in x:
                got.add(False)
        return got
    def zero(p, t):
        """whether a count is known to be 0"""
        got = zeros(p, t)
        return got.pop() if len(got) == 1 else None
    def clear(pred):
        """a path on which a count is zero and is not: no run of the program takes it"""
        return lambda p: None if impossible(p) or any(len(zeros(p, t)) > 1 for t in ('self.parentheses_level', 'TOP.parentheses_level', 'self.format_spec_count', 'string_length', 'length')) else pred(p)
    def nofs(p):
        """whether no f-string is open"""
        for k, x in p.facts.items():
            if k == 'more(self.f_string_stack, 0)':
                return not x
            if k in ('lt(len(self.f_string_stack), 1)', 'is_empty(self.f_string_stack)', 'eq(len(self.f_string_stack), 0)'):
                return bool(x)
            if k in ('discr(last_mut(self.f_string_stack))', 'discr(last(self.f_string_stack))'):
                return not x
        return None
    # ------------------------------------------------------------ small functions
    F = 'FStringNode::'
    def same(got, want):
        return True if got == want else 'expected %s, found %s' % ({k: shown(x) for k, x in want.items()}, {k: shown(x) for k, x in got.items()})
    LV, SC = 'self.parentheses_level', 'self.format_spec_count'
    R.each(F + 'open_parentheses', 'a bracket nests one deeper', lambda p: same(eff(p), {LV: {LV: 1, 1: 1}}), opaque=())
    def close(p):
        z = zero(p, LV)
        if z is None:
            return 'the nesting can fall below zero'
        e = eff(p)
        one = next((x for k, x in p.facts.items() if k in ('eq(bin(Sub, %s, 1), 0)' % LV, 'eq(%s, 1)' % LV)), None)
        if one is None and not z and e.get(LV) == {}:
            one = 1
        if not z and one is None:
            return 'it is not looked whether the last bracket closes' if SC in e else 'the format spec is not over with the last bracket'
        want = {} if z else {LV: {LV: 1, 1: -1}}
        last = z or bool(one)
        if e.get(LV, {LV: 1}) != want.get(LV, {LV: 1}) and not (z and e[LV] == {}):
            return 'the nesting becomes %s' % shown(e.get(LV, {}))
        if last and e.get(SC) != {} and not z:
            return 'the format spec is not over with the last bracket'
        if not last and SC in e:
            return 'the format spec is over though brackets are open'
        return True
    R.each(F + 'close_parentheses', 'a closing bracket nests one less deep, never below zero, and the last one ends the format spec', clear(close), need=2, opaque=())
    def multi(p):
        q = p.facts.get('discr(self.quote)')
        ne = p._ne.get('discr(self.quote)', ())
        poss = [q] if q is not None else [i for i in range(len(quotes)) if i not in ne]
        r = s(p.ret)
        for x in poss:
            if r in ('0', '1') and int(r) != int('Triple' in quotes[x]):
                return 'a string in %s quotes %s' % (quotes[x], 'may have several lines' if r == '1' else 'may not have several lines')
        return True if r in ('0', '1') else None
    R.each(F + 'allow_multiline', 'only triple quotes may have several lines', multi, opaque=())
    def inexpr(p):
        r, x = s(p.ret), p.facts.get('lt(%s, %s)' % (SC, LV))
        return True if r == 'lt(%s, %s)' % (SC, LV) or x is not None and r == str(x) else 'it is %s' % r if r.startswith(('lt(', 'eq(')) or r in '01' else None
    R.each(F + 'in_expr', 'an expression is open where brackets are open that no format spec is in', inexpr, opaque=())
    def inspec(p):
        x = p.facts.get('lt(%s, %s)' % (SC, LV))
        r = s(p.ret)
        pos = p.facts.get('lt(0, %s)' % SC)
        if pos is None and 'eq(%s, 0)' % SC in p.facts:
            pos = 1 - p.facts['eq(%s, 0)' % SC]
        if x == 1:
            return r == '0' or 'a format spec in an open expression'
        if r == 'lt(0, %s)' % SC or pos is not None and r == str(pos):
            return True
        if x is None and pos == 0:
            return r == '0' or 'a format spec without a colon'
        return None if not re.fullmatch(r'[01]|lt\(.*\)|eq\(.*\)', r) else 'it is %s' % r
    R.each(F + 'in_format_spec', 'a format spec is read where one was begun and no expression is open', clear(inspec), opaque=())
    # ------------------------------------------------------------ the beginning
    flds = [x[0] for x in v.c.adts['parsa_python::tokenizer::PythonTokenizer']['v'][0]['f']]
    def begin(p):
        r = p.F.deep(p.st, p.ret)
        if r[0] != 'adt' or len(r[3]) != len(flds):
            return None
        got = dict(zip(flds, r[3]))
        for k, w in (('code', 'code'), ('index', '0'), ('parentheses_level', '0'), ('previous_token_was_newline', '1'), ('ended', '0')):
            if k in got and s(got[k]) != w:
                return 'it begins with %s = %s' % (k, s(got[k])[:60])
        i, fstr = p.F.deep(p.st, got['indent_stack']), p.F.deep(p.st, got['f_string_stack'])
        if s(i).startswith('box_assume_init'):      # vec![...]
            arr = [st[2][3] for g in v.c.list if g['def'] == v_new(v) for b in g['blocks'] for st in b['s'] if st[0] == '=' and st[2][0] == 'agg' and st[2][1] == 'array']
            if len(arr) == 1 and all(o[0] == 'k' and 'v' in o[1] for o in arr[0]) and [o[1]['v'] for o in arr[0]] != [0]:
                return 'it begins with the blocks %s' % [o[1]['v'] for o in arr[0]]
        if i[0] in ('arr', 'seq') and i[-1] is not None and [s(x) for x in i[1 if i[0] == 'arr' else 2]] != ['0'] and i[1] is None:
            return 'it begins with the blocks %s' % s(i)
        return True
    R.each(v_new(v), 'at the beginning of a line with no block, bracket or f-string open', begin, opaque=())
    # ------------------------------------------------------------ dedent
    def dedent(p):
        last = 'last(self.indent_stack)@1.0'
        less = p.facts.get('lt(indentation_count, %s)' % last)
        e, q, t = eff(p), seqs(p), token(p)
        if less is None:
            return None if not t and not e and not q else 'it is not looked whether the indentation is less than that of the block'
        if not less:
            return True if none(p) and not e and not q else 'a dedent though the indentation is not less'
        rel = {'<', '=', '>'}
        for k, x in p.facts.items():
            if 'indent_stack' in k and 'Sub' in k and 'indentation_count' in k:
                if k.startswith('lt(') and k.endswith(', indentation_count)'):
                    rel &= {'>'} if x else {'<', '='}
                elif k.startswith('lt(indentation_count, '):
                    rel &= {'<'} if x else {'=', '>'}
                elif k.startswith('eq('):
                    rel &= {'='} if x else {'<', '>'}
                else:
                    return None
        if t is None:
            return 'no token though the indentation is less'
        if t[1] != IX or t[2] != {}:
            return 'the token is not empty at the position'
        if '>' in rel and len(rel) > 1:
            return 'it is not looked whether the indentation lies between two blocks'
        if '>' in rel:
            ws = {k: x for k, x in e.items()}
            if t[0] != 'ErrorDedent' or q or list(ws.values()) != [{'indentation_count': 1}]:
                return 'an indentation between two blocks gives %s, %s' % (t[0], {k: shown(x) for k, x in ws.items()} or 'the indentation of the block stays')
            return True
        if t[0] != 'Dedent' or [x[:2] for x in q] != [('pop', 'self.indent_stack')] or e:
            return 'the end of a block gives %s and takes %d indentations off' % (t[0], len(q))
        return True
    R.each(TK + 'dedent_if_necessary', 'a smaller indentation ends one block, or corrects its indentation', dedent, need=3, opaque=())
    def breaks(p):
        e, q = eff(p), seqs(p)
        pz, fz = zero(p, 'self.parentheses_level'), nofs(p)
        calls = p.calls('dedent_if_necessary')
        if pz and fz:
            return True if none(p) and not q and e.get('self.parentheses_level', {}) == {} and not calls else 'something happens though nothing is open'
        if pz is None and fz is None:
            return 'it is not looked whether something is open'
        if not (pz is False or fz is False):
            return None if q else 'open %s stay open' % ('f-strings' if pz else 'brackets')
        if e.get('self.parentheses_level', {'x': 1}) != {} and pz is not True:
            return 'the brackets stay open'
        if ('clear', 'self.f_string_stack') not in [x[:2] for x in q] and ('drain', 'self.f_string_stack') not in [x[:2] for x in q] and ('truncate', 'self.f_string_stack') not in [x[:2] for x in q] and e.get('self.f_string_stack') is None and fz is not True:
            return 'the f-strings stay open'
        L = next((re.match(r'more\((.*), 0\)$', k).group(1) for k in p.facts if k.startswith('more(') and 'chars' in k), None)
        if L is None or 'rev(' not in L:
            return None
        f = {spell(k): x for k, x in p.facts.items()}
        L = spell(L)
        n = 0
        while f.get('more(%s, %d)' % (L, n)) == 1:
            n += 1
        sets = [possible(p, f, 'elem(%s, %d)' % (L, i), (32, 9, 10, 13, 0)) for i in range(n)]
        if None in sets:
            return None
        for cs in itertools.product(*sets):
            ind, ok = 0, None
            for c in cs:
                if c in (32, 9):
                    ind += 1
                    continue
                if c:
                    ok = len(calls) == 1 and s(calls[0][2][1]) == str(ind) and s(p.ret).startswith('dedent_if_necessary(')
                    if not ok:
                        return 'the word at the beginning of a line with indentation %d: %s' % (ind, s(p.ret)[:60])
                elif not none(p) or calls:
                    return 'a dedent in the middle of a line'
                ok = True
                break
            if ok is None and (not none(p) or calls):
                return None
            if ok is None and 'more(%s, %d)' % (L, n) not in f and not any(k[0] == 'bounded' for k in p.st.facts if isinstance(k, tuple)):
                return 'the indentation before the word is not read up to the beginning of the line'
        return True
    R.each(TK + 'encountered_break_token', 'a word that cannot stand in brackets ends them and all f-strings, and the block if it is on a line of its own', clear(breaks), need=5, opaque=(TK + 'dedent_if_necessary',))
    # ------------------------------------------------------------ f-strings
    def endf(p):
        e, q, t = eff(p), seqs(p), token(p)
        inx = next((x for k, x in p.facts.items() if spell(k) == 'lt(TOP.format_spec_count, TOP.parentheses_level)'), None)
        n = zero(p, 'string_length')
        if t is None:
            return 'no token'
        if inx == 0 and n is False:
            if t[0] != 'FStringString' or t[1] != IX or t[2] != {'string_length': 1} or e.get('self.index') != add(IX, {'string_length': 1}) or q:
                return 'the text before the quote is %s at %s of length %s, the position becomes %s%s' % (t[0], shown(t[1]), shown(t[2]), shown(e.get('self.index', IX)), ', f-strings are closed' if q else '')
            return True
        if inx is None or inx == 0 and n is None:
            return None
        k = p.facts.get('discr(quote)')
        if k is None:
            return None
        w = 3 if 'Triple' in quotes[k] else 1
        at = add(IX, {'string_length': 1}) if inx else IX
        if t[0] != 'FStringEnd' or t[1] != at or t[2] != {1: w} or e.get('self.index') != add(at, {1: w}):
            return 'the end of an f-string in %s quotes is %s at %s of length %s' % (quotes[k], t[0], shown(t[1]), shown(t[2]))
        if len(q) != 1 or q[0][1] != 'self.f_string_stack' or not (q[0][0] == 'drain' and q[0][2] == 'RangeFrom#0(drain_from)' or q[0][0] in ('truncate', 'split_off') and q[0][2] == 'drain_from'):
            return 'the f-string that ends and those in it are not closed (%s)' % (q,)
        return True
    R.each(TK + 'end_f_string', 'first the text before the quote, then the quote, which closes the f-string and those in it', clear(endf), need=6, opaque=())
    def maybe(p):
        n, e, t = zero(p, 'length'), eff(p), token(p)
        if n is None:
            return 'an empty text can become a token'
        if n:
            return True if none(p) and not e else 'an empty text becomes a token'
        return True if t and t[0] == 'FStringString' and t[1] == IX and t[2] == {'length': 1} and e == {'self.index': {'self.index': 1, 'length': 1}} else 'the text is %s' % (t,)
    R.each(TK + 'maybe_fstring_string', 'a text that is not empty is a token', clear(maybe), need=2, opaque=())
    L = 'char_indices(rest(self.code, self.index))'
    ALL = (123, 125, 34, 39, 92, 10, 13)
    def fs(p):
        inx = next((x for k, x in p.facts.items() if spell(k) == 'lt(TOP.format_spec_count, TOP.parentheses_level)'), None)
        if inx is None:
            return None
        f = {spell(k): x for k, x in p.facts.items()}
        e, q, t = eff(p), seqs(p), token(p)
        if inx:
            colon = next((x for k, x in f.items() if re.fullmatch(r'eq\(get\((self\.index, self\.code|self\.code, self\.index)\)@1\.0, 58\)', k)), None)
            deep = None
            for k, x in p.st.facts.items():
                if k[0] == 'T' and k[1] == 'eq' and len(k) == 4:
                    d = add(lin(k[2]), {a: -c for a, c in lin(k[3]).items()})
                    if d in ({'TOP.parentheses_level': 1, 'TOP.format_spec_count': -1, 1: -1}, {'TOP.parentheses_level': -1, 'TOP.format_spec_count': 1, 1: 1}):
                        deep = x
            if colon is None:
                return None if any('get(' in k for k in f) and none(p) else None
            if colon and deep is None and t:
                return 'a colon begins a format spec however deep it is'
            if colon and deep:
                ok = t and t[0] == 'Operator' and t[1] == IX and t[2] == {1: 1} and e == {'TOP.format_spec_count': {'TOP.format_spec_count': 1, 1: 1}, 'self.index': {'self.index': 1, 1: 1}}
                return True if ok else 'the colon of a format spec gives %s and changes %s' % (t, {k: shown(x) for k, x in e.items()})
            return True if none(p) and not e and not q else 'something happens in an expression'
        def E(i):
            return 'elem(%s, %d).1' % (L, i)
        n = 0
        while f.get('more(%s, %d)' % (L, n)) == 1:
            n += 1
        for c in p.calls('nth'):    # a named character: \N and the name in brackets are passed over
            if s(c[2][1]) != '1' or not re.fullmatch(r"\{'end\(find\(.*': 1\}", str(lin(c[2][2])).replace('"', "'")):
                return 'after the name of a character the text goes on elsewhere'
        if any('after(' in k for k in f):
            return None             # the position is not known
        sets = [possible(p, f, E(i), ALL + (78, 0)) for i in range(n)]
        if None in sets:
            return None
        out = set()
        for cs in itertools.product(*sets):
            if agree(f, E, dict(enumerate(cs))):
                x = scan(p, f, e, q, t, cs)
                if isinstance(x, str):
                    return x
                out.add(x)
        return None if not out or None in out else True
    def scan(p, f, e, q, t, cs):
        """what the statement demands for given characters"""
        def ch(i):
            return cs[i] if i < len(cs) else 0
        def off(i):
            return 'elem(%s, %d).0' % (L, i)
        r = spell(s(p.ret))
        bounded = any(k[0] == 'bounded' for k in p.st.facts if isinstance(k, tuple))
        def text(i):
            """the text up to i as a token, or nothing"""
            w = 'maybe_fstring_string(self, %s)' % off(i)
            return r == w or none(p) and f.get('discr(%s)' % w) == 0
        i = 0
        while True:
            m = f.get('more(%s, %d)' % (L, i))
            if m is None:
                g = re.match(r'(maybe_fstring_string|end_f_string)\(self, elem\(%s, (\d)\)\.0' % re.escape(L), r)
                return 'the text ends at a character that does not end it' if g and int(g.group(2)) < i else None
            if m == 0:
                return True if none(p) and not e and not q else 'at the end of the code: %s' % r[:80]
            c = ch(i)
            if c in (123, 125):
                m2 = f.get('more(%s, %d)' % (L, i + 1))
                if m2 is None:
                    return True if text(i) else None
                if m2 == 0:
                    i += 1
                    continue
                dbl = c == ch(i + 1)
                spec = f.get('lt(0, TOP.format_spec_count)')
                if dbl and spec is None:
                    return 'a doubled bracket in a format spec is not told from one in the text'
                if dbl and not spec:
                    i += 2
                    continue
                return True if text(i) else 'a bracket that begins or ends an expression: %s' % r[:80]
            if c in (34, 39):
                one, three = ('Double', 'DoubleTriple') if c == 34 else ('Single', 'SingleTriple')
                lit = '\'"""\'' if c == 34 else '"\'\'\'"'
                coll = next((k for k in ('INNER', 'INNER1', 'self.f_string_stack') if 'more(%s, 0)' % k in f and (k != 'self.f_string_stack' or 'end_f_string' in r)), None)
                if coll is None:
                    return None
                j, hit = 0, None
                while f.get('more(%s, %d)' % (coll, j)) == 1:
                    qt = 'elem(%s, %d)%s.quote' % (coll, j, '.1' if coll == 'INNER' else '')
                    d = f.get('discr(%s)' % qt)
                    ne = [x for k in p._ne if spell(k) == 'discr(%s)' % qt for x in p._ne[k]]
                    sw = next((x for k, x in f.items() if k.startswith('starts_with(') and k.endswith(', %s)' % lit) and off(i) in k), None)
                    ends = set()
                    for kind in [quotes[d]] if d is not None else [x for n, x in enumerate(quotes) if n not in ne]:
                        if kind == three and sw is None:
                            return 'it is not looked whether three quotes follow'
                        ends.add(kind == one or kind == three and bool(sw))
                    if len(ends) > 1:
                        return 'a quote does not end a string that it ends' if 'end_f_string' not in r else 'a quote ends an f-string that it does not end'
                    if ends == {True}:
                        hit = j
                        break
                    j += 1
                if hit is None:
                    if 'end_f_string' in r and off(i) in r:
                        return 'a quote ends an f-string that it does not end'
                    i += 1
                    continue
                if 'end_f_string(' not in r:
                    return 'the quote that ends an f-string is passed over: %s' % r[:80]
                if coll == 'self.f_string_stack':
                    return 'the outermost f-string that the quote can end is ended, though those in it are open'
                w = 'end_f_string(self, %s, ' % off(i)
                if not r.startswith(w):
                    return 'the text before the quote is not %s long' % off(i)
                jj = r[len(w):].split(', elem(')[0]
                if coll == 'INNER' and not r[len(w):].startswith('elem(INNER, %d).0, elem(INNER, %d).1.quote' % (hit, hit)) and not r[len(w):].startswith('elem(INNER, %d).0, QuoteType#' % hit):
                    return 'another f-string than the one the quote ends is ended'
                return True
            if c == 92:
                m2 = f.get('more(%s, %d)' % (L, i + 1))
                if m2 is None:
                    return None
                if m2 == 0:
                    i += 1
                    continue
                d = ch(i + 1)
                if d == 78 and any('discr(find(' in k and x == 1 for k, x in f.items()):
                    return None
                if d in (123, 125):
                    i += 1
                    continue
                i += 2
                if d == 13:         # a continued line
                    m3 = f.get('more(%s, %d)' % (L, i))
                    if m3 is None:
                        return None if bounded else 'only half of the end of a continued line is passed over' if r != 'Option#0()' else None
                    i += m3 == 1 and ch(i) == 10
                continue
            if c in (10, 13):
                j, hit = 0, None
                while f.get('more(self.f_string_stack, %d)' % j) == 1:
                    d = f.get('discr(elem(self.f_string_stack, %d).quote)' % j)
                    if d is None:
                        return None
                    if 'Triple' not in quotes[d]:
                        hit = j
                        break
                    j += 1
                if j == 0 and hit is None and f.get('more(self.f_string_stack, 0)') is None:
                    return 'the end of the line is passed over'
                if hit is None:
                    i += 1
                    continue
                w = 'maybe_fstring_string(self, %s)' % off(i)
                if r == w and not q:
                    return True
                if f.get('discr(%s)' % w) == 0 and r == 'next(self)':
                    ok = len(q) == 1 and q[0][1] == 'self.f_string_stack' and (q[0][0] == 'drain' and q[0][2] in ('RangeFrom#0(%d)' % hit, 'RangeFrom#0(position(elem(self.f_string_stack, %d)))' % hit) or q[0][0] in ('truncate', 'split_off') and q[0][2] in (str(hit), 'position(elem(self.f_string_stack, %d))' % hit))
                    return True if ok else 'at the end of the line, the f-string that may not go on and those in it are not closed (%s)' % (q,)
                return 'the end of the line in an f-string: %s' % r[:80]
            i += 1
    R.each(TK + 'handle_fstring_stack', 'the text of an f-string ends at brackets that are not doubled, at the quote of the innermost f-string it ends, or at the end of the line', clear(fs), need=100,
           opaque=(TK + 'end_f_string', TK + 'maybe_fstring_string', NEXT), models={'tokenizer::code_from_start': tok.rest_model}, unroll=1, items=3, maxpaths=30000)
    # ------------------------------------------------------------ whitespace
    W = 'chars(rest(self.code, self.index))'
    def ws(p):
        f = {spell(k): x for k, x in p.facts.items()}
        if not any(k == 'more(%s, 0)' % W for k in f):
            return None
        e = eff(p)
        pure = {}
        for k, x in f.items():      # the code does not change between two looks at it
            if 'get(' in k and pure.setdefault(k.replace("'", ''), x) != x:
                return None
        n = 0
        while f.get('more(%s, %d)' % (W, n)) == 1:
            n += 1
        sets = [possible(p, f, 'elem(%s, %d)' % (W, i), (10, 13, 32, 9, 12, 35, 92, 0)) for i in range(n)]
        if None in sets:
            return None
        out = set()
        nl = f.get('self.previous_token_was_newline')
        for cs in itertools.product(*sets):
            for nl2 in (nl,) if nl is not None else (0, 1):
                x = skip(p, f, e, cs, nl2)
                if isinstance(x, str):
                    return x
                out.add(x)
        return None if not out or None in out else True
    def skip(p, f, e, cs, nl):
        pos, ind, comment = dict(IX), 0, False
        r, end = {}, e.get('self.index', IX)
        for a, c in lin(p.ret).items():
            if re.fullmatch(r'((from|into)\()?self\.previous_token_was_newline\)?', str(a)):
                a, c = 1, c * nl
            r = add(r, {a: c})
        if [a for a in r if a != 1 and not a.startswith('skip_whitespace(')]:
            return None
        r = shown(r)
        if any(k != 'self.index' for k in e):
            return 'something else than the position changes: %s' % list(e)[0]
        def done(what):
            if r != str(ind):
                return '%s: the indentation is %s, not %d' % (what, r, ind)
            return True if end == pos else '%s: the position becomes %s, not %s' % (what, shown(end), shown(pos))
        for i in range(8):
            m = f.get('more(%s, %d)' % (W, i))
            if m is None:
                if any(k[0] == 'bounded' for k in p.st.facts if isinstance(k, tuple)):
                    return done('end')
                return 'it stops at a character that is to be skipped'
            if m == 0:
                return done('at the end of the code')
            E = 'elem(%s, %d)' % (W, i)
            c = cs[i]
            step = {'len_utf8(%s)' % E: 1}
            if c in (10, 13):
                if not nl:
                    return done('at the end of a line')
                comment, ind = False, 0
            elif comment:
                pass
            elif c in (32, 9, 12):
                ind += bool(nl)
            elif c == 35:
                comment, ind = True, 0
            elif c == 92:
                def byte(at):
                    """the byte at a position: 10, 13, another one (0), none (-1) or unknown"""
                    for k in f:
                        g = re.fullmatch(r"discr\((get\(.*\)'*)\)", k)
                        if g and places.get(g.group(1).rstrip("'")) == at:
                            if f[k] == 0:
                                return -1
                            for x in (10, 13):
                                if any(f.get('eq(%s%s@1.0, %d)' % (g.group(1).rstrip("'"), "'" * n, x)) == 1 for n in range(4)):
                                    return x
                    return 0
                places = {}
                for k in p.st.facts:
                    if k[0] == 'T' and k[1] == 'discr' and k[2][0] == 'T' and k[2][1] == 'call' and k[2][2].endswith('::get'):
                        ar = [x for x in k[2][3] if spell(s(x)) != 'self.code']
                        if len(ar) == 1:
                            places[spell(s(k[2])).rstrip("'")] = lin(ar[0])
                one = add(pos, {1: 1})
                b = byte(one)
                rec = p.calls('skip_whitespace')
                if b == 13:
                    two = add(pos, {1: 2})
                    b2 = byte(two)
                    to = add(pos, {1: 3 if b2 == 10 else 2})
                elif b == 10:
                    to = add(pos, {1: 2})
                else:
                    return done('at a backslash that does not end the line') if not rec else 'a backslash in the middle of a line is skipped'
                if not rec:
                    return 'a continued line is not skipped'
                pos = to
                return done('after a continued line')
            else:
                return done('at a token')
            pos = add(pos, step)
        return None
    R.each(TK + 'skip_whitespace', 'whitespace, comments, empty lines and continued lines are skipped, the indentation of the last line is told', clear(ws), need=60,
           opaque=(TK + 'skip_whitespace',), models={'tokenizer::code_from_start': tok.rest_model})
    # ------------------------------------------------------------ next
    def ops(p, f):
        """the operators a path can have matched"""
        out = []
        for o in OPS:
            ok = True
            for k, x in f.items():
                m = re.fullmatch(r'eq\((?:idx\(rest\(self\.code, start\), 0\)|first\(rest\(self\.code, start\)\)@1\.0), (\d+)\)', k)
                if m:
                    ok &= x == (ord(o[0]) == int(m.group(1)))
                if k == 'idx(rest(self.code, start), 0)' and isinstance(x, int):
                    ok &= x == ord(o[0])
            for k, x in p._ne.items():
                if spell(k) == 'idx(rest(self.code, start), 0)':
                    ok &= ord(o[0]) not in x
            if ok:
                out.append(o)
        return out
    START = {'start': 1}
    def nxt(p):
        f = {spell(k): x for k, x in p.facts.items()}
        e, q, t = eff(p), seqs(p), token(p)
        r = spell(s(p.ret))
        if f.get('more(self.f_string_stack, 0)') is not None and f.get('more(self.f_string_stack, 0)') == f.get('lt(len(self.f_string_stack), 1)'):
            return None             # contradictory
        if f.get('self.ended') == 1:
            return True if none(p) and not e and not q else 'something comes after the end'
        if f.get('self.ended') is None:
            return 'it is not looked whether the end was reached'
        empty = nofs(p)
        h = f.get('discr(handle_fstring_stack(self))')
        if empty is None:
            return 'it is not looked whether an f-string is open'
        if not empty:
            if h is None:
                return 'the text of an open f-string is not read'
            if h == 1:
                return True if r == 'handle_fstring_stack(self)' and not e and not q else 'the token of an f-string is not handed out as it is'
        elif h is not None:
            return None
        # --- beginning of a line
        fresh = f.get('self.previous_token_was_newline')
        fst = f.get('discr(first(rest(self.code, start)))')
        if fst is None and 'more(chars(rest(self.code, start)), 0)' in f:
            fst = f['more(chars(rest(self.code, start)), 0)']
        fc = possible(p, f, 'first(rest(self.code, start))@1.0', (10, 13, 0))
        if fc is None:
            return None
        if not fc:
            return None             # contradictory
        pz = zero(p, 'self.parentheses_level')
        less, more = None, None
        for k, x in f.items():
            if k == 'lt(last(self.indent_stack)@1.0, indentation())':
                more = x
        ded = f.get('discr(dedent_if_necessary(self, indentation()))')
        if t and t[0] == 'Indent' or ded is not None or more is not None:
            if fresh != 1:
                return 'indentation in the middle of a line'
            if fst != 1 or fc != [0]:
                return 'the indentation of an empty line counts'
            if pz is not True or empty is not True:
                return 'indentation inside of brackets or f-strings counts'
        if fresh == 1 and fst == 1 and fc == [0] and pz and empty:
            if more is None:
                return 'the indentation of a line is not compared with that of the block'
            if more == 1:
                ok = t and t[0] == 'Indent' and t[1] == START and t[2] == {} and q == [('push', 'self.indent_stack', 'indentation()')] and e.get('self.index') is None and e.get('self.previous_token_was_newline') == {}
                return True if ok else 'a deeper block gives %s, %s' % (t and t[0], q)
            if ded is None:
                return 'a line with less indentation does not end the block'
            if ded == 1:
                if r != 'dedent_if_necessary(self, indentation())' or q:
                    return 'the end of a block: %s' % r[:60]
                if e.get('self.previous_token_was_newline') is not None:
                    return 'further blocks that end with the line are forgotten'
                if e.get('self.index') != IX:
                    return 'after the end of a block the position is %s, not before the indentation, which has to be read again' % shown(e.get('self.index', START))
                return True
        if fresh == 1 and 'self.previous_token_was_newline' not in e:
            return 'the rest of the line counts as its beginning'
        # --- what matched
        hit = [k for k, x in f.items() if k.startswith('discr(find(') and x == 1]
        kind = t[0] if t else r.split('(')[0]
        if len(hit) > 1:
            return None
        brk = f.get('discr(encountered_break_token(self))')
        inset = next((x for k, x in f.items() if k.startswith('contains(get(') and 'find_name_length' in k), None)
        others = {k: x for k, x in e.items() if k not in ('self.index', 'self.previous_token_was_newline')}
        newline = e.get('self.previous_token_was_newline')
        if hit and (kind == 'Operator' or kind == 'encountered_break_token'):
            c = ops(p, f)
            if not c:
                return None
            for o in c:
                if (o == ';') != (brk is not None):
                    return 'the operator %s %s open brackets' % (o, 'ends' if o != ';' else 'does not end')
            if brk == 1:
                return True if r == 'encountered_break_token(self)' and 'self.index' not in e and not q else 'the end of a block at a semicolon is lost'
            opn, cls = [o in '([{' for o in c], [o in ')]}' for o in c]
            if any(opn) != all(opn) or any(cls) != all(cls):
                return 'operators %s are treated alike' % ' '.join(c)
            if any(opn):
                want = {'self.parentheses_level': {'self.parentheses_level': 1, 1: 1}} if empty else {'TOP.parentheses_level': {'TOP.parentheses_level': 1, 1: 1}}
                return True if others == want and not q else 'the opening bracket %s changes %s' % (' '.join(c), {k: shown(x) for k, x in others.items()} or 'nothing')
            if any(cls):
                if empty:
                    lz = zero(p, 'self.parentheses_level')
                    if lz is None:
                        return None if not others else 'a closing bracket too many'
                    want = {} if lz else {'self.parentheses_level': {'self.parentheses_level': 1, 1: -1}}
                    return True if others == want and not q or lz and set(others) == {'self.parentheses_level'} and others['self.parentheses_level'] == {} else 'the closing bracket %s changes %s' % (' '.join(c), {k: shown(x) for k, x in others.items()} or 'nothing')
                lz = zero(p, 'TOP.parentheses_level')
                if lz is None:
                    return None
                if not (lz and others.get('TOP.parentheses_level') == {}) and others.get('TOP.parentheses_level', {'TOP.parentheses_level': 1}) != ({'TOP.parentheses_level': 1} if lz else {'TOP.parentheses_level': 1, 1: -1}):
                    return 'the closing bracket %s in an f-string changes %s' % (' '.join(c), {k: shown(x) for k, x in others.items()} or 'nothing')
                return True if set(others) <= {'TOP.parentheses_level', 'TOP.format_spec_count'} and not q else 'a closing bracket changes %s' % list(others)
            return True if not others and not q else 'the operators %s change %s' % (' '.join(c), list(others) or q)
        if not hit and (inset is not None or kind == 'Name'):
            if inset is None:
                return 'words that cannot stand in brackets are not told from names'
            if bool(inset) != (brk is not None):
                return 'a name ends open brackets' if not inset else 'a word that cannot stand in brackets leaves them open'
            if brk == 1:
                return True if r == 'encountered_break_token(self)' and 'self.index' not in e and not q else 'the end of a block at a word is lost'
            nm = next((k for k in (e.get('self.index') or {}) if isinstance(k, str) and k.startswith('find_name_length(')), None)
            ok = t and t[0] == 'Name' and nm and t[1] == START and t[2] == {nm: 1} and e['self.index'] == {'start': 1, nm: 1} and not others and not q
            return True if ok else 'a name is %s, the position becomes %s' % (t, shown(e.get('self.index', START)))
        if hit and kind in ('Newline', 'next'):
            inside = pz is False or empty is False
            if pz is None and empty is not False or empty is None:
                return 'it is not looked whether brackets are open at the end of a line'
            if kind == 'next':
                return True if inside and (newline in (None, {})) and not q else 'the end of a line is lost'
            return True if not inside and newline == {1: 1} and not q else 'a line ends inside of brackets or an f-string' if inside else 'the next line does not count as the beginning of one'
        if newline not in (None, {}):
            return 'a line begins after %s' % kind
        if hit and kind == 'FStringStart':
            return True if [x[:2] for x in q] == [('push', 'self.f_string_stack')] and re.search(r', 0, 0\)$', q[0][2]) and not others else 'the beginning of an f-string gives %s' % (q,)
        if hit:
            return True if not others and not q else 'a %s token changes %s' % (kind, list(others) or q)
        # --- nothing matched
        end = f.get('more(chars(rest(self.code, start)), 0)')
        if end is None and fst is not None:
            end = fst
        if end is None:
            return None
        if end == 0:
            ns = possible(p, f, 'len(self.indent_stack)', (1, 2, 3, 4, 5))
            if not ns:
                return None
            if 1 in ns and len(ns) > 1:
                return 'it is not looked whether a block is open at the end of the code'
            one = ns == [1]
            if t is None or t[1] != START or t[2] != {}:
                return 'at the end of the code: %s' % r[:60]
            if one:
                return True if t[0] == 'Endmarker' and e.get('self.ended') == {1: 1} and not q else 'the end of the code gives %s%s' % (t[0], '' if 'self.ended' in e else ', again and again')
            return True if t[0] == 'Dedent' and [x[:2] for x in q] == [('pop', 'self.indent_stack')] and 'self.ended' not in e else 'an open block at the end of the code gives %s, %s' % (t[0], q)
        w = [k for k in (e.get('self.index') or {}) if isinstance(k, str) and k.startswith('len_utf8(')]
        if t is None or t[0] != 'ErrorToken' or others or q:
            return 'a character that begins no token gives %s' % (t and t[0])
        return True if w and e['self.index'] == {'start': 1, w[0]: 1} and t[2] == {w[0]: 1} and t[1] == START else 'the error token is not the character at the position'
    R.each(NEXT, 'tokens follow each other; indentation, brackets and f-strings are kept track of', clear(nxt), need=300, **st[1])
    R.done(9)
