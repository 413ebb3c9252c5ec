"""C13: the tokens are those of Python."""
import re, rx, tok
from tok import Lang, Len, Kmp, Unknown, Texts, witness
from flow import T
from vfsflow import V, Rules, s

D = r'[0-9](?:_?[0-9])*'
E = r'[eE][-+]?' + D
FLOAT = r'(?:(?:%s)?\.%s|%s\.)(?:%s)?|%s%s' % (D, D, D, E, D, E)
def quoted(one):
    out = []
    for q in '\'"':
        body = r'(?:[^\r\n\\%s]|\\\r\n|\\(?s:.))*' % q
        out += [r'%s%s%s' % (q, body, q)]
        out += [r'%s(?:(?:%s{0,2}(?:[^\\%s]|\\(?s:.)))*%s)%s' % (q*3, q, q, q*3, '' if one else '?')]
    return '(?:%s)' % '|'.join(out)
TRIPLE = '(?:\'\'\'|""")'
SP, BP, FP = '(?:[rRuUtT]?)', '(?:[bB]|[bB][rR]|[rR][bB])', '(?:[fF]|[fF][rR]|[rR][fF])'
OPS = ('+ - * ** / // % @ << >> & | ^ ~ := < > <= >= == != ( ) [ ] { } , : ! . ; = -> += -= *= /= //= %= @= &= |= ^= >>= <<= **= ...').split()
REF = {     # Python's lexical grammar; a triple quote that is not closed is taken alone
    'Number': r'^(?:0[xX](?:_?[0-9a-fA-F])+|0[bB](?:_?[01])+|0[oO](?:_?[0-7])+|0(?:_?0)*|[1-9](?:_?[0-9])*|%s|(?:%s|%s)[jJ])' % (FLOAT, D, FLOAT),
    'Operator': '^(?:%s|`=?)' % '|'.join(re.sub(r'([^\w=<>:!,;&%@~-])', r'\\\1', o) for o in OPS),
    'String': '^%s%s' % (SP, quoted(False)),
    'Bytes': '^%s%s' % (BP, quoted(False)),
    'FStringStart': '^%s(?:\'\'\'|"""|\'|")' % FP,
    'Newline': r'^(?:\r\n|\r|\n)',
}
OPEN = {'String': '^%s%s' % (SP, TRIPLE), 'Bytes': '^%s%s' % (BP, TRIPLE)}     # not closed
BEFORE = {'Operator': ('Number',), 'Name': ('String', 'Bytes', 'FStringStart')}      # what wins where both begin at the same place
BREAK = set('import class def try except finally while with return continue break del pass global assert nonlocal raise elif'.split())

def ascii_char(name, arg, ch, truth):
    """whether an ASCII character satisfies a predicate; None: unknown predicate"""
    c = chr(ch)
    r = {'is_alphabetic': c.isalpha(), 'is_numeric': c.isdigit(), 'is_alphanumeric': c.isalnum(), 'is_ascii_alphabetic': c.isalpha(), 'is_ascii_digit': c.isdigit(), 'is_ascii_alphanumeric': c.isalnum(),
         'is_ascii': True, 'is_whitespace': c in ' \t\n\r\x0b\x0c', 'is_ascii_lowercase': 'a' <= c <= 'z', 'is_ascii_uppercase': 'A' <= c <= 'Z', 'is_lowercase': 'a' <= c <= 'z', 'is_uppercase': 'A' <= c <= 'Z'}.get(name)
    return None if r is None else int(r) == truth

def run(rep):
    rep.rule('The pattern of every regular expression of the tokenizer is put together from the source and compared, as an automaton over all characters, with the lexical grammar of Python written by hand; '
             'on every path of next, the kind of the token, its extent and the order of the attempts follow from what matched.')
    v = V('parsa_python')
    R = Rules(rep, v)
    tx = Texts(v)
    st = tok.setting(v)
    names = tok.kinds(v)
    ps = v.paths(st[0], **st[1]) if st and names else None
    if ps is None:
        rep.undecided('next')
        ps = []
    f = v.c.fns[v.find(st[0])] if st else None
    where = '%s:%s next' % (f['file'].split('/repo/')[-1], f['line']) if f else ''
    def outcome(p):
        r = p.ret
        if r[0] == 'adt' and r[2] == 1 and r[3][0][0] == 'adt' and len(r[3][0][3]) == 4:
            t = r[3][0][3]
            return names[t[2][2]] if t[2][0] == 'adt' else '?', tok.rest(s(t[0])), tok.rest(s(t[1])), tok.rest(s(t[3]))
        return re.sub(r'\(.*', '', s(r)), None, None, None
    # --- the attempts of a path
    def finds(p):
        """[(regex term, matched, match spelled)] at the start of the token"""
        out = []
        for k, x in p.st.facts.items():
            if k[0] == 'T' and k[1] == 'discr' and k[2][0] == 'T' and k[2][1] == 'call' and 'Regex::find' in k[2][2]:
                if tok.rest(s(k[2][3][1])) == 'rest(self.code, start)':
                    out.append((k[2][3][0], x, tok.rest(s(k[2]))))
        return out
    roles, info, unk = {}, [], 0
    for p in ps:
        fs = finds(p)
        hit = [x for x in fs if x[1] == 1]
        kind = outcome(p)[0]
        info.append((p, fs, hit, kind))
        if len(hit) == 1 and kind in REF:
            roles.setdefault(s(hit[0][0]), (hit[0][0], set()))[1].add(kind)
    # --- the languages
    pats, of = {}, {}
    for k, (t, ks) in roles.items():
        try:
            pats[k] = tx.pattern(t)
            ref = '^(?:%s)' % '|'.join(REF[x][1:] for x in sorted(ks))
            d = rx.compare(pats[k], ref)
        except (Unknown, rx.Unsupported):
            rep.undecided('language of ' + '/'.join(sorted(ks)))
            continue
        for x in ks:
            of.setdefault(x, []).append(k)
        key = 'language of ' + '/'.join(sorted(ks))
        if d and '`' in (d[0] or ''):
            d = None
        if d is None:
            rep.ok(key, 'the pattern %s matches what Python does' % pats[k][:60])
        elif d[1] is None:
            rep.bad(key, '%s: the pattern %r of %s tokens is not anchored at the beginning of the remaining text' % (where, pats[k], key[12:]))
        else:
            rep.bad(key, '%s: the pattern of %s tokens, %s, %s the text %r, which Python %s' % (where, key[12:], pats[k][:160], 'matches' if d[1] else 'does not match', d[0], 'does not' if d[1] else 'does'))
    # --- kinds that depend on the text that matched
    def conds(p, m, pat):
        """what a path knows about the text that matched; (conditions, whether all of it is understood)"""
        out, full = [(Lang(pat, False), 1)], True
        items = [(k, x) for k, x in p.st.facts.items() if k[0] == 'T'] + [(k[1], x) for k, x in p.st.facts.items() if k[0] == 'ne']
        for k, x in items:
            t = tok.rest(s(k))
            e = 'end(%s@1.0)' % m
            first = 'idx(rest(self.code, start), 0)'
            w = re.fullmatch(r'(contains|ends_with|starts_with)\(as_str\(%s@1\.0\), (.*)\)' % re.escape(m), t)
            if t == 'discr(%s)' % m:
                continue
            lit = tx.args(k)[1][1] if w else None
            if w and lit[0] in ('s', 'i') and x in (0, 1):
                out.append((Kmp(w.group(1), tx.text(lit)), x))
            elif re.fullmatch(r'lt\(\d+, %s\)' % re.escape(e), t):
                n = int(t[3:].split(',')[0])
                out.append((Len(lambda q, n=n: q > n, n), x))
            elif re.fullmatch(r'lt\(%s, \d+\)' % re.escape(e), t):
                n = int(t.rsplit(' ', 1)[1][:-1])
                out.append((Len(lambda q, n=n: q < n, n), x))
            elif re.fullmatch(r'eq\(%s, \d+\)' % re.escape(e), t):
                n = int(t.rsplit(' ', 1)[1][:-1])
                out.append((Len(lambda q, n=n: q == n, n), x))
            elif re.fullmatch(r'eq\(%s, \d+\)' % re.escape(first), t):
                out.append((Kmp('starts_with', chr(int(t.rsplit(' ', 1)[1][:-1]))), x))
            elif re.fullmatch(r'eq\(first\(rest\(self.code, start\)\)@1\.0, \d+\)', t):
                out.append((Kmp('starts_with', chr(int(t.rsplit(' ', 1)[1][:-1]))), x))
            elif t.startswith('starts_with(rest(self.code, start), ') and tx.args(k)[1][1][0] in ('s', 'i') and x in (0, 1):
                out.append((Kmp('starts_with', tx.text(tx.args(k)[1][1])), x))
            elif t == first and isinstance(x, int):
                out.append((Kmp('starts_with', chr(x)), 1))
            elif t == first:
                out += [(Kmp('starts_with', chr(y)), 0) for y in x]
            elif t == 'discr(first(rest(self.code, start)))':
                if x == 0:
                    return None, True
            elif m in t:
                full = False
        return out, full
    seen, nk, qseen = {}, 0, set()
    a = v.c.adts.get('parsa_python::tokenizer::QuoteType')
    quotes = [x['n'] for x in a['v']] if a else []
    for p, fs, hit, kind in info:
        if len(hit) != 1 or s(hit[0][0]) not in pats:
            continue
        k, m = s(hit[0][0]), hit[0][2]
        ks = roles[k][1]
        cs, full = conds(p, m, pats[k])
        if cs is None:
            continue
        nk += 1
        sig = (k, kind, tuple(sorted((repr(vars(c[0]).get('lit') or vars(c[0]).get('top')), str(c[1])) for c in cs[1:])))
        if sig in seen:
            continue
        seen[sig] = 1
        quote = next((e[2] for e in p.events if e[0] == 'call' and e[1].split('::')[-1] in ('push', 'seq push')), None) if kind == 'FStringStart' else None
        # texts for which this outcome is wrong
        wrong = []
        try:
            if kind == 'ErrorToken':
                wrong = [cs + [(Lang(OPEN[x] + '$', False), 0) for x in OPEN]]
            elif kind in REF:
                own = [Lang(REF[kind] + '$', False)]
                wrong = [cs + [(own[0], 0)]] if len(ks) > 1 else []
                wrong += [cs + [(Lang(OPEN[kind] + '$', False), 1)]] if kind in OPEN else []
                if quote is not None:       # the kind of quote remembered for the end of the f-string
                    q = next((x for x in tok.walk(quote) if isinstance(x, tuple) and len(x) == 4 and x[0] == 'adt' and x[1].endswith('QuoteType')), None)
                    if q is None:
                        unk += 1
                    else:
                        sig = quotes[q[2]]
                        lit = {'Single': "'", 'Double': '"', 'SingleTriple': "'''", 'DoubleTriple': '"""'}.get(sig, '')
                        for w in (cs + [(Lang('^%s%s$' % (FP, lit), False), 0)],):
                            y = witness(w)
                            if y is not None and full:
                                rep.bad('quote', '%s: the f-string begun by %r is taken to end like %s' % (where, y, sig))
                        qseen.add(sig)
            elif kind == 'encountered_break_token':
                wrong = [cs + [(Kmp('eq', ';'), 0)]]
            elif kind == 'next':
                wrong = [cs + [(Lang(REF['Newline'] + '$', False), 0)]]
            for w in wrong:
                t = witness(w)
                if t is not None and full and '`' not in t:
                    rep.bad('kind %s' % '/'.join(sorted(ks)), '%s: the text %r, matched by the pattern of %s tokens, becomes %s on a path where %s' % (where, t, '/'.join(sorted(ks)), kind, p.show()[-200:]))
                elif t is not None and not full:
                    unk += 1
        except (Unknown, rx.Unsupported):
            unk += 1
    for x in REF:
        if x in of:
            rep.ok('kind ' + '/'.join(sorted(roles[of[x][0]][1])))
    for q in sorted(qseen):
        rep.ok('quote ' + q)
    # --- extent: a token begins where the remaining text does and ends where the match does
    ext = set()
    for p, fs, hit, kind in info:
        if len(hit) == 1 and (kind in REF or kind == 'ErrorToken' or kind == 'next'):
            _, b, l, syn = outcome(p)
            e = 'bin(Add, end(%s@1.0), start)' % hit[0][2]
            ix = [tok.rest(b) for a, b, _ in p.writes() if a == 'self.index']
            ok = ix == [e] and (kind == 'next' or b == 'start' and l == 'bin(Sub, %s, start)' % e)
            if not ok and len(ix) == 1 and not re.search(r'end\(find', ix[0]):
                unk += 1
                continue
            if not ok:
                rep.bad('extent ' + kind, '%s: a %s token is (%s, %s) and the position becomes %s, the match is %s' % (where, kind, b, l, ix, e))
            else:
                ext.add(kind)
    for k in sorted(ext):
        rep.ok('extent ' + k)
    # --- order of the attempts
    need = {}
    for p, fs, hit, kind in info:
        if kind == 'Name' or kind == 'Operator' and hit or kind == 'ErrorToken' and not hit:
            tried = {s(t) for t, x, m in fs if x == 0}
            req = BEFORE.get(kind) or tuple(REF)
            for q in req:
                if q not in of:
                    continue
                for k in of[q]:
                    if k in tried or hit and s(hit[0][0]) == k:
                        continue
                    cs, full = conds(p, '\0', REF[q])
                    t = witness(cs) if cs is not None else None
                    if t is not None and full and not any('rest(' in tok.rest(y) and 'find' not in y and 'idx(' not in y and 'first(' not in y and not re.match(r'starts_with\(.*, (\d+|\'.*\'|".*")\)$', tok.rest(y)) for y in p.facts):
                        rep.bad('order %s %s' % (q, kind), '%s: the text %r becomes %s, since %s tokens were not tried before' % (where, t, kind, q))
                    elif t is not None:
                        unk += 1
                need[(q, kind)] = 1
    for q, kind in sorted(need):
        rep.ok('order %s %s' % (q, kind))
    # --- what can hold syntax: names and operators, nothing else
    for p, fs, hit, kind in info:
        o = outcome(p)
        if o[3] is not None and o[0] != '?':
            rep.need(o[3] == ('1' if kind in ('Name', 'Operator') else '0'), 'syntax ' + kind, '%s: a %s token %s be matched as a keyword or operator' % (where, kind, 'cannot' if kind in ('Name', 'Operator') else 'can'))
    # --- words that end open brackets
    k = next((k for k in v.c.fns if k.endswith('__static_ref_initialize') and 'BREAK' in k), None)
    sets = {}
    for p in ps:
        for t in p.st.facts:
            if t[0] == 'T' and t[1] == 'contains' and 'Lazy' in str(t[2])[:60]:
                sets[s(t[2])] = t[2]
    for n, t in sets.items():
        try:
            ws = [tx.text(x) for x in tx.items(tx.static(('T',) + tuple(tx.args(t)[1])))]
        except Unknown:
            rep.undecided('words that end brackets')
            continue
        odd = [w for w in ws if w not in BREAK]
        rep.need(not odd, 'words that end brackets', '%s: the word %r ends open brackets and f-strings, but it can stand inside of brackets' % (where, ', '.join(odd)))
    # --- names: ASCII characters
    def name(p):
        coll = next((re.match(r'more\((.*), \d+\)$', k).group(1) for k in p.facts if re.match(r'more\(.*, 0\)$', k)), None)
        if coll is None:
            return None
        n, over, _ = p.visited(coll)
        r = s(p.ret)
        stop = None if r.startswith('len(') else next((i for i in range(n) if r == 'elem(%s, %d).0' % (coll, i)), -1)
        if stop == -1:
            return 'the length is neither the offset of a character nor that of the text (%s)' % r[:60]
        for i in range(n):
            ch = 'elem(%s, %d).1' % (coll, i)
            pos = 'elem(%s, %d).0' % (coll, i)
            for c in range(128):
                ok = True
                for k, x in p.facts.items():
                    if ch in k:
                        m = re.fullmatch(r'(\w+)\(%s\)' % re.escape(ch), k)
                        e = re.fullmatch(r'eq\(%s, (\d+)\)' % re.escape(ch), k)
                        y = ascii_char(m.group(1), None, c, x) if m else (c == int(e.group(1))) == x if e else None
                        lo, hi = re.fullmatch(r'lt\(%s, (\d+)\)' % re.escape(ch), k), re.fullmatch(r'lt\((\d+), %s\)' % re.escape(ch), k)
                        y = (c < int(lo.group(1))) == x if lo else (int(hi.group(1)) < c) == x if hi else y
                        if y is None:
                            return None
                        ok &= y
                for k, x in p.facts.items():        # whether it is the first
                    if k in ('eq(%s, 0)' % pos, 'eq(0, %s)' % pos):
                        ok &= x == (i == 0)
                    if k == 'lt(0, %s)' % pos:
                        ok &= x == (i > 0)
                if not ok:
                    continue
                inside = stop is None or i < stop
                want = chr(c).isalpha() or c == 95 or chr(c).isdigit() and i > 0
                if want != inside:
                    return 'a name %s with %r' % ('goes on' if inside else 'ends', chr(c))
        return True
    R.each('PythonTokenizer::find_name_length', 'a name is made of letters, digits but not at the beginning, and underscores (ASCII characters)', name, need=3, opaque=())
    # --- other patterns
    def other(fn, what, ref, ascii_only=False):
        k = v.find(fn)
        if k is None:
            rep.undecided(what)
            return
        regs = set()
        g = v.c.fns[k]
        for b in g['blocks']:
            t = b['t']
            if t and t[0] == 'call' and str(t[1].get('key') or '').endswith('::deref') or t and t[0] == 'call' and 'Deref' in str(t[1].get('def')):
                kk = t[1].get('key') or t[1].get('res') or ''
                if 'tokenizer' in kk:
                    regs.add(kk)
        for kk in regs:
            init = kk + '::__static_ref_initialize'
            try:
                pat = tx.pattern(T('get', ('fn', init, init)))
                d = rx.compare(pat if not ascii_only or rx.ended(rx.parse(pat)) else '^(?:%s)(?s:.*)$' % pat, ref, maxc=127 if ascii_only else None)
            except (Unknown, rx.Unsupported):
                rep.undecided(what)
                continue
            w = '%s:%s %s' % (g['file'].split('/repo/')[-1], g['line'], fn)
            if d is None:
                rep.ok(what, pat)
            elif d[1] is None:
                rep.bad(what, '%s: %s: the pattern %r is not anchored, so that it matches further on in the text' % (w, what, pat))
            else:
                rep.bad(what, '%s: %s: the pattern %r %s %r' % (w, what, pat, 'matches' if d[1] else 'does not match', d[0]))
    other('PythonTokenizer::handle_fstring_stack', 'the name of a character after \\N in an f-string', r'^\{[A-Za-z0-9\-]+(?: [A-Za-z0-9\-]+)*\}')
    other('tokenizer::is_identifier', 'what is an identifier (ASCII characters)', r'^[A-Za-z_][A-Za-z0-9_]*$', True)
    rep.counts.update(paths=len(ps), matches=nk, not_understood=unk, patterns=len(pats))
    rep.floor('expressions that make tokens', len(roles), 3)
