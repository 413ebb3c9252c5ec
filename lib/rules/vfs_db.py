"""C04: a change that concerns the whole database is never reported as less."""
import re
from vfsflow import V, Rules, WALK, s, T, norm, sub, strip

def run(rep):
    rep.rule('On every path of every function of crates/vfs that yields an InvalidationResult: a callee result that may be InvalidatedDb is the returned one, or the returned one is InvalidatedDb; a set of '
             'dependents known to carry the whole-database marker leads to InvalidatedDb; InvalidatedDb is only returned on such evidence. The marker survives take, clone, extend, add, reload and recovery.')
    v = V()
    R = Rules(rep, v)
    ad = v.c.adts
    def var(adt, name, dflt):
        for i, x in enumerate(ad.get(adt, {}).get('v', [])):
            if x['n'] == name:
                return i
        return dflt
    DB = var('vfs::vfs::InvalidationResult', 'InvalidatedDb', 1)
    MARK = var('vfs::tree::InvalidationDetail', 'InvalidatesDb', 0)
    MARKED = 'InvalidationDetail#%d()' % MARK
    kw = dict(models=WALK, opaque=V.OPAQUE + ('close_in_memory_file',))
    # functions whose result carries an InvalidationResult
    fns = []
    for k, f in sorted(v.c.fns.items()):
        if f['local'] and '{closure' not in k and 'InvalidationResult' in f['tys'][f['locals'][0][0]]['s'] and not f.get('itrait'):
            n = '::'.join(strip(f['def']).split('::')[-2:])
            if n not in fns:
                fns.append(n)
    names = {n.split('::')[-1] for n in fns}
    def value(p):
        """the InvalidationResult in the returned value: None when there is none (an error)"""
        t = p.ret
        if t[0] == 'adt' and t[1].endswith('InvalidationResult'):
            return t
        if t[0] == 'adt' and t[1].endswith('::Result'):
            return t[3][0] if t[2] == 0 else None
        if t[0] == 'tup':
            return t[1][-1]
        if t[0] == 'T' and t[1] == 'call' and t[2].split('::')[-1] == 'close_in_memory_file':
            return None if p.discr(t) == 1 else T('fld', T('as', t, 0), '0', 0)
        return t
    def isdb(p, t):
        return t is not None and p.discr(t) == DB
    def evidence(p):
        return any((re.match(r'discr\(in\((.*)\.0\)\)$', k) and ('invalidations' in k or 'invs' in k) and x == MARK) or
                   (k.startswith('discr(') and x == DB and any(k.startswith('discr(' + n) for n in names)) for k, x in p.facts.items())
    def results(p):
        out = []
        for e in p.calls(*names):
            r = e[3]
            if e[1].split('::')[-1] == 'close_in_memory_file':
                if p.discr(r) == 1:
                    continue
                r = T('fld', T('as', r, 0), '0', 0)
            out.append((e, r))
        return out
    def kept(p):
        cs = results(p)
        if not cs:
            return None
        ret = value(p)
        for e, r in cs:
            d = p.discr(r)
            if d is not None and d != DB:
                continue
            if ret is None:         # an error: no result is reported
                return None
            if ret == r or ret is not None and norm(ret) == norm(r) or isdb(p, ret):
                continue
            return 'the result of %s can be InvalidatedDb, but %s is returned' % (e[1].split('::')[-1], s(p.ret)[:160])
        return True
    def marked(p):
        m = [k for k, x in p.facts.items() if re.match(r'discr\(in\(.*\.0\)\)$', k) and ('invalidations' in k or 'invs' in k) and x == MARK]
        if not m:
            return None
        ret = value(p)
        if isdb(p, ret):
            return True
        for e, r in results(p):
            if any(MARKED in s(a) for a in e[2]):
                return True
        return 'the set %s carries the marker, but %s is returned' % (m[0][6:-1][:160], s(p.ret)[:120])
    def honest(p):
        ret = value(p)
        if ret is None or ret[0] != 'adt' or ret[2] != DB:
            return None
        return True if evidence(p) else 'InvalidatedDb is returned though nothing that was invalidated carries the marker'
    for n in fns:
        R.each(n, 'an InvalidatedDb of a callee is passed on', kept, **kw)
        R.each(n, 'a set with the marker leads to InvalidatedDb', marked, need=0, **kw)
        R.each(n, 'InvalidatedDb is only reported on evidence', honest, need=0, **kw)
    # |=
    B = '<vfs::vfs::InvalidationResult as core::ops::bit::BitOrAssign>::bitor_assign'
    def orr(p):
        lab = v.label(v.c.fns[v.find(B)])
        me, other = lab[0], lab[1]
        w = [x for a, x, e in p.writes() if a == me]
        d = p.fact('discr(%s)' % me)
        final = w[-1] if w else me
        if final == other:
            return True if d is not None and d != DB or p.fact('discr(%s)' % other) == DB else 'InvalidatedDb |= other can become InvalidatedFiles'
        if final == me:
            return True if d == DB or p.fact('discr(%s)' % other) not in (None, DB) else '`InvalidatedFiles |= InvalidatedDb` can stay InvalidatedFiles'
        if final.startswith('InvalidationResult#%d' % DB):
            return True if d == DB or p.fact('discr(%s)' % other) == DB else '|= makes InvalidatedDb of nothing'
        return 'the result of |= is %s' % final if final.startswith('InvalidationResult#') and (d == DB or d is None) else None
    R.each(B, 'keeps InvalidatedDb', orr)
    # the set of dependents
    LOCK, DET = 'self.0', 'in(self.0)'
    def final(p, lock='self.0'):
        """(variant, text) of the stored detail at the end of the path"""
        val = None
        for a, x, e in p.writes():
            if a == lock:
                m = re.match(r'Lock#\d+\((.*)\)$', x)
                val = m.group(1) if m else x
            elif a == 'in(%s)' % lock:
                val = x
        if val is None:
            return p.fact('discr(in(%s))' % lock), 'in(%s)' % lock
        if val.startswith('InvalidationDetail#'):
            return int(val[19]), val
        if val.startswith('default('):
            return 1 - MARK, val
        return None, val
    def retdet(p):
        m = re.match(r'Invalidations#\d+\(Lock#\d+\((.*)\)\)$', s(p.ret))
        return m.group(1) if m else s(p.ret)
    def take(p):
        d = p.fact('discr(in(self.0))')
        r, (fv, ft) = retdet(p), final(p)
        if d == MARK:
            if r not in (MARKED, DET):
                return 'take of a marked set yields %s' % r
            return True if fv == MARK else 'take of a marked set leaves %s: the marker is lost' % ft
        if d is None:
            return 'take does not distinguish a marked set'
        if r.startswith(MARKED):
            return 'take of an unmarked set yields the marker'
        return 'take of an unmarked set leaves the marker' if fv == MARK and ft != DET else True
    R.each('Invalidations::take', 'keeps the marker and hands it out', take)
    def clone(p):
        d = p.fact('discr(in(self.0))')
        r = retdet(p)
        if r == DET:
            return True
        if d == MARK:
            return True if r == MARKED else 'the clone of a marked set is %s' % r
        return 'the clone of an unmarked set is marked' if r == MARKED else None
    R.each('<vfs::tree::Invalidations as core::clone::Clone>::clone', 'keeps the marker', clone)
    def extend(p):
        a, b = p.fact('discr(in(self.0))'), p.fact('discr(in(invs.0))')
        fv, ft = final(p)
        if MARK in (a, b):
            return True if fv == MARK else 'extend of a marked set, or by one, leaves %s' % ft
        if a is None or b is None:
            return None
        return 'extend invents the marker' if fv == MARK and ft != DET else True
    R.each('Invalidations::extend', 'is marked when either was', extend)
    def add(p):
        a = p.fact('discr(in(self.0))')
        fv, ft = final(p)
        if a == MARK:
            return True if fv == MARK else 'add on a marked set leaves %s' % ft
        return 'add invents the marker' if fv == MARK and ft != DET else None if a is None else True
    R.each('Invalidations::add', 'keeps the marker', add)
    R.each('Invalidations::set_invalidates_db', 'sets the marker', lambda p: True if final(p)[0] == MARK else 'the set ends as %s' % final(p)[1])
    def query(p):
        d, r = p.fact('discr(in(self.0))'), s(p.ret)
        if d is None or r not in ('0', '1'):
            return None
        return True if (r == '1') == (d == MARK) else 'invalidates_db of a %s set is %s' % ('marked' if d == MARK else 'unmarked', r)
    R.each('Invalidations::invalidates_db', 'tells the marker', query)
    def empty(p):
        d, r = p.fact('discr(in(self.0))'), s(p.ret)
        return None if d != MARK else True if r == '0' else 'a marked set is called empty'
    R.each('Invalidations::is_empty', 'a marked set is not empty', empty)
    def intoiter(p):
        d, r = p.fact('discr(in(self.0))'), s(p.ret)
        return None if d is None else True if r.startswith(MARKED) == (d == MARK) else 'into_iter of a %s set yields %s' % ('marked' if d == MARK else 'unmarked', r[:80])
    R.each('Invalidations::into_iter', 'hands out the marker', intoiter)
    # where the marker is set
    def pushed(p, flag):
        """flag: text of the condition under which the new state's entry has to be marked -> (known value, entry)"""
        return [e for e in p.calls('slot push')]
    def statentry(e):
        m = e[2][1]
        if m[0] == 'adt' and m[1].endswith('FileState'):
            names_ = [f[0] for f in ad['vfs::vfs::FileState']['v'][0]['f']]
            from vfsflow import REN
            for nm, x in zip(names_, m[3]):
                if REN.get(nm, nm) == 'file_entry':
                    return s(x)
        return None
    def setmark(p, entry):
        return any(a == 'in(%s.invalidations.0)' % entry and x == MARKED for a, x, e in p.writes())
    def newfile(flagof):
        def pred(p):
            ev = p.calls('slot push')
            if not ev:
                return None
            for e in ev:
                en = statentry(e)
                if en is None:
                    return None
                fl = flagof(p, en)
                if fl is None:
                    return 'the new file is added without regard to the flag' if setmark(p, en) is False else 'the new file is marked without regard to the flag'
                if fl and not setmark(p, en):
                    return 'the new file of %s is not marked' % en[:80]
                if not fl and setmark(p, en):
                    return 'the new file of %s is marked, though nothing asked for it' % en[:80]
            return True
        return pred
    R.each('Vfs::ensure_file_for_file_entry_with_conditional', 'a new file is marked exactly when it invalidates the database', newfile(lambda p, en: p.fact('flag')))
    def superflag(p, en):
        x = p.fact('discr(in(slot(self.files, index.0).file_entry.invalidations.0))')
        return None if x is None else x == MARK
    R.each('Vfs::create_sub_file', 'a sub file is marked exactly when its file is', lambda p: None if not p.calls('slot push') else
           True if statentry(p.calls('slot push')[0]) == 'slot(self.files, index.0).file_entry' and not setmark(p, '?') and (superflag(p, '') is not False or not setmark(p, 'slot(self.files, index.0).file_entry'))
           else 'the sub file belongs to %s' % statentry(p.calls('slot push')[0]) if statentry(p.calls('slot push')[0]) != 'slot(self.files, index.0).file_entry' else 'a sub file of an unmarked file is marked')
    R.each('Vfs::ensure_file_index', 'a file that is only referred to is not marked', newfile(lambda p, en: False))
    def recflag(p, en):
        m = re.search(r'elem\(recovery\.files, (\d+)\)\.path', en)
        return p.fact('elem(recovery.files, %s).invalidates_db' % m.group(1)) if m else None
    R.each('Vfs::load_panic_recovery', 'a recovered file is marked exactly when it was', newfile(recflag))
    def rec(p):
        n = 0
        for x in sub(p.ret, lambda t: t[0] == 'adt' and t[1].endswith('RecoveryFile')):
            fl = {f[0]: y for f, y in zip(ad['vfs::vfs::RecoveryFile']['v'][0]['f'], x[3])}
            path, db = s(fl['path']), s(fl['invalidates_db'])
            k = 'discr(in(%s.file_entry.invalidations.0))' % path[:-5]
            d = p.fact(k)
            if d is None:
                return 'the recovered file does not carry the marker of its entry'
            if db not in ('0', '1') or (db == '1') != (d == MARK):
                return 'the file of a %s entry is recovered with invalidates_db=%s' % ('marked' if d == MARK else 'unmarked', db)
            n += 1
        return True if n else None
    R.each('Vfs::into_panic_recovery', 'a recovered file carries the marker', rec)
    def restored(p):
        ev = p.calls('slot set')
        if not ev:
            return None
        rs = [(e, r) for e, r in results(p) if p.pos(e) < p.pos(ev[0])]
        if not rs:
            return None
        en = statentry(ev[0])
        d = p.discr(rs[0][1])
        if d is None:
            return None if setmark(p, en or '') else 'the reloaded buffer is not marked although invalidating it can have invalidated the database'
        if d == DB:
            return True if setmark(p, en or '') else 'the reloaded buffer of a file that invalidates the database is not marked'
        return 'the reloaded buffer is marked, though it was not' if setmark(p, en or '') else True
    R.each('Vfs::store_in_memory_file', 'a reloaded buffer is marked exactly when it was', restored, **kw)
    R.done(20)
    rep.floor('functions with a result', len(fns), 7)
