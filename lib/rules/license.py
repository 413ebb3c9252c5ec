"""C11: a license is accepted only as signed and while it is valid."""
import re
from vfsflow import V, Rules, s

def un(x):
    return re.sub(r"\)'+", ')', x)

def run(rep):
    rep.rule('On every path of the functions that create, sign, read and verify a license: it is accepted only if some key verifies the signature strictly over the message of all its fields and the time lies in its period, '
             'it is refused only if not, and the level handed on is that of the license verified.')
    v = V('licensing')
    R = Rules(rep, v)
    O = ('License::to_bytes_message', 'License::verify', 'License::verify_with_keys', 'License::from_json', 'License::to_json', 'License::sign', 'License::create', 'verify_license_in_path', 'path_for_license', 'hex_string_key_to_bytes')
    def op(*without):
        return tuple(o for o in O if o not in without)
    for o in O:
        if v.find(o) is None:
            rep.undecided('function ' + o)
    adt = v.c.adts.get('licensing::License')
    fields = [f[0] for f in adt['v'][0]['f']] if adt else []
    def ret(p):
        return un(s(p.ret))
    # --- verify_with_keys
    EPOCH = r'SystemTime#0\(SystemTime#0\(Timespec#0\(0, Nanoseconds#0\(\(\)\)\)\)\)'
    def norm(x):
        return re.sub(r'duration_since\(now, %s\)' % EPOCH, 'AGE', un(x))
    def verify(p):
        facts = {norm(k): x for k, x in p.facts.items()}
        n, over, _ = p.visited('keys')
        r = ret(p)
        err = r.startswith('Result#1') or p.ret[0] == 'T' and facts.get('discr(%s)' % r) == 1
        good = None
        for i in range(n):
            e = 'from_bytes(elem(keys, %d))' % i
            if facts.get('discr(%s)' % e) == 1:
                if r == 'Result#0(1)':
                    return 'accepted with a key that is none'
                continue
            vs = [(k, x) for k, x in facts.items() if k.startswith('discr(verify') and e in k]
            want = 'discr(verify_strict(%s@0.0, to_bytes_message(self), from_str(self.signature)@0.0))' % e
            for k, x in vs:
                if k != want:
                    return 'the signature is not verified strictly over the message of the license with each key (%s)' % k[6:120]
            if not vs:
                if facts.get('discr(from_str(self.signature))') == 1:
                    return True if err else 'a license whose signature cannot be read is not refused with an error'
                return 'a key is passed over' if not err else None
            if vs[0][1] == 0:
                good = i
                break
        sec = 'as_secs(AGE@0.0)'
        def lt(a, b):
            x = facts.get('lt(%s, %s)' % (a, b))
            if x is None and 'lt(%s, %s)' % (b, a) in facts and facts['lt(%s, %s)' % (b, a)] == 1:
                x = 0
            return x
        early, late = lt(sec, 'self.valid_from'), lt('self.valid_until', sec)
        if r == 'Result#0(1)':
            if good is None:
                return 'accepted without a key that verifies the signature'
            if facts.get('discr(AGE)') == 1:
                return 'accepted at a time before the epoch'
            if early != 0:
                return 'accepted although it may not be valid yet'
            if late != 0:
                return 'accepted although it may have expired'
            return True
        if good is not None:
            if early == 1 or late == 1:
                return True if err else 'a license out of its period is not refused with an error'
            if early == 0 and late == 0:
                return 'a license that is signed and valid is refused'
            return 'a signed license is refused without comparing its period' if facts.get('discr(AGE)') == 0 or not facts.get('discr(AGE)') and early is None and late is None else None
        if r == 'Result#0(0)':
            return True if over or n >= 2 else 'refused before all keys were tried'
        return None if err else 'the outcome is %s' % r[:80]
    R.each('License::verify_with_keys', 'accepted exactly if a key verifies it and it is in its period', verify, need=6, opaque=op('License::verify_with_keys'), labels=['self', 'now', 'keys'])
    # --- verify
    nkeys = None
    for k in v.c.fns:
        if k.endswith('VALID_PUBLIC_KEYS'):
            nkeys = k
    def with_keys(p):
        c = p.calls('verify_with_keys')
        if len(c) != 1:
            return None if not c and s(p.ret).startswith('verify_with_keys') else 'the license is not verified' if not c else None
        if s(c[0][2][0]) != 'self' or un(s(c[0][2][1])) != 'now()':
            return 'it is not verified at the current time'
        it = c[0][2][2]
        def left(it):
            if not isinstance(it, tuple) or len(it) < 4 or it[0] != 'it':
                return None
            if it[1] == 'list' and isinstance(it[3], int):
                return len(it[2]), len(it[2]) - it[3]
            if it[1] in ('skip', 'take', 'step_by') and isinstance(it[3], int) and left(it[2]):
                n, m = left(it[2])
                return n, max(0, m - it[3]) if it[1] == 'skip' else min(m, it[3]) if it[1] == 'take' else -(-m // max(1, it[3]))
            if it[1] == 'rev':
                return left(it[2])
        m = left(it)
        if m:
            return True if m[0] == m[1] and m[0] else 'only %d of the %d built-in keys are tried' % (m[1], m[0])
        return True if 'VALID_PUBLIC_KEYS' in s(it) else None
    R.each('License::verify', 'verified now with the built-in keys', with_keys, opaque=op('License::verify'))
    # --- the message
    def message(p):
        r = ret(p)
        for f in fields:
            if f == 'signature':
                continue
            if not re.search(r'\bself\.%s\b' % re.escape(f), r):
                return 'the field %s is not part of what is signed' % f
        if re.search(r'\bself\.signature\b', r):
            return 'the signature is part of what it signs'
        if r.startswith('concat('):
            parts = r[8:-2].split(', ')
            for f in fields:
                if f != 'signature' and not any(x in ('self.' + f, 'to_string(self.%s)' % f, 'to_string(self.%s)@0.0' % f) for x in parts):
                    return 'the field %s is signed as something else than its value: %s' % (f, ', '.join(x for x in parts if f in x)[:80])
        return True
    R.each('License::to_bytes_message', 'every field but the signature is signed', message, opaque=())
    def apart(p):
        r = ret(p)
        m = re.match(r'concat\(\((.*)\)\)$', r)
        if not m:
            return None
        parts = m.group(1).split(', ')
        for a, b in zip(parts, parts[1:]):
            if 'self.' in a and 'self.' in b:
                return 'the fields %s and %s are signed one after the other without anything between them: another license whose fields run together to the same text has the same signature' % (a, b)
        return True
    R.each('License::to_bytes_message', 'fields are kept apart in what is signed', apart, opaque=())
    # --- sign
    def sign(p):
        w = [x for a, x, e in p.writes() if a == 'self.signature']
        if not w:
            return 'the license is not signed' if ret(p).startswith('Result#0') else None
        c = p.calls('sign')
        if not c:
            return None
        key, msg = un(s(c[-1][2][0])), un(s(c[-1][2][1]))
        if key != 'from_bytes(private_key)' or msg != 'to_bytes_message(self)':
            return 'signed is %s with %s' % (msg[:60], key[:60])
        return True if 'to_bytes_message(self)' in un(w[-1]) or un(s(c[-1][3])) in un(w[-1]) else 'the signature is not kept: %s' % w[-1][:80]
    R.each('License::sign', 'the signature is that of the message under the key given', sign, opaque=op('License::sign'), labels=['self', 'private_key'])
    # --- create
    def create(p):
        if p.ret[0] != 'adt':
            return None
        vals = dict(zip(fields, [re.sub(EPOCH, 'EPOCH', un(s(x))) for x in p.ret[3]]))
        for f, x in vals.items():
            if f in ('name', 'email', 'company', 'level') and x != f:
                return 'the field %s gets %s' % (f, x[:60])
            if f in ('valid_from', 'valid_until') and x != 'as_secs(duration_since(%s, EPOCH)@0.0)' % f:
                return 'the field %s gets %s' % (f, x[:80])
        return True
    R.each('License::create', 'every field is what was asked for', create, opaque=op('License::create'), labels=['name', 'email', 'company', 'valid_from', 'valid_until', 'level'])
    LEVEL = [x['n'] for x in v.c.adts['licensing::LicenseLevel']['v']] if 'licensing::LicenseLevel' in v.c.adts else []
    def made(p):
        c, j = p.calls('create'), p.calls('to_json')
        if ret(p).startswith('Result#1') or p.ret[0] == 'T' and p.fact('discr(%s)' % s(p.ret)) == 1:
            return None
        if not c:
            return None
        a = [un(s(x)) for x in c[0][2]]
        if a[:3] != ['name', 'email', 'company']:
            return 'the license is made for %s' % ', '.join(a[:3])
        if a[3] != 'now()':
            return 'the license does not begin now'
        m = re.match(r'add\(now\(\), from_secs\((?:bin\(Mul, days, 86400\)|bin\(Mul, 86400, days\)|mul\(days, 86400\))\)\)$', a[4])
        if not m:
            ok = re.search(r'86400', a[4]) and 'days' in a[4]
            if not ok:
                return 'the license does not end after the days asked for: %s' % a[4][:80]
        sg = p.calls('sign')
        if not sg:
            return 'an unsigned license is handed out'
        k = un(s(sg[0][2][1]))
        if "hex_string_key_to_bytes(var('ZUBAN_SIGNING_KEY')" not in k:
            return 'the license is signed with %s' % k[:80]
        return True
    R.each('create_license', 'the license is for who it was asked for, from now for the days asked for, and signed', made, opaque=O, labels=['name', 'email', 'company', 'days'])
    # --- a file
    def infile(d):
        rd = 'read_to_string(path)'
        if d(rd, 2):
            return 'error'
        js = 'from_json(%s@0.0)' % rd
        if d(js, 2):
            return 'error'
        ve = 'verify(%s@0.0)' % js
        if d(ve, 2):
            return 'error'
        return 'Result#0(%s@0.0.level)' % js if d.b(ve + '@0.0') else 'error'
    R.spec('verify_license_in_path', 'the level is that of the license in the file, if it verifies', infile,
           lambda p: 'error' if ret(p).startswith('Result#1') or p.ret[0] == 'T' and p.fact('discr(%s)' % s(p.ret)) == 1 else ret(p), need=4, opaque=op('verify_license_in_path'), labels=['path'])
    R.each('verify_license_in_config_dir', 'the license of the user is the one verified', lambda p: True if ret(p) == 'verify_license_in_path(path_for_license())' else 'found %s' % ret(p)[:80], opaque=O)
    # --- keys as text
    def hexkey(p):
        r = ret(p)
        for k, x in p.facts.items():
            if k.startswith('more(') and not k.startswith('more(split(s, 58), '):
                return 'the text is not split at colons: %s' % k[:60]
        rx = [k for k in re.findall(r'from_str_radix\(elem\(split\(s, 58\), \d+\), (\d+)\)', r + ' '.join(p.facts))]
        if any(x != '16' for x in rx):
            return 'the parts are not read as hexadecimal numbers'
        return True if rx else None
    R.each('hex_string_key_to_bytes', 'a key is read as hexadecimal bytes between colons', hexkey, need=2, opaque=op('hex_string_key_to_bytes'), labels=['s'])
    R.done(8)
