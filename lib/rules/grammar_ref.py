"""C03: the phrase structure of every construct is that of the reference grammar."""
import json
import grammarref

def run(rep):
    rep.rule('For every rule of the grammar in crates/parsa_python/src/lib.rs, the minimal automaton of its child sequences (sub-rules, '
             'terminals, keywords, lookahead conditions, cuts) accepts exactly the sequences of the reference automaton, alternatives that can begin with the same token are tried in the same order, and the rule has the same '
             'flags (collapsed when it has one child, error recovery); the soft keywords and the start rule are the same.')
    ref = json.load(open(grammarref.SPEC))
    cur = grammarref.read()
    grammarref.inline_aliases(cur, ref['rules'])
    words = pairs = 0
    pcur, pref = grammarref.priorities(cur['rules'], cur['soft']), grammarref.priorities(ref['rules'], ref['soft'])
    for name in sorted(ref['rules']):
        want = ref['rules'][name]
        have = cur['rules'].get(name)
        words += len(want[0])
        if have is None:
            rep.bad('rule ' + name, 'crates/parsa_python/src/lib.rs: the grammar has no rule %s' % name)
            continue
        w = grammarref.witness(have, want, pcur[name], pref[name])
        pairs += sum(len(x) for x in pref[name])
        if w and w[2]:
            rep.bad('rule ' + name, 'crates/parsa_python/src/lib.rs, rule %s: after the children  %s  the alternatives, which can begin alike, are tried in the order  %s  instead of  %s' % (
                name, grammarref.show(w[0]), grammarref.show(w[2][0][1].split('  ')), grammarref.show(w[2][0][0].split('  '))))
        elif w:
            rep.bad('rule ' + name, 'crates/parsa_python/src/lib.rs, rule %s: the children  %s  are %s' % (
                name, grammarref.show(w[0]), 'accepted, but are no %s in the reference grammar' % name if w[1] else 'no longer accepted'))
        elif sorted(have[2]) != sorted(want[2]):
            rep.bad('rule ' + name, 'crates/parsa_python/src/lib.rs, rule %s: flags %s instead of %s' % (name, have[2], want[2]))
        else:
            rep.ok('rule ' + name, '%d states' % len(want[0]))
    for name in sorted(set(cur['rules']) - set(ref['rules'])):
        rep.undecided('new rule ' + name)
    for k in ('soft', 'first'):
        rep.need(cur[k] == ref[k], k, 'crates/parsa_python/src/lib.rs: %s is %s instead of %s' % ({'soft': 'the list of soft keywords', 'first': 'the start rule'}[k], cur[k], ref[k]))
    rep.counts.update(rules=len(cur['rules']), automaton_states=words, ordered_alternatives=pairs)
    rep.floor('rules compared', len(ref['rules']), 140)
