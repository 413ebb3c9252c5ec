"""Accessors of the syntax tree never panic, whatever tree the grammar can produce."""
import cstrun

def run(r):
    r.rule('Every public function of the syntax tree crate is interpreted abstractly over its MIR on symbolic nodes whose labels, children, '
           'parents and siblings range over everything the grammar of the parser (read from the grammar definition on this run, error recovery '
           'nodes included) allows; every unwrap, expect, panic, assert, slice index and child lookup reached is an obligation that must not fail.')
    res = cstrun.run_parallel(r.tier)
    for k, v in res.obl.items():
        key = '%s#%s' % (k[0], k[2])
        if v == 'alarm':
            d, stack, file, line = res.alarm[k]
            ent = stack[0] if stack else k[0]
            r.bad('%s via %s' % (key, ent), '%s:%s in %s (%s): %s; reached from %s' % (file, line, k[0], k[2], d, ' > '.join(stack)))
        elif v == 'ok':
            r.ok('%s@%s' % (key, k[1]))
        else:
            r.undecided('%s@%s' % (key, k[1]))
    r.counts['abstract states'] = res.states
    r.counts['calls interpreted'] = res.calls
    r.counts['entry points given up on (budget)'] = len(res.bailed)
    r.floor('entry points', res.entries, 1400)
    r.floor('functions analysed', len(res.fns), 1900)
    r.floor('obligations decided', sum(1 for v in res.obl.values() if v != 'undecided'), 400)
    r.assumptions += ['the parser produces only trees of the grammar, plus error nodes in the positions its error recovery creates them '
                      '(some malformed trees after failed alternatives are outside this model)',
                      'callers respect the preconditions listed in spec/cst_contracts.json']
    r.samples += ['%s: %s' % (k, v) for k, v in sorted(res.obl.items())[:8]]
