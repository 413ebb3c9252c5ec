"""C02: which node, flag, text or iteration each accessor yields for which form of the tree."""
import cstrole

def run(rep):
    rep.rule('For every accessor of parsa_python_cst and every reference form of the tree (spec/cst_roles.json.gz: '
             'partial trees of the grammar), the current MIR of the accessor, interpreted from that form, may not '
             'reach a return that names another node / variant / number / text / end of iteration than the one the form '
             'has. Nodes are compared by identity in the tree, never by how the accessor reaches them.')
    e, ents, res, missing, bad = cstrole.check(rep.tier)
    cases = und = 0
    for k in sorted(res):
        c, d, u, part = res[k]
        cases += c
        und += u
        if d:
            msg, tree = d[0]
            f = e.c.fns[k]
            rep.bad(k, '%s (%s): for the form %s the accessor %s' % (k, f['file'].split('/repo/')[-1], tree, msg))
        elif c:
            rep.ok(k, '%d forms' % c)
        if u:
            rep.undecided(k)
    rep.counts.update(accessors=len(res), forms_checked=cases, forms_undecided=und, accessors_gone=len(missing), rules_changed=len(bad))
    rep.floor('accessors compared', len(res), 950)
    rep.floor('forms compared', cases, 5500)
    rep.assumptions.append('trees are those of the grammar (property C01 reads the same grammar); forms whose rule changed are not compared')
