from . import cst_total, cst_role, grammar_ref, vfs_db, vfs_dep, vfs_buffer, vfs_paths, vfs_disk, lock_order, lock_atomic, license, vfs_recover, tok_lex, tok_flow, literals
REGISTRY = {
    'C01': dict(run=cst_total.run, level='other'),
    'C02': dict(run=cst_role.run, level='other'),
    'C03': dict(run=grammar_ref.run, level='other'),
    'C04': dict(run=vfs_db.run, level='other'),
    'C05': dict(run=vfs_dep.run, level='other'),
    'C06': dict(run=vfs_buffer.run, level='other'),
    'C07': dict(run=vfs_paths.run, level='other'),
    'C08': dict(run=vfs_disk.run, level='other'),
    'C09': dict(run=lock_order.run, level='other'),
    'C10': dict(run=lock_atomic.run, level='other'),
    'C11': dict(run=license.run, level='other'),
    'C12': dict(run=vfs_recover.run, level='other'),
    'C13': dict(run=tok_lex.run, level='other'),
    'C14': dict(run=tok_flow.run, level='other'),
    'C15': dict(run=literals.run, level='other'),
}
