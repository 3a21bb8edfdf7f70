"""What each property's check runs: families of NrbfMC with (records, grace) for quick and thorough, and the corpus."""
import corpora

# family: (records quick, records thorough)
FAM = dict(refs=(4, 5), meta=(4, 4), libs=(3, 4), types=(4, 4), nulls=(3, 5), arrays=(1, 1), ids=(3, 4), call=(3, 5), flags=(1, 1),
           highflags=(1, 1), root=(3, 4), members=(3, 4), box=(2, 3), list=(4, 5), struct=(4, 5), header=(0, 0))
FAM['return'] = (3, 5)

PLAN = {
    'C01': dict(fams=['types', 'arrays', 'nulls'], corpus=corpora.c01, crash_only=True, walk=True, bulk=True),
    'C02': dict(fams=['types', 'root'], corpus=corpora.c02, walk=True, others=100),
    'C03': dict(fams=['header'], corpus=corpora.c03, others=100),
    'C04': dict(fams=['arrays', 'box'], corpus=corpora.c04, others=100),
    'C05': dict(fams=['members'], corpus=corpora.c05, walk=True, others=100),
    'C06': dict(fams=['members', 'meta', 'struct'], corpus=corpora.c06, walk=True, others=100),
    'C07': dict(fams=['meta'], corpus=corpora.c07, walk=True, others=100),
    'C08': dict(fams=['libs'], corpus=corpora.c08, walk=True, others=100),
    'C09': dict(fams=['types'], corpus=corpora.c09, walk=True, others=100),
    'C10': dict(fams=['refs', 'root'], corpus=corpora.c10, walk=True, others=100),
    'C11': dict(fams=['nulls', 'arrays'], corpus=corpora.c11, walk=True, others=100),
    'C12': dict(fams=['arrays'], corpus=corpora.c12, walk=True, others=100),
    'C13': dict(fams=['ids', 'refs'], corpus=corpora.c13, walk=True, others=100),
    'C14': dict(fams=['call'], corpus=corpora.c14, walk=True, others=100),
    'C15': dict(fams=['return'], corpus=corpora.c15, walk=True, others=100),
    'C16': dict(fams=['flags', 'highflags'], corpus=corpora.c16, others=100),
    'C17': dict(fams=['root', 'refs'], corpus=corpora.c17, walk=True, others=100),
    'C18': dict(fams=['box'], corpus=corpora.c18, targets=corpora.SCALARS + ['boxraw', 'map_any', 'vec_any']),
    'C19': dict(fams=['list'], corpus=corpora.c19, cap=600, sweep=('parse', 'vec_any', 'vec_i32', 'vec_u8', 'vec_string', 'vec_ignored', 'arr2_any'), targets=corpora.SEQS + ['listraw', 'map_any', 'any']),
    'C20': dict(fams=['struct'], corpus=corpora.c20, sweep=('parse', 'map_any', 'ab', 'optab', 'map_i32', 'map_ignored'), targets=corpora.MAPS + ['any', 'opt_any', 'opt_unit', 'unit', 'tup3', 'vec_any', 'vec_ab']),
    'C21': dict(fams=['struct', 'call'], corpus=corpora.c21, targets=['any', 'ignored', 'map_any', 'vec_any', 'opt_any', 'i32', 'string'], walk=True),
    'C22': dict(fams=[], corpus=corpora.c22, session=True),
    'C23': dict(fams=[], corpus=corpora.c23, efforts=True),
    'C24': dict(fams=['libs', 'ids', 'call', 'return'], corpus=corpora.c24, errors=True, walk=True),
    'C25': dict(fams=['box', 'list', 'struct', 'call'], corpus=corpora.c25, whys=corpora.TARGETS),
}
