"""P05: the hash table is a map (both copies of the table in the repository)."""
from vf.cast import server_flags, REPO
from contracts.hashmap import *

F1, F2 = 'src/commons/collections/pdc_hash_table.c', 'src/server/pdc_hash-table.c'
N = dict(new='new', free='free', lookup='lookup', insert='insert', remove='remove', register='register_free_functions', num_entries='num_entries',
         iterate='iterate', iter_next='iter_next', has_more='iter_has_more')


def impl(path, pfx, flags=()):
    names = {k: pfx + 'hash_table_' + v for k, v in N.items()}
    names['enlarge'] = 'hash_table_enlarge'
    return Impl(Fam(path, 'struct _HashTable', 'struct _HashTableEntry', 'pair.key', 'pair.value', 'next', extra=('key_free_func', 'value_free_func')), names, flags=flags)


PROOFS = all_proofs(impl(F1, '')) + all_proofs(impl(F2, '', tuple(server_flags())), 'server.')
from vf.cast import server_flags
NATIVE = [dict(src='native/p05_hash.c', flags=['-DSRC_C="%s/%s"' % (REPO, F1)], time=12),
          dict(src='native/p05_hash.c', flags=['-DSERVER_COPY', '-DSRC_C="%s/%s"' % (REPO, F2)], server=True, time=12)]
RULE = 'random operation histories over six hash functions and all free-function registrations, with allocation failures, against an array model; distinct counted by (case, length, key range)'
ASSUMPTIONS = ['the equality function is an equivalence and equal keys hash equally (the documented precondition)', 'at most 2^27 entries (above 2^30 the 32-bit load computation wraps and the table merely stops growing)',
               'the free callbacks do not touch the table']
