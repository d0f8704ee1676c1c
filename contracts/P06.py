"""P06: the hash set is a set."""
from contracts.hashmap import *

F = 'src/commons/collections/pdc_set.c'
N = dict(new='new', free='free', lookup='query', insert='insert', remove='remove', enlarge='enlarge', register='register_free_function', num_entries='num_entries',
         iterate='iterate', iter_next='iter_next', has_more='iter_has_more')
IM = Impl(Fam(F, 'struct _Set', 'struct _SetEntry', 'data', None, 'next', extra=('free_func',)), {k: 'set_' + v for k, v in N.items()}, is_set=True,
          free_fields=('free_func',), iter_rec='struct _SetIterator', iter_tab='set')
PROOFS = all_proofs(IM)
from vf.cast import REPO
NATIVE = dict(src='native/p06_set.c', flags=['-DSRC_C="%s/%s"' % (REPO, F)], time=12)
RULE = 'random histories of two sets and their union and intersection, with allocation failures, against bitmap models'
ASSUMPTIONS = ['the equality function is an equivalence and equal elements hash equally (the documented precondition)', 'at most 2^27 entries',
               'union, intersection and to_array are decided by the native contract run only (bounded by its histories)', 'the free callback does not touch the set']
