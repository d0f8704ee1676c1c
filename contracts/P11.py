"""P11: what one side puts into an RPC message is what the other side takes out of it."""
import os
from vf import rpc, cbmc
from vf.cast import *
BUILD = os.environ.get('VF_BUILD', '/verif/build')
D = os.path.join(BUILD, 'rpc')
GEN = os.path.join(D, 'rpc_gen.c')
IN = ['-I' + D, '-I/verif/cbmc'] + rpc.FLAGS


def group(i, ms):
    def f(opts):
        r = cbmc.run('group%d' % i, GEN, [], flags=IN, unwind=70, server=True, fns=['hg_proc_' + m for m in ms], object_bits=12, limit=300, slice=False, extra=['--sat-solver', 'cadical'])
        return r
    return f


def bad(e):
    def f(opts):
        raise Unsupported('%s' % e)
    return f


try:
    PROOFS = [('messages %d: %s ..' % (i, g[0]), group(i, g)) for i, g in enumerate(rpc.generate(rpc.load(), GEN))]
except Unsupported as e:
    PROOFS = [('messages', bad(e))]
NATIVE = dict(src='native/p11_rpc.c', server=True, stub=True, flags=IN, time=8)
LEVEL = 'proof'
RULE = 'random contents of every message; each distinct sequence of wire tokens counts once'
ASSUMPTIONS = ['Mercury\'s own encoders of integers, strings, bulk handles and raw bytes are lossless (replaced by a typed wire)',
               'bulk_rpc_in_t carries a bulk handle only when cnt > 0, update_region_loc_in_t and query_storage_region_transfer_t a histogram only when has_hist is 1 (the condition is checked, the part is not required otherwise)',
               'element counts of variable-length parts are non-negative and below 2^27', 'padding is not compared',
               'allocation does not fail']
TRUSTED = ['stub Mercury headers in /verif/stub (Mercury is not installed)', 'cbmc 6.11 on loop-free code (complete, no bound on the inputs)']
