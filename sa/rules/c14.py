"""No bytes make parsing or response handling panic.

Every function reachable from the stream parser, the proof builder and its buffers is analysed on its own for all
arguments.  Each assertion the compiler put in (index and slice bounds, arithmetic overflow), each unwrap and each
explicit panic is an obligation with the conditions of the path to it.
"""
RULE = 'abstract interpretation: every panic site reachable from the parsers is refuted under its path conditions'
from obligations import *

START = ('parse_rr_stream', 'ProofBuilder::new', 'ProofBuilder::process_response', 'ProofBuilder::finish_proof', 'ProofBuilder::awaiting_responses',
         'QueryBuf::extend_from_slice', 'QueryBuf::new_zeroed', 'QueryBuf::into_vec')


def check(ctx, rep):
    for k in START:
        rep.need(k)
    P = ctx.prog()
    starts = entries(ctx, START)
    starts += [f for f in P.fns if own(f) and f.get('trait') and ('QueryBuf as' in f['full'] and 'Deref' in f['full'] or 'Name as std::convert::TryFrom' in f['full'])]
    judge(ctx, rep, starts, None, floor=60)
