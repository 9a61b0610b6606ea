"""No parsed record makes validating, resolving, rendering or re-encoding panic.

As C14, from the entry points that take parsed records: what the record parsers guarantee of the records they return
(lengths of their fields, the sizes that fit a record) is read off the parsers themselves.
"""
RULE = 'abstract interpretation: every panic site reachable from validation and rendering is refuted under its path conditions'
from obligations import *

START = ('verify_rr_stream', 'VerifiedRRStream::resolve_name', 'RR::json', 'RR::name', 'write_rr', 'root_hints', 'DnsKey::key_tag', 'Name::labels', 'Name::trailing_n_labels', 'Name::as_str', 'NSecTypeMask::contains_type')


def check(ctx, rep):
    for k in START:
        rep.need(k)
    P = ctx.prog()
    starts = entries(ctx, START)
    starts += [f for f in P.fns if own(f) and f.get('trait') and ('Record>::' in f['full'] or 'StaticRecord>::' in f['full'] or 'std::cmp::' in f['full'] or 'fmt::Display' in f['full']) and 'read_from_data' not in f['full']]
    judge(ctx, rep, starts, None, floor=60)
