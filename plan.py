"""Per-property budgets and wording for the evidence files."""
CEIL = ['vecs', 'strs', 'vec_arr', 'len_narrow', 'len_signed', 'shared_len', 'computed', 'computed_rec', 'ceil', 'ceil_def', 'ceil_defrec',
        'ceil_comp', 'ceil_un', 'ceil_maybe', 'ceil_nest', 'vrec', 'vrec_deep', 'un_len', 'maybe_len', 'packet']
PLAN = {}


def P(id, runs, rule, **kw):
    PLAN[id] = dict(runs=runs, rule=rule, **kw)


G = 'One evaluation is one seeded simulated run: '
P('C01', 700000, G + 'one to three messages of random schemas read off one link in random byte order, stream kind and delivery schedule. Non-trivial: more than one message, or fragmented delivery.', without='write')
P('C02', 900000, G + 'one message read up to three times through a stream that fails at a chosen byte, then once without faults. Non-trivial: at least one read met the fault.', without='write')
P('C03', 1000000, G + 'a struct built field by field and written once or twice. Non-trivial: the struct is writable.', without='read')
P('C04', 700000, G + 'a struct written up to three times to a stream that refuses at a chosen byte, then to a healthy one. Non-trivial: a write met the refusal.', without='read')
P('C05', 450000, G + 'a struct edited into inconsistency, written, its leftovers read back, repaired and written again. Non-trivial: the struct was unwritable.', needs=r'\(con [^)]|\(clen\)|\(len\)|\(lfs |\(maybe |\(ladder\)|\(compute ')
P('C06', 600000, G + 'a message carried over up to four write/read hops, changing byte order and stream kind, with failed attempts in between. Non-trivial: all.')
P('C07', 400000, G + 'a live struct edited, copied, moved and written up to seven times. Non-trivial: more than one step.', needs=r'\(len\)|\(disc\)')
P('C08', 500000, G + 'a live struct whose parts must agree, edited in and out of agreement and written. Non-trivial: more than one step.', needs=r'\(clen\)|\(lfs |\(maybe |\(ladder\)|\(compute ')
P('C09', 400000, G + 'a message with lengths at, around and far beyond the ceiling. Non-trivial: a container was allocated or a length refused.', ceilings=True, ceiling_schemas=CEIL, wide_schemas=('vecs', 'ceil_def', 'ceil_un', 'ceil_maybe', 'vrec'), needs=r'\(vec |\(str |\(vrec ', without='write')
P('C10', 1400000, G + 'a message or struct with values on and around the edges of its constraints. Non-trivial: all.', needs=r'\(con [^)]')
P('C11', 1200000, G + 'up to three messages whose flags and discriminants take declared and undeclared values. Non-trivial: all.', needs=r'\(maybe |\(union ', without='write')
P('C12', 40000, G + 'two to four tasks casting on links of their own and on a shared const struct, preempted between basic blocks and re-entered from callbacks, compared with the same casts run alone. Non-trivial: more than one task switch.')
P('C13', 350000, G + 'an append-only record log with syncs, full-disk errors, crashes that tear the unsynced tail, and recovery. Non-trivial: a crash with unsynced data.')
P('C14', 450000, G + 'datagrams damaged, truncated, spliced, lost, duplicated and reordered, then read. Non-trivial: all.')
P('C15', 550000, G + 'one to three failing reads or writes. Non-trivial: the cast failed.')
P('C16', 800000, G + 'the same cast over every kind of stream. Non-trivial: all.')
P('C17', 1200000, G + 'a cast during which the stream, the allocator or a user callable throws, then a clean one. Non-trivial: something was thrown.')

THOROUGH = dict(scale=12.0, seconds=600, random_rounds=2, random_schemas=32)
