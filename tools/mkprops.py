#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe) or ['result of struct_cast/stream_cast', 'bytes moved through the stream object'],
                               hook_needed=None), _note=note))


RD = ['include/cast/struct_cast_impl.hpp', 'include/field_read/field_reader.hpp', 'include/field_read/read_impl.hpp', 'include/stream/byte_order.hpp']
WR = ['include/cast/stream_cast_impl.hpp', 'include/field_write/field_writer.hpp', 'include/field_write/write_impl.hpp', 'include/field_write/derived_value.hpp']
p('C01', 'A read yields exactly the wire\'s values and consumes exactly the message',
  'Reading a valid message, in either byte order and from any kind of stream, succeeds and yields for every field the value the bytes spell under the schema, however the bytes arrive (all at once, in fragments, or several messages back to back). The read consumes exactly the bytes of that message: it never asks the stream for a byte beyond it and never leaves one of its bytes behind, so the next read starts at the next message.',
  ['inputs', 'schedules', 'configurations'], 'every schema in the supported grammar, every valid message, both byte orders, every stream kind, every fragmentation and delivery schedule, any number of messages on one stream',
  'The tests read single fixed messages from in-memory buffers; they never put two messages on one stream, never let bytes arrive late, and cover a handful of values per field kind.',
  RD, [('struct_cast_impl folds read_field over the fields in declaration order', RD[0]), ('read_impl / read_native_impl / read_foreign_impl', RD[2])],
  'Seeded runs over 100 hand-written and 12 fixed random schemas against an independent reference decoder; peers that answer in lockstep turn any over-read into a stall the simulator sees.')
p('C02', 'A stream that ends or fails mid-message gives an honest failed read',
  'If the stream ends or fails before the last byte a message needs, the read fails with the buffer-exhaustion reason naming the top-level field that could not be filled, and delivers no value. It does not touch the stream again after the failure, leaves it in the state the failure put it in for the caller to see, and a later read of the same bytes from a healthy stream succeeds unaffected.',
  ['fault_sequences', 'crash_points', 'inputs'], 'every valid message, every byte position at which the stream can fail or end, every stream kind, both byte orders, repeated failures followed by recovery',
  'The tests truncate a few buffers at a few places; the failure position ranges over every byte of every message, including inside elements of nested records and optional or union parts.',
  RD, [('short-circuiting fold over fields', RD[0]), ('every stream read is followed by a check of the stream', RD[2])],
  'Failure injected at leaf boundaries, around them and at random bytes; the verdict comes from the reference decoder on the bytes that were really available.')
p('C03', 'A successful write emits exactly the encoding of the struct',
  'Writing a struct whose parts agree succeeds and puts on the stream exactly the bytes the schema prescribes for its current values, in the chosen byte order and at the declared widths, and nothing more. The struct written is left unchanged, and writing it again gives the same bytes.',
  ['inputs', 'configurations', 'schedules'], 'every schema, every writable struct, both byte orders, every stream kind, peers that drain slowly',
  'The tests write a few hand-made structs per field kind and compare a few bytes.',
  WR, [('stream_cast_impl folds write_field over the fields', WR[0]), ('write_impl', WR[2])],
  'Structs from the value generator and from decoded messages, judged against an independent reference encoder.')
p('C04', 'A write the stream refuses is reported and leaves a true prefix',
  'If the stream refuses a byte of the encoding, the write fails with the buffer-exhaustion reason naming the top-level field it was writing, never reports success, makes no further attempt on that stream and leaves it in the state the refusal put it in. What the stream accepted is a prefix of the encoding that holds every field already finished; the struct is unchanged and writes whole to a healthy stream afterwards.',
  ['fault_sequences', 'crash_points', 'inputs'], 'every writable struct, every byte position at which the sink can refuse, sinks that take part of a refused write, repeated refusals followed by recovery',
  'The tests have a couple of fixed-capacity sinks; the refusal position ranges over every byte of every encoding.',
  WR, [('every stream write is followed by a check of the stream', WR[2]), ('short-circuiting fold', WR[0])],
  'Refusals at leaf boundaries, around them and at random bytes, with partial acceptance.')
p('C05', 'A rejected write emits only the fields before the rejected one',
  'A struct that may not be written (a constraint is broken, or parts that must agree do not) is rejected, and what has reached the stream then is exactly the encoding of the fields before the offending one: no byte of the offending scalar, container or string is emitted. Once the struct is repaired the same write succeeds.',
  ['inputs', 'histories', 'fault_sequences'], 'every struct and every way of making it unwritable by edits, combined with sink faults, followed by repair',
  'The tests check that some bad structs are rejected; few look at the bytes already emitted, and none combine rejections with sink faults or with later fields being wrong too.',
  WR, [('validation before the bytes of a field go out', WR[0]), ('checks precede write_impl', WR[1])],
  'Structs edited into inconsistency at random; the prefix is compared with the reference encoding and then read back.')
p('C06', 'What is written reads back the same, and what is read writes back the same',
  'Any struct that can be written, its values within their declared widths, reads back from exactly the bytes written with every field equal; any message that reads writes back to the very same bytes in its byte order. This survives any chain of write and read hops that change byte order, stream kind and delivery, with failed attempts in between.',
  ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every schema, value and message, any chain of hops with failed attempts, provided containers are within the reader\'s ceilings',
  'The tests round-trip single fixed values in one byte order; equality over all values and over transcoding chains is a statement about pairs of runs.',
  RD + WR, [('read_impl and write_impl are inverse under byte order and width', 'include/stream/byte_order.hpp')],
  'The oracle is the library against itself and against the original bytes, independent of the reference model.')
p('C07', 'Lengths and discriminants on the wire always follow the data',
  'Whatever sequence of assignments, edits, copies, moves, reads and earlier writes a struct went through, a write puts on the wire the length of the container and the discriminant of the alternative the struct holds at that moment, never a stale or defaulted one. If parts sharing one length or discriminant disagree, or the value does not fit the declared width or breaks its constraint, the write is rejected at that field.',
  ['histories', 'inputs', 'configurations'], 'every history of edits, copies, reads and writes of a struct with derived fields; every container size including those on either side of the declared width',
  'The tests derive a handful of lengths from freshly made structs; staleness shows only over histories.',
  ['include/field_write/derived_value.hpp', 'include/field_write/field_writer.hpp', 'include/field_list/field_list.hpp'],
  [('derive_value computes lengths and discriminants at write time', 'include/field_write/derived_value.hpp'), ('derived fields have no mutable accessor', 'include/field_list/field_list.hpp')],
  'Live structs edited field by field and written after every step against the reference encoder.')
p('C08', 'Dependencies that cannot be derived are verified on every write',
  'Where the wire relation cannot be inverted (a computed size, an optional\'s presence condition, an alternative chosen by computation or by a ladder of conditions, a length whose container is itself optional or inside a union), a write succeeds only if the struct\'s parts agree under that relation, evaluated on the values that go on the wire. Otherwise it is rejected, at the field and with the reason the relation calls for, so that no accepted write produces bytes the same schema reads differently.',
  ['histories', 'inputs'], 'every schema with such relations, every combination of agreeing and disagreeing parts, over edit histories',
  'The tests hold a few mismatched pairs; the relation ranges over all values of several fields.',
  ['include/field_write/field_writer.hpp', 'include/field_write/derived_value.hpp', 'include/field_compute/computation_from_fields_impl.hpp', 'include/type_deduction/type/type_impl.hpp'],
  [('verification of computed sizes, presence and selection before writing', 'include/field_write/field_writer.hpp')],
  'Edit histories around agreement, judged by the reference encoder, which evaluates the relations itself.')
p('C09', 'No wire length can allocate beyond the ceiling',
  'A length taken or computed from the wire whose container would occupy more than the field\'s ceiling (its own or the default, inclusive, in bytes of memory, immune to overflow) fails the read with the excessive-length reason at that field, before anything is allocated for it and before any of its bytes are read. No allocation made for a container passes its ceiling (save the few bytes std::string keeps for itself), a length within the ceiling is never refused, and a refused one leaves later reads unaffected.',
  ['inputs', 'configurations'], 'every length from 0 to the largest the slot can spell, every element type, ceilings declared and defaulted, containers plain, nested, optional and in unions',
  'The tests pick a few lengths for a few fields and cannot see allocations.',
  ['include/field_read/field_reader.hpp', 'include/field_read/read_impl.hpp', 'include/field_size/field_size.hpp'],
  [('checked_byte_count before resize', 'include/field_read/read_impl.hpp')],
  'The simulator owns operator new and records the largest single allocation of every read; three builds with different default ceilings.', ['operator new'])
p('C10', 'Constraints hold on everything read and everything written',
  'A value that breaks its field\'s constraint is never delivered by a read and never emitted by a write: the cast fails with the validation reason at that field, right after the field was read and before any byte of it is written. A value that satisfies its constraint is never rejected for it, and fields fixed by an equality constraint (magic numbers and strings) always go out with their fixed value whatever the struct held.',
  ['inputs', 'configurations'], 'every constraint kind and composition on every field kind, values on and around every edge, both directions',
  'The tests try a value on each side for some constraints; edges multiply with field kinds, widths, signedness and nesting.',
  ['include/field_validation/field_value_constraints.hpp', 'include/cast/struct_cast_impl.hpp', 'include/cast/stream_cast_impl.hpp', 'include/field_write/derived_value.hpp'],
  [('constraint_checker after each read and before each write', 'include/cast/struct_cast_impl.hpp'), ('frozen fields', 'include/field_write/derived_value.hpp')],
  'Values biased to the literals in the constraints and their neighbours.')
p('C11', 'Optional and union parts are exactly what the fields before them say',
  'On a read an optional part is present exactly when its condition holds on the fields parsed before it, and a union holds exactly the alternative its discriminant, computed selector or first matching condition selects; no byte is consumed for an absent part. A discriminant or selector no alternative answers to fails the read with the type-deduction reason at the union, whatever was read before on this or any other stream.',
  ['inputs', 'histories'], 'every combination of flags, discriminants and selectors, declared and undeclared, over sequences of messages',
  'The tests try one or two values per union or optional; combinations across several of them in one schema multiply.',
  ['include/field_read/field_reader.hpp', 'include/type_deduction/type/type_impl.hpp', 'include/type_deduction/switch/switch_impl.hpp', 'include/type_deduction/if_else_ladder/ladder_impl.hpp', 'include/field_compute/computation_from_fields_impl.hpp'],
  [('type deduction from parsed fields', 'include/type_deduction/type/type_impl.hpp'), ('presence check', 'include/field_read/field_reader.hpp')],
  'Messages with declared and undeclared selectors, several in a row, judged by the reference decoder.')
p('C12', 'Concurrent and re-entrant casts do not affect one another',
  'Casts running at the same time on different streams, or started from inside a stream callback or a user-supplied condition of another cast, each give exactly the result and bytes they give when run alone. Any number of writers may write one shared unmodified struct at the same time.',
  ['schedules', 'histories'], 'every interleaving of two to four tasks at basic-block granularity, every point of re-entry, shared and separate structs and schemas',
  'The test suite is single-threaded and never re-enters the library.',
  RD + WR, [('no mutable static state; every cast works on its own locals', 'include/cast/struct_cast_impl.hpp')],
  'Tasks are real threads passed one baton; the seeded scheduler preempts between basic blocks of library code (compiler instrumentation), blocks tasks in their streams and re-enters from callbacks.')
p('C13', 'A record log written through the library recovers after any crash',
  'If records are appended to a log one after another and the machine stops at any byte, reading the surviving bytes recovers exactly the records that survived whole, in order and equal, and reports the torn tail as a buffer-exhaustion failure, never as a record. Every record acknowledged and synced before the crash is among them, through any number of crashes, full-disk refusals and re-openings.',
  ['crash_points', 'fault_sequences', 'histories'], 'every schema, record sequence, sync pattern, torn-tail length, disk-full point and number of restarts',
  'No test writes more than one record to a medium or loses part of one.',
  RD + WR, [('records are self-delimiting: reads consume exactly what writes produced', 'include/cast/struct_cast_impl.hpp')],
  'Simulated disk with a volatile cache; crash keeps an arbitrary prefix of the unsynced tail.')
p('C14', 'Hostile or damaged input is handled safely and judged correctly',
  'Whatever bytes arrive (damaged, truncated, spliced, repeated, reordered or random), a read ends in bounded work with a value or an error, touches no memory outside its own objects, raises nothing, and reaches the verdict the schema prescribes for those bytes. Whatever it accepts it can also write back, byte for byte.',
  ['inputs', 'fault_sequences'], 'every byte string offered to every schema, in either byte order, over every stream kind',
  'The tests hold a few malformed buffers.',
  RD + ['include/type_deduction/switch/switch_impl.hpp'], [('bounds, constraints and stream checks on the read path', 'include/field_read/field_reader.hpp')],
  'Library code is built with AddressSanitizer, pattern-initialised locals and a basic-block budget.', ['result of struct_cast', 'AddressSanitizer', 'basic-block counter'])
p('C15', 'Every failure names the right reason and the right top-level field',
  'Each failed read or write reports one of the five documented reasons, and it is the one that describes what went wrong; the field it names is the top-level field of the caller\'s schema in which it went wrong, however deep inside nested records, containers, optionals or unions. The first failing field in schema order is the one reported, and the name stays valid after the cast.',
  ['inputs', 'fault_sequences'], 'every failing read and write of every schema, including several things wrong at once',
  'The tests check reason and field for a few failures; nesting and coinciding failures multiply.',
  ['include/error/cast_error.hpp', 'include/cast/struct_cast_impl.hpp', 'include/cast/stream_cast_impl.hpp', 'include/field_read/field_reader.hpp', 'include/field_write/field_writer.hpp'],
  [('error mapping in the two folds', 'include/cast/struct_cast_impl.hpp')],
  'Failing casts of every kind with stack and heap scrubbed before the name is read.', ['cast_error'])
p('C16', 'The kind of stream does not change the result',
  'The same bytes, ending or failing at the same place, give the same value, the same error and the same number of bytes consumed over every kind of stream the library accepts (standard iostreams, caller-defined streams, statically sized ones); the same struct gives the same bytes and the same outcome over every kind of sink.',
  ['configurations', 'inputs', 'fault_sequences'], 'every schema, message, struct and fault position, compared across stream kinds',
  'Each test uses one stream kind; agreement is a statement about several runs.',
  ['include/stream/stream_traits.hpp', 'include/lib/memory/address_manip.hpp', 'include/field_read/read_impl.hpp', 'include/field_write/write_impl.hpp'],
  [('stream concepts and the byte-access layer', 'include/stream/stream_traits.hpp')],
  'Differential: the oracle is the other stream kinds.')
p('C17', 'An exception passes through unchanged and leaves nothing behind',
  'If the stream, the allocator or a user-supplied condition, size or constraint throws during a cast, that very exception reaches the caller; nothing is swallowed or turned into an error value, nothing leaks, and the stream is not used again. What a write had already emitted is a prefix of the encoding, the struct is unchanged, and the next cast behaves as if the failed one had never happened.',
  ['fault_sequences', 'crash_points', 'inputs'], 'every throwing point: each stream operation, each allocation, each call of a user-supplied callable, in every schema, both directions',
  'No test throws from a stream, an allocator or a callable.',
  RD + WR, [('no catch handlers; RAII everywhere', 'include/cast/struct_cast_impl.hpp')],
  'Exceptions injected at the n-th stream byte, allocation or callable call; live allocations are counted.', ['exception seen by the caller', 'operator new/delete', 'bytes in the sink'])

NA = [
 dict(id='C18', title='Misuse of the schema language is rejected at compile time',
      statement='A schema or an access that breaks the rules of the language (unknown or duplicate field names, lengths or discriminants that are not integers declared earlier, assignment to derived or fixed fields, ceilings on fixed-size fields, non-exhaustive or duplicate match cases) does not compile.',
      quantifier=dict(over=['programs'], text='every ill-formed program'), why_tests_cant='The tests hold a list of programs that must not compile; the set of programs is unbounded.',
      anchors=dict(files=['include/api/field_descriptors.hpp', 'include/api/struct_field_list.hpp', 'include/field_list/field_list.hpp'], mechanism=[dict(name='concepts and static_asserts', where='include/api/struct_field_list.hpp')]),
      _reason='Decided entirely by the compiler: there is no execution, schedule, clock, I/O or fault for a simulator to control. (That valid schemas keep compiling is checked as a by-product by every check here.)'),
 dict(id='C19', title='A cast evaluated at compile time gives the run-time result',
      statement='Where the stream and the values allow constant evaluation, reading or writing during constant evaluation gives the same value, bytes and errors as at run time.',
      quantifier=dict(over=['programs', 'inputs'], text='every constant-evaluable schema, message and struct'), why_tests_cant='The tests evaluate a few static_asserts.',
      anchors=dict(files=['include/stream/stream_traits.hpp', 'include/lib/memory/address_manip.hpp', 'include/stream/byte_order.hpp'], mechanism=[dict(name='constexpr branches of the byte-access layer', where='include/lib/memory/address_manip.hpp')]),
      _reason='Constant evaluation happens inside the compiler, where there is no nondeterminism to control and no fault to inject; each input costs a compilation, so seeded search over runs does not apply.'),
 dict(id='C20', title='No interpretation at run time',
      statement='The parser is straight-line code generated from the schema: no run-time dispatch over the field list and no allocation beyond the containers the message calls for.',
      quantifier=dict(over=['programs'], text='every schema and optimisation level'), why_tests_cant='It is a statement about generated code.',
      anchors=dict(files=['include/cast/struct_cast_impl.hpp'], mechanism=[dict(name='fold expressions over the field pack', where='include/cast/struct_cast_impl.hpp')]),
      _reason='A statement about generated code and cost, not about observable behaviour under schedules or faults.'),
]


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P + NA:
            f.write(json.dumps({k: v for k, v in x.items() if not k.startswith('_')}) + '\n')
    for x in P + NA:
        assert len(x['title']) <= 80, x['title']
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[dict(property=x['id'], reason=x['_reason']) for x in NA],
             notes='No hooks in /repo: the stream parameter, operator new/delete, user callables and compiler instrumentation of the schema translation units are the seams. Each check builds its own runner from /repo/include (and single_header when it differs from a fresh amalgam).')
    for x in P:
        m['checks'].append(dict(property=x['id'], quick_cmd='python3 check.py ' + x['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + x['id'],
                                technique='deterministic simulation with fault injection', level='exploration',
                                level_note=x['_note'] + ' Assurance is that of a seeded search over ' + x['quantifier']['text'] +
                                '; it trusts the reference model in sim/model.cpp, the compiler and libstdc++.'))
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
