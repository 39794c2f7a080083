"""Which check decides which property."""
from . import conc, misc, net, seq, wire

MC = 'model_checking'


def entry(run, technique, note, level=MC):
    return {'run': run, 'level': level, 'technique': technique, 'note': note}


CHECKS = {}
SEQ = ('TLA+ specification Hop.tla of all sixteen commands, model checked with TLC; every enumerated step '
       'replayed in the engine; recorded request histories checked by TLC (TraceHop, TraceBulk)')
SEQ_NOTE = ('TLC enumerates every request of a bounded pool on every store of a bounded pool, checks the '
            'step properties and the real engine reproduces each step exactly; beyond the pool, seeded random '
            'histories (boundary integers, floats, UTF-8, types, argument counts) recorded from the engine have to be '
            'behaviours of the specification. ')
for p, n in {
    'K01': 'Results, errors and the full store contents are compared after each request.',
    'K02': 'Integer sums are exact 64-bit arithmetic and float sums exact IEEE-754 addition written in TLA+ '
           '(NaN payloads not distinguished).',
    'K03': 'Append, length, keys and echo, with UTF-8 well-formedness and character counts specified in TLA+.',
    'K04': 'Only refusals are judged: store and response buffer unchanged.',
    'K05': 'Only whether there is an answer is judged; panics, hangs and malformed responses are violations. '
           'Reserved and empty key names and sizes the response format cannot carry are known findings.',
}.items():
    CHECKS[p] = entry(seq.check, SEQ, SEQ_NOTE + n)

CHECKS['K06'] = entry(
    seq.check_k06, 'TLA+ specification Embed.tla of the store used as a library on top of Hop.tla, model checked with TLC; '
    'every enumerated use replayed in the engine; recorded mixes of uses and requests checked by TLC (TraceEmbed)',
    'Every direct use of a bounded pool on every store of a bounded pool, replayed; random histories through several '
    'cloned and dropped handles with requests between. Two settings that have no effect are known findings.')

CONC = ('TLA+ specification Hop.tla with concurrent clients (MCConc.tla, Locks.tla), model checked with TLC; the real '
        'engine run under a deterministic scheduler of its lock operations, every recorded concurrent history '
        'searched by TLC for a linearization of the specification (Lin.tla)')
for p, n in {
    'X01': 'Every interleaving of two to four requests at lock granularity is explored per seeded program; TLC looks '
           'for one order of the specification\'s steps that explains all results and the final contents.',
    'X02': 'As X01 for counters and appends, plus stress runs on real threads whose running sums and appended '
           'elements TLC checks for loss and duplication (TraceOrder.tla).',
    'X03': 'As X01 for renames against every other command, with rename taken in the micro-steps the specification '
           'allows.',
    'X04': 'Locks.tla is fed the lock sections recorded from every command and TLC explores all schedules of them '
           'for deadlock; scheduled and native runs have to finish.',
}.items():
    CHECKS[p] = entry(getattr(conc, 'check_' + p.lower()), CONC, n)
for p, n in {
    'N01': 'Programs of adding, removing and looking at sessions by several threads, under every schedule of their lock '
           'operations and on real threads; TLC looks for an order of the specification\'s atomic steps (fresh id, kept '
           'token, removed once, counters) that explains every answer.',
    'P01': 'Programs of subscribing, unsubscribing, looking up and ending sessions; scheduled, on real threads and as '
           'long walks; TLC looks for a linearization over the relation of sessions and keys.',
    'M01': 'Stats.tla gives which counters each outcome of each request moves; TLC enumerates plans of requests that '
           'the real engine then runs, and checks the counters it reports, alone and under concurrent requests.',
    'M02': 'Metrics.tla: concurrent writers and readers of the counters, including dropping one; LinMet.tla searches '
           'for a linearization.',
}.items():
    CHECKS[p] = entry(getattr(conc, 'check_' + p.lower()), CONC, n)

CHECKS['T01'] = entry(misc.check_t01, 'TLA+ specification Timer.tla, model checked with TLC; recorded uses of the timer '
                      'under a controlled clock checked by TLC (TraceTimer)', 'Every sequence of up to five (thorough: '
                      'six) calls and longer random ones, with a clock the driver sets and with the real one.')

WIRE = ('TLA+ specification of the %s, model checked with TLC; recorded runs of the real code on generated bytes and '
        'chunkings checked by TLC (%s)')
for p, what, mod, n in [
    ('W01', 'request format (Wire.tla)', 'TraceWire',
     'The parser machine agrees with the grammar on every chunking of a bounded pool; the real builder and parser do on every '
     'prefix of seeded requests of all commands, types and argument counts up to 255, and on arguments of up to 1 MiB.'),
    ('W02', 'request format (Wire.tla)', 'TraceWire',
     'Concatenated requests in one context under random chunkings.'),
    ('W03', 'request format (Wire.tla)', 'TraceWire',
     'TLC enumerates all short byte strings over an alphabet, which are replayed in the real parser in one piece and byte by byte; '
     'mutated and random bytes beyond.'),
    ('W04', 'response format (Resp.tla)', 'TraceResp',
     'Values of all types and all errors, at every prefix and under random chunkings, followed by further responses; '
     'values at the widths of the format by their shape.'),
    ('W05', 'response format (Resp.tla)', 'TraceResp',
     'Mutated and random responses, lying lengths and counts, repeated members, text that is not UTF-8.'),
    ('W06', 'builder (Builder.tla)', 'TraceBuilder',
     'Random sequences of additions around the limit of 255, and requests turned back into builders.'),
]:
    CHECKS[p] = entry(getattr(wire, 'check_' + p.lower()), WIRE % (what, mod), n)

SRV = ('TLA+ specification of the server over requests and responses (Hop.tla, Wire.tla, Resp.tla, Server.tla), model checked '
       'with TLC; byte exchanges recorded from a real server checked by TLC (TraceServer)')
for p, n in {
    'S01': 'Streams of requests in one-byte, whole and batched segments on one to three connections, answers awaited before '
           'anything further is sent; pipelining connections at the same time as concurrent histories (Lin.tla).',
    'S02': 'Malformed, half-sent, abruptly ended, half-closed, unread and immediately reset connections between healthy '
           'ones, and more connections than the server can have open files.',
}.items():
    CHECKS[p] = entry(getattr(net, 'check_' + p.lower()), SRV, n)

CHECKS['S03'] = entry(net.check_s03, 'TLA+ specification of the client over the store and the formats (Client.tla, Hop.tla, Resp.tla), '
                      'model checked with TLC; programs run on real clients checked by TLC (TraceClient, TraceFault)',
                      'The same random programs in memory and on a server, which may end half-way, and calls to servers that '
                      'answer anything, in part, or end the connection.')

CHECKS['S04'] = entry(net.check_s04, 'TLA+ specification of overlapping calls (Calls.tla) and of the client\'s way of doing them '
                      '(MCCalls), model checked with TLC; orders enumerated by TLC (CallsPlans) and random ones run on a real '
                      'client, checked by TLC (TraceCalls)',
                      'Calls of one shared client polled, cancelled, read and answered in every order up to a depth, random '
                      'longer ones with big messages, spoilt responses and ended connections, and calls from several threads.')

CHECKS['S05'] = entry(net.check_s05, 'TLA+ specification Listen.tla of where a server listens, model checked with TLC; real servers '
                      'started with all kinds of settings, and the sockets they then listen on checked by TLC (TraceListen)',
                      'Addresses of four and sixteen bytes in all spellings and ports up to and past 65535, near misses and changed '
                      'texts; the listening sockets are read from the kernel and some servers are asked something.')

CHECKS['L01'] = entry(net.check_l01, 'TLA+ specification of command lines and their output over the store and the formats (Cli.tla, '
                      'Hop.tla, Wire.tla), checked with TLC against lines parsed and run by the real thing (TraceCli)',
                      'Random lines of every command with every type, odd names, separators, numbers and texts, parsed; run on '
                      'clients in memory and of a server among calls that fill the store; and typed into the tool.')
