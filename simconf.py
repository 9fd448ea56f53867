"""Per property settings and evidence texts used by run_check.py and tools/mkmanifest.py."""
import os
_P = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim', 'props')
CLAIMED = sorted(f[:-4].upper() for f in os.listdir(_P) if f.startswith('c') and f.endswith('.cpp'))

# runs per check: (fast build, sanitized build)
VARIANTS = {'C08': ('fast', 'tsan', 'asan')}
QUICK = {'C08': (60000, 4000, 1000), 'C25': (60000, 3000)}
THOROUGH = {'C08': (400000, 40000, 10000), 'C25': (400000, 20000)}
LEVEL = {}

_G = 'One run = one plan generated from (VERIF_SEED, property, run index) and executed in a forked child of a pristine process; '
RULE = {
 'C01': _G + 'a plan is a set of declared names, a text of generated lines and one or two delivery scripts (chunk sizes, stalls). Non-trivial: at least one declared option and more than three characters.',
 'C02': _G + 'a plan is a set of declared names, file bytes and an I/O script (open/read errors at a given call or offset, EINTR, short reads, directory, missing file, wide mode). Non-trivial: the file was non-empty or a fault was planned.',
 'C03': _G + 'a plan is a set of declared names, a text, a delivery script and a failure (kind, character position, exception mask). Non-trivial: the failure was reached.',
 'C04': _G + 'a plan is an option table with value kinds and attributes and a history of stores from command line, configuration, environment and hand-made sources into up to four maps. Non-trivial: at least two stores.',
 'C05': _G + 'a plan is an option table and a history of stores in which at least one is made to fail (bad value, superfluous or repeated value, throwing validator at the k-th call, failing allocation) and later stores, notifications, lookups. Non-trivial: a store failed part way.',
 'C06': _G + 'a plan is an option table with required options, notifiers and targets and a history of stores and notifications with notifiers throwing at the k-th call. Non-trivial: a notification ran.',
 'C07': _G + 'a plan is a history of environment blocks (absent, cleared, malformed, duplicates) and parses with prefix or mapping function that may throw at the k-th call. Non-trivial: the block had an entry or was absent.',
 'C08': _G + 'a plan is shared objects, 2-6 thread programs and a switch script (quantum in basic blocks, next thread). Non-trivial: at least one switch happened while an operation was in progress.',
 'C09': _G + 'a plan is a scenario (build, copy, parse, store, lookup, print) and an allocation fault (k-th, from the k-th on, above a size). Non-trivial: an allocation was made to fail.',
 'C10': _G + 'a plan is a nested option table and an output device script (buffer size, partial writes, failure at a byte, kind, exception mask). Non-trivial: the help text was not empty and the device was scripted.',
 'C11': _G + 'a plan is texts, a local encoding, a per-call step script of its converter, an optional conversion error and locale changes. Non-trivial: a conversion ran with a restricted step or an error.',
 'C12': _G + 'a plan provokes errors of one kind with hostile names, tokens and values, and reads their messages with and without allocation failures. Non-trivial: an error was raised and its message read.',
 'C13': _G + 'a plan is a history of stores, links, copies, assignments, clears, notifications and lookups on up to four maps. Non-trivial: at least one link, copy or clear and a store.',
 'C14': _G + 'a plan is an option table, token lists and hook behaviour, with hooks throwing at the k-th call, parsed repeatedly next to other parses. Non-trivial: a hook was called or a parse was aborted.',
 'C15': _G + 'a plan is a history of stores in which each source object is destroyed at a seeded point afterwards and its memory overwritten. Non-trivial: something was destroyed before a later use of the map.',
 'C18': _G + 'a plan is a history of additions, groups, copies, lookups, parses and prints on four tables, some running out of memory. Non-trivial: at least two options and a lookup, parse or print.',
 'C19': _G + 'a plan is a command line made of pieces of known meaning and owner, an order of modules which parse what the ones before left, and attempts that fail (memory, throwing hook). Non-trivial: at least two stages and a non-empty line.',
 'C20': _G + 'a plan is a history of additions, copies and assignments on three positional descriptions, some running out of memory, and of lines parsed with them, with hooks that recognise, swallow, insert and throw. Non-trivial: two lines or one non-empty line.',
 'C25': _G + 'a plan is shared objects and a tree of operations, each called from the n-th callback of its parent, with callbacks that throw and nested operations that run out of memory. Non-trivial: at least one nested operation ran.',
 'C16': _G + 'a plan is one hostile or growing input, or a degenerate hook, device or table, and possibly an injected failure; work is measured in basic blocks and bytes. Non-trivial: the library was called at least once.',
}
STUB = {
 'C01': ['the stream buffer (scripted delivery); the stream object itself is libstdc++'],
 'C02': ['open/read/close system calls on the scripted file (interposed, backed by memfd); std::basic_filebuf is libstdc++', 'codecvt facets of the C locale or UTF-8 in wide mode are libstdc++'],
 'C03': ['the stream buffer (scripted delivery and failure)'],
 'C04': ['process environment block (scripted)', 'user validators and notifiers (scripted)'],
 'C05': ['operator new (counts, fails on script)', 'user validators (scripted)', 'process environment block (scripted)'],
 'C06': ['user notifiers (scripted)', 'process environment block (scripted)'],
 'C07': ['process environment block (scripted)', 'name mapping function (scripted)'],
 'C08': ['thread scheduler (real threads, released one at a time by the seeded scheduler at every basic block; mutexes, once and static guards of the library code interposed)'],
 'C09': ['operator new (counts, fails on script)'],
 'C10': ['the output stream buffer (scripted)'],
 'C11': ['the codecvt facet of the global locale (scripted)', 'the stream buffer of wide parses'],
 'C12': ['operator new (counts, fails on script)', 'process environment block (scripted)', 'user validators (scripted)'],
 'C13': ['process environment block (scripted)'],
 'C14': ['user parser hooks, validators and notifiers (scripted)', 'process environment block (scripted)'],
 'C15': ['process environment block (scripted)', 'freed memory is overwritten in the fast build and poisoned in the sanitized one'],
 'C18': ['operator new (counts, fails on script)'],
 'C19': ['operator new (counts, fails on script)', 'user parser hooks (scripted)'],
 'C20': ['operator new (counts, fails on script)', 'user parser hooks (scripted)'],
 'C25': ['every callback of the library (stream buffers, hooks, mappers, validators, value semantics, notifiers, converters, maps): scripted', 'process environment block (scripted)', 'operator new (counts, fails on script)'],
 'C16': ['operator new (counts, fails on script)', 'stream buffers, file system calls and hooks (scripted)'],
}
REAL = {'*': ['all of /repo/src (except the Windows-only winmain.cpp) and the templates in /repo/include, compiled from the working tree', 'libstdc++ iostreams, strings and containers', 'Boost headers']}
ASSUME = {'*': ['exploration is by seeded search, not exhaustive', 'libstdc++ and the other Boost headers behave as documented', 'the library is compiled with clang at -O1 (plus a sanitized build of the same sources)']}

NOTE = {
 'C01': 'Seeded search over texts and delivery scripts against an executable model of the file format; every run is checked under two to four deliveries.',
 'C02': 'Fault points are seeded (call index, offset, kind), not enumerated. One known finding: bytes at the end of a wide file that do not decode are taken as end of file by the C++ library.',
 'C03': 'Failure position and kind are seeded over every character position; the model gives the only allowed settings.',
 'C04': 'Histories are checked against a reference model of merging; options, values and orders are seeded.',
 'C05': 'Failure points are seeded over values, validator calls and allocations; the model allows the outcomes the statement lists and nothing else.',
 'C06': 'Delivery counts are checked against the model after every notification, including aborted ones.',
 'C07': 'Blocks and mapping functions are seeded; the environment block is compared byte for byte before and after.',
 'C08': 'Real threads under a seeded scheduler that can switch at every basic block of library code; results are compared with the same operations run alone. Data races that no basic-block interleaving shows are out of reach.',
 'C09': 'Allocation faults at seeded k-th, from k-th and size thresholds; outcomes limited to the normal result or a reported failure, plus recovery and leak checks.',
 'C10': 'Device scripts are seeded over buffer sizes, failure positions and kinds; the full text of the same object is the reference.',
 'C11': 'Converter step scripts are seeded; stateless encodings and one with shift states; locale changes are seeded too.',
 'C12': 'Every public error type is provoked with hostile text; what() is read with and without failing allocations.',
 'C13': 'Histories over up to four maps are compared with a reference model after every operation.',
 'C14': 'Hook and target call counters are checked around every parse; repeated parses must agree.',
 'C15': 'Sources are destroyed at seeded points and their memory overwritten; the sanitized build reports every use of dead memory.',
 'C18': 'Histories of tables and lookups are seeded; a model of the table and of the matching rules, and tables built anew from it, are the reference.',
 'C19': 'Lines, orders of modules and failing attempts are seeded; a model of each stage says what it finds and leaves.',
 'C20': 'Histories of positional descriptions, lines, hooks and failing attempts are seeded; a model says which name each argument gets and what is stored.',
 'C25': 'Nesting trees, callback positions and faults are seeded; every operation is compared with itself alone in a pristine process.',
 'C16': 'Bounded liveness: a logical clock (basic blocks) and a memory meter with limits given by input sizes; limits are generous, so only growth that is out of proportion is reported.',
}
NA = {
 'C17': 'pure function of one token list and style: no schedule, clock, fault or history for a simulator to control; the parts with user hooks and repeated parses are C14, bounded work is C16',
 'C21': 'layout is a pure function of one table: nothing nondeterministic to simulate; delivery to failing devices and completeness is C10',
 'C22': 'pure function of one string: nothing nondeterministic to simulate; bounded work on hostile strings is C16, memory faults C09',
 'C23': 'pure function of one string and type (mostly lexical_cast): nothing nondeterministic to simulate',
 'C24': 'pure function of one code point sequence; what depends on how conversion is stepped and on failures is C11',
}
