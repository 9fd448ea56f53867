#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))
I='include/boost/program_options/'
p('C01','Configuration text means the same however its characters are delivered',
  "Parsing a configuration stream, narrow or wide, yields exactly the sequence of settings the text denotes, in order, each with its section-qualified name, its blank- and comment-stripped value and its registered/unregistered status, whatever chunk sizes, stalls or interrupted and short reads the source uses to deliver the characters. If some line is malformed or names an option that is neither declared nor covered by a declared wildcard (and unregistered options were not allowed), the first such line is reported as an error that names it. A wide stream gives the same settings as a narrow stream carrying the same text in UTF-8.",
  ['schedules','inputs','fault_sequences'],
  'all configuration texts, declared option sets (plain, dotted, wildcard), narrow and wide, and all ways a stream buffer can legally deliver the characters',
  'parsers_test.cpp parses a handful of fixed texts from a std::stringstream, which hands over everything at once; no test uses a buffer that refills at awkward places (inside a CRLF, a multibyte character, a comment) or a text of more than 11 lines.',
  ['src/config_file.cpp','src/parsers.cpp',I+'detail/config_file.hpp',I+'eof_iterator.hpp','src/convert.cpp'],
  [('line-wise reader with section prefix, comment and blank stripping','src/config_file.cpp common_config_file_iterator::get'),('wildcard lookup','src/config_file.cpp allowed_option/add_option'),('line source','detail/config_file.hpp basic_config_file_iterator::getline')],
  [('section prefix','current section name with trailing dot','common_config_file_iterator::m_prefix'),('stream','the only source of characters','basic_config_file_iterator::is')],
  ['parse_config_file(basic_istream<char>&), parse_config_file(basic_istream<wchar_t>&)'])
p('C02','A configuration file that cannot be read in full is never accepted',
  "Parsing a configuration file by name either returns all the settings of the whole file or throws: if the file cannot be opened, or any read of it fails before its end has been reached (device error, stale handle, a directory, undecodable characters in wide mode), the call never returns normally with a part of the settings. A failure to open or read is reported as the file-reading error naming the file, unless an earlier complete line was itself in error. Short and interrupted reads are not failures, and the file is closed again on every path.",
  ['crash_points','fault_sequences','inputs'],
  'all file contents, and every system call of the open/read/close sequence failing with any errno, returning short or being interrupted, at any offset',
  'exception_txt_test.cpp only opens one file name that does not exist; no test makes a read fail, come up short or be interrupted, and none looks at open descriptors.',
  ['src/parsers.cpp','src/config_file.cpp',I+'errors.hpp'],
  [('open check and bad() check around the stream overload','src/parsers.cpp parse_config_file(const char*)')],
  [('file stream','local stream whose state records a failed read','parse_config_file(const char*) strm')],
  ['parse_config_file<char>(filename,...), parse_config_file<wchar_t>(filename,...), reading_file::what()'])
p('C03','A failing stream yields only whole settings received before the failure',
  "If a configuration stream stops with an error in the middle (its buffer throws or its state turns bad), the settings returned are exactly those of the lines received in full before the failure: never a setting cut short, merged, duplicated or invented; and the failure stays visible to the caller, in the stream's state or as the exception the stream was configured to throw. After an ordinary end of input the last line counts even without a line terminator, and the same parser call on a healthy stream afterwards is unaffected.",
  ['crash_points','fault_sequences','inputs'],
  'all texts, failure positions (every character), failure kinds (throwing buffer, bad state, stream exceptions on) and chunkings, narrow and wide, with a healthy parse afterwards',
  'No test feeds the parser a stream that fails; the only error tests are syntactic.',
  ['src/config_file.cpp','src/parsers.cpp',I+'detail/config_file.hpp',I+'eof_iterator.hpp'],
  [('getline result decides whether a line exists','detail/config_file.hpp basic_config_file_iterator::getline'),('end-of-input flag','eof_iterator.hpp found_eof')],
  [('at-end flag','no further element','eof_iterator::m_at_eof')],
  ['parse_config_file(stream), stream.rdstate()'])
p('C04','Sources merge: first explicit value wins, lists compose, defaults yield',
  "After any sequence of stores from command line, environment and configuration sources into one variables map, each option holds the explicit value of the first source that gave one; composing options hold the concatenation of the values of all sources in store order; an option no source gave holds its declared default, marked as defaulted, or is absent; and an explicit value always replaces a default, even one stored earlier. Within one source repeated list options accumulate in order while repeating a scalar option, giving an unconvertible or superfluous value, or omitting a needed one is reported as an error. Unregistered and unnamed positional items never enter the map.",
  ['histories','inputs','configurations'],
  'all option tables (types, defaults, implicit values, composing, required, groups), all sequences of sources and store calls, narrow and wide',
  'variable_map_test.cpp checks a few two-source sequences with fixed options; the space of orders, types, defaults and repetitions is not sampled at all.',
  ['src/variables_map.cpp','src/value_semantic.cpp',I+'detail/value_semantic.hpp',I+'value_semantic.hpp',I+'variables_map.hpp'],
  [('final set and default pass of store','src/variables_map.cpp store'),('validators','detail/value_semantic.hpp validate'),('implicit/default values','value_semantic.hpp typed_value')],
  [('final names','options whose value later sources may not change','variables_map::m_final'),('defaulted flag','value came from a default','variable_value::m_defaulted')],
  ['store, variables_map::count/operator[]/defaulted/as'])
p('C05','A source that fails to store leaves settled values alone and blocks nothing',
  "If storing a source fails part way (a bad value, a throwing user validator, exhausted memory), every option settled by an earlier source and every option the failing source did not mention keeps its value; each option it did mention holds its previous content, or exactly the values that source gave for it so far, or nothing, never a foreign or partly converted value. A later source can still supply every option left without a value and composing options continue from what they hold; lookup, notification and clearing keep working; and the failure reaches the caller as the original error.",
  ['fault_sequences','histories','crash_points'],
  'all sequences of stores with a failure injected at any option of any store, by bad input, by a user validator throwing at its k-th call, or by any allocation failing',
  'The tests stop at the first exception: exception_test.cpp checks the type thrown, never the map left behind or a store that follows.',
  ['src/variables_map.cpp',I+'detail/value_semantic.hpp','src/value_semantic.cpp'],
  [('options become final only after the whole source was stored','src/variables_map.cpp store'),('validators assign in one step','detail/value_semantic.hpp validate')],
  [('new_final','names to become final when the store succeeds','store')],
  ['variables_map content after a throwing store, later stores, notify'])
p('C06','Notification happens only when complete, and once per value',
  "Notifying a variables map first checks the required options of every source description stored into it: if one has no value, the call fails naming it and no notifier has run and no target variable has been written. Otherwise every option that has a value, explicit or default, gets its final value written to its target variable and passed to its notifier exactly once in that call, and options without a value get nothing. If a notifier throws, its exception reaches the caller unchanged, no notifier has run twice, the map is unchanged and notifying again delivers everything again.",
  ['histories','fault_sequences'],
  'all option tables and store histories, notifiers that throw at any call, repeated notify, stores between notifies, allocation failures during notify',
  'required_test.cpp and variable_map_test.cpp check two fixed required options; no notifier ever throws and nothing checks that no side effect preceded a missing-option error.',
  ['src/variables_map.cpp',I+'detail/value_semantic.hpp'],
  [('required check before notify loop','src/variables_map.cpp variables_map::notify'),('per-value notify','detail/value_semantic.hpp typed_value::notify'),('required names gathered by store','src/variables_map.cpp store')],
  [('required names','required option -> display name','variables_map::m_required')],
  ['notify(vm), notifier callbacks, store_to targets'])
p('C07','The environment is read variable by variable, whatever state it is in',
  "Parsing the environment yields, in environment order, exactly one setting for each variable whose name the mapping turns into a non-empty option name, with the text after the first equals sign as its value, and nothing for any other entry; with a prefix, exactly the variables starting with it are taken, with the rest of the name in lower case. This holds for every environment block a process can have (empty, cleared, with duplicate, empty-named or malformed entries, changed between calls), an exception thrown by the mapping reaches the caller unchanged, and the environment itself is never modified.",
  ['inputs','histories','fault_sequences'],
  'all environment blocks, including those left by clearenv and execve with malformed strings, all sequences of changes between calls, mappings that throw at any call, allocation failures',
  'parsers_test.cpp sets one variable with putenv and parses with one prefix; the environment block is never hostile and never changes between calls.',
  ['src/parsers.cpp',I+'environment_iterator.hpp',I+'eof_iterator.hpp'],
  [('iteration over environ','environment_iterator.hpp get'),('prefix mapper','src/parsers.cpp prefix_name_mapper')],
  [('environ','process environment','parse_environment')],
  ['parse_environment(desc, mapper), parse_environment(desc, prefix)'])
p('C08','Option tables and results shared by threads never interfere',
  "Any number of threads may at the same time use the same fully built options description, positional description, parsed options and variables map through const operations (parse command lines, streams and the environment, store into their own maps, look values up, print help, copy), each with its own inputs and outputs; under every interleaving each operation returns, throws and prints exactly what it would have alone. Distinct objects used by different threads never influence each other, including on the first use in a process.",
  ['schedules','histories'],
  'all interleavings (preemption at any basic block of library code) of 2 to 4 threads running any mix of operations on shared const objects and private mutable ones, from a cold process',
  'No test starts a thread.',
  ['src/cmdline.cpp','src/options_description.cpp','src/variables_map.cpp','src/value_semantic.cpp','src/convert.cpp','src/config_file.cpp','src/parsers.cpp',I+'detail/value_semantic.hpp'],
  [('no mutable shared state besides function-local constants','src/variables_map.cpp variables_map::get, options_description.cpp long_name, detail/value_semantic.hpp get_single_string'),('const member functions do not cache','options_description.hpp')],
  [('function-local statics','shared empty values','variables_map::get, get_single_string, long_name'),('utf8_facet','shared conversion facet','src/convert.cpp')],
  ['results of every public const operation'])
p('C09','Running out of memory is reported, never turned into a wrong result',
  "If any allocation fails while an option table is being built or copied, a source parsed, a value stored or looked up, or help produced, the call either still delivers exactly its normal result or fails by throwing (or, where it works on a caller's stream, by leaving that stream bad): it never crashes, hangs or delivers names, values, settings or help text that differ from the normal ones. Objects involved stay usable: the same call repeated with memory available gives the normal result, an option table is still consistent for parsing and printing, and nothing stays allocated once the objects are gone.",
  ['fault_sequences','crash_points'],
  'every allocation of every operation failing once, from then on, or above a size, for all generated tables and inputs; recovery afterwards',
  'No test makes an allocation fail.',
  ['src/options_description.cpp','src/cmdline.cpp','src/config_file.cpp','src/variables_map.cpp','src/value_semantic.cpp','src/parsers.cpp',I+'detail/value_semantic.hpp',I+'options_description.hpp'],
  [('RAII ownership throughout','src/*.cpp'),('paired option/group vectors kept in step','src/options_description.cpp options_description::add')],
  [('m_options / belong_to_group','parallel vectors','options_description')],
  ['every public operation under a failing operator new'])
p('C10','Help written to a failing stream is a clean prefix, and printing changes nothing',
  "Printing an options description writes its help text strictly in order: whatever a stream that fails part way (full disk, throwing buffer, partial writes) has accepted is a prefix of the full text, nothing is written after the failure, and the failure stays visible in the stream's state or as the exception the stream was configured to throw. Memory running out while printing never shortens the text silently either. However output is chunked the complete text is the same, every declared option, visible group and caption appears once in declaration order, and printing, completed or aborted, leaves the description unchanged so that a later print or parse gives its normal result.",
  ['fault_sequences','crash_points','configurations'],
  'all descriptions (groups, captions, widths, long texts), failure at every output byte, failure kinds and buffer sizes, failing allocations, repeated and aborted prints',
  'options_description_test.cpp compares a few texts written to a std::stringstream that never fails.',
  ['src/options_description.cpp',I+'options_description.hpp'],
  [('sequential formatted output','src/options_description.cpp print/format_one/format_description/format_paragraph')],
  [('stream state','set by failed output','caller\'s std::ostream')],
  ['operator<<(ostream, options_description), options_description::print'])
p('C11','Character conversion never depends on converter steps and never truncates',
  "Text converted between wide, UTF-8 and the local multibyte encoding (by the conversion functions, by wide parsing, and when storing values into narrow or wide options) equals the conversion of the whole text at once, however little the encoding's converter handles per step and wherever its pieces fall in the text. If any part cannot be converted or the text ends inside a character, the call fails with an exception; a shortened or altered value is never delivered, and a failed conversion does not affect later ones. The encoding used for local text is that of the global locale at the time of the call, even if it changes between calls.",
  ['schedules','fault_sequences','inputs','histories'],
  'all texts, all legal step sizes of a multibyte converter, a converter error at any position, global locale changes between operations',
  'unicode_test.cpp converts a few short strings with one real facet, which always converts as much as fits; step boundaries, converter errors and locale changes are never exercised.',
  ['src/convert.cpp','src/value_semantic.cpp','src/parsers.cpp',I+'detail/convert.hpp',I+'detail/parsers.hpp'],
  [('piecewise conversion loop','src/convert.cpp detail::convert'),('codecvt helper parse','src/value_semantic.cpp value_semantic_codecvt_helper::parse')],
  [('conversion state','fresh per call','src/convert.cpp convert')],
  ['from_8_bit/to_8_bit, from_local_8_bit/to_local_8_bit, from_utf8/to_utf8, wparsed_options, stored values'])
p('C12','Every error the library reports can be read out, always',
  "For every exception the library throws, asking for its message terminates within a bounded number of steps, never throws or ends the program, and gives a non-empty text, whatever characters the offending option, token or value contains and even if memory runs out while the message is built. With memory available the message names the offending option (as given, or by its name in the table, spelled the way it can be given) or token, and the value, where there is one, as given, and contains no unexpanded placeholder of the library's own; copying, rethrowing or asking again, also after an attempt that ran out of memory or while other errors are reported, gives the same message.",
  ['fault_sequences','inputs','histories'],
  'all kinds of library errors, hostile names and values (percent signs, placeholder look-alikes, empty, very long), allocation failure at any point of what(), repeated and copied exceptions',
  'exception_txt_test.cpp compares about fifteen fixed messages for harmless names; what() is never called under memory pressure or for a value that looks like a placeholder.',
  ['src/value_semantic.cpp',I+'errors.hpp','src/cmdline.cpp','src/variables_map.cpp','src/config_file.cpp'],
  [('on-demand message formatting','src/value_semantic.cpp error_with_option_name::what/substitute_placeholders/replace_token'),('context added while the exception passes','errors.hpp add_context')],
  [('message buffer','built on demand','error_with_option_name::m_message')],
  ['std::exception::what() of every thrown error'])
p('C13','Layered lookup, copies and clear behave like independent maps',
  "Looking up a name in a chain of variables maps gives the first explicit value along the chain, else the nearest default, else an empty value, and reflects every store, link change and clear made so far on any map of the chain. A copied or assigned map has the content and settled/required state of its source at that moment and evolves independently afterwards; a cleared map is indistinguishable from a new one for later stores and notifications (its link to the next map aside). Lookups never add entries or change any map.",
  ['histories','fault_sequences'],
  'all histories of store, failed store, lookup, copy, assign, clear, link and notify over up to four maps',
  'variable_map_test.cpp has one fixed chain of three maps; copies and clear followed by further stores are not tested.',
  ['src/variables_map.cpp',I+'variables_map.hpp'],
  [('chained operator[]','src/variables_map.cpp abstract_variables_map::operator[]'),('clear of value, final and required sets','src/variables_map.cpp variables_map::clear')],
  [('next','link to the fallback map','abstract_variables_map::m_next')],
  ['variables_map operator[], count, clear, copy, next'])
p('C14','Parsing has no side effects, and user hooks can abort it safely',
  "Parsing any source consumes only its inputs: it never runs validators, notifiers or default values, never writes target variables and never alters the option tables, so equal inputs give equal results whatever was parsed, aborted or failed before. User parser hooks see the command line's unconsumed tokens in order and what they recognise becomes options exactly as returned, in place, between the built-in results; an exception thrown by a hook at any call reaches the caller unchanged, and a fresh parse of the same command line afterwards gives the full normal result.",
  ['histories','fault_sequences','inputs'],
  'all command lines built from generated option tables with hook-recognised tokens mixed in, a hook throwing at any call, allocation failures, histories of aborted and completed parses on shared tables',
  'cmdline_test.cpp runs two fixed hooks that never fail, and no test parses again after a failure or checks that parsing ran no semantic action.',
  ['src/cmdline.cpp','src/parsers.cpp',I+'detail/cmdline.hpp',I+'detail/parsers.hpp',I+'parsers.hpp'],
  [('style parser list tried in order per token','src/cmdline.cpp cmdline::run'),('additional parser','src/cmdline.cpp handle_additional_parser'),('const option tables','detail/cmdline.hpp m_desc')],
  [('remaining arguments','tokens not yet consumed','cmdline::m_args')],
  ['command_line_parser(...).run(), parse_config_file, parse_environment, user hooks'])
p('C15','Values and notifications outlive the sources that produced them',
  "Once a source has been stored, the variables map needs nothing else: after the parsed options, parsers, input streams, argument arrays and option descriptions (and the groups and copies they were added to) have been destroyed in any order, looking values up, notifying, copying and clearing the map still work and give the same results. Likewise a description stays valid after the group or copy it was built from is gone, and parsed options stay usable for several maps after their input is gone.",
  ['histories','schedules'],
  'all histories interleaving construction, parse, store, copy, destruction of descriptions, parsers, inputs and maps, and later use',
  'In every test all objects live until the end of the function, so a dangling reference cannot show.',
  ['src/variables_map.cpp','src/options_description.cpp','src/parsers.cpp','src/cmdline.cpp',I+'variables_map.hpp'],
  [('shared ownership of value semantics by stored values','variables_map.hpp variable_value::m_value_semantic'),('shared ownership of options and groups','options_description.hpp m_options/groups')],
  [('value semantic','needed to notify','variable_value::m_value_semantic')],
  ['variables_map after its sources are destroyed'])
p('C16','Every call on any input finishes in bounded work',
  "Building tables, parsing any command line, stream, file or environment, storing, notifying and printing finish after a number of steps bounded by the sizes of table and input, for hostile text, degenerate stream delivery, user hooks that consume nothing or everything, and after any injected failure; no input makes the library loop, recurse without bound or amplify memory beyond a fixed multiple of its inputs.",
  ['inputs','fault_sequences','schedules'],
  'hostile and growing inputs to every entry point, one-character delivery, interrupted-read storms, hooks with degenerate behaviour, failing allocations',
  'Tests use tiny benign inputs; non-termination needs an unusual one and nothing measures work.',
  ['src/cmdline.cpp','src/config_file.cpp','src/convert.cpp','src/options_description.cpp','src/value_semantic.cpp','src/split.cpp'],
  [('parse loop always consumes a token','src/cmdline.cpp cmdline::run'),('conversion loop requires progress','src/convert.cpp convert'),('paragraph wrapping advances','src/options_description.cpp format_paragraph')],
  [('step counter','simulated time: library basic blocks executed','simulator')],
  ['all public operations'])
p('C25','Callbacks may use the library while an operation is in progress',
  "Whatever the library calls back into - stream buffers, parser hooks, name mappers, validators, extraction and insertion operators, copies of user values, value semantics and maps of the user's own, notifiers, the local converter - may itself perform complete library operations, on the same fully built descriptions, parsed options and maps through const operations or on objects of its own, to any depth, and may read the map being stored into or notified. Each operation, outer or nested, returns, throws and prints exactly what it would have alone, whether the nested ones succeed, fail or run out of memory and whether the callback throws in the end; nothing shared is changed afterwards and no memory is lost.",
  ['histories','fault_sequences','schedules'],
  'all trees of operations hung on the n-th callback of their parents, any mix of operations, callbacks that throw at any call, nested operations failing at any allocation',
  'No callback in the tests calls the library.',
  ['src/cmdline.cpp','src/options_description.cpp','src/variables_map.cpp','src/value_semantic.cpp','src/convert.cpp','src/config_file.cpp','src/parsers.cpp'],
  [('all working state is local to a call or to the object','src/cmdline.cpp run, src/variables_map.cpp store, src/convert.cpp convert, src/options_description.cpp format_one'),('const member functions do not cache','options_description.hpp')],
  [('working state','results under construction while a callback runs','locals of run, store, convert, parse_environment, format_paragraph')],
  ['results of every public operation, called from every kind of callback'])
# pure functions of their input: no schedule, clock, fault or interleaving
p('C17','Command-line tokens are interpreted according to the selected style',
  "For every style, each token is read as long option, short option or group, slash option, terminator or positional argument exactly as the style documents, with adjacent or following values attached to the right option, and invalid style combinations are rejected.",
  ['inputs','configurations'],'all token lists, styles and option tables','cmdline_test.cpp has about 100 fixed cases of a space exponential in styles and tokens.',
  ['src/cmdline.cpp',I+'cmdline.hpp'],[('style parsers','src/cmdline.cpp parse_*'),('style check','src/cmdline.cpp check_style')],(),['command_line_parser::run'])
p('C18','Names resolve against what a table holds at every point of its history',
  "Tables grow by options and by groups, are copied, looked up in, parsed with and printed in any order, and additions and lookups may run out of memory. At every point a name resolves by what the table holds then: to the option one of whose names it equals (long names, aliases, the short name), else, where guessing is allowed, to the only option it abbreviates, or to the only one whose wildcard it matches. An exact match beats approximate ones; several matches of the better kind are reported as ambiguous with all candidates; otherwise the name is unknown; case is ignored only where asked, by long and short names each by their own rule. The answer is the same as with a table built anew, directly or through the parsers, whatever was looked up before; groups count as they were when they were added, later changes to copies and originals do not matter, and an addition that fails adds nothing.",
  ['histories','fault_sequences','inputs','configurations'],'all histories of up to sixty additions, groups, copies, lookups, parses and prints on four tables, with the k-th allocation of any of them failing',
  'A few fixed tables are looked up in once.',
  ['src/options_description.cpp',I+'options_description.hpp','src/cmdline.cpp','src/config_file.cpp'],
  [('match, key, find and find_nothrow','src/options_description.cpp'),('options and groups are added whole or not at all','src/options_description.cpp add')],
  [('options, flags and groups of a table','three vectors which have to agree','options_description::m_options, belong_to_group, groups')],
  ['options_description::find, find_nothrow, options','operator<<','command_line_parser::run','parse_config_file'])
p('C19','Modules sharing a command line take every token exactly once',
  "Modules may in turn, in any order, parse what the previous ones left over, with unregistered options allowed and the unrecognized tokens collected. Each stage finds exactly its module's own options in order, with their names, values and original tokens, under the abbreviation and case rules of the style; every other token (but the terminator '--', which the first stage takes) is collected exactly once, unchanged and in order, positional ones only if they are asked for. No token is lost, doubled or handed to the wrong module, narrow and wide alike; a stage that fails (memory, a throwing hook) takes nothing, and repeated on the same tokens finds and leaves the same; and what the modules store in the end is what the line gave them.",
  ['histories','schedules','fault_sequences','inputs'],
  'all command lines made of long (adjacent, separate, abbreviated, disguised), short, grouped, multi-token, optional-value and hook-recognised pieces and words of several modules, all orders of modules, failing attempts in between',
  'unrecognized_test.cpp has a handful of fixed lines and one stage.',
  ['src/cmdline.cpp','src/options_description.cpp',I+'detail/parsers.hpp','src/parsers.cpp'],
  [('original tokens kept per option','src/cmdline.cpp parse_*, finish_option'),('collection of unregistered and positional tokens','detail/parsers.hpp collect_unrecognized'),('name matching','src/options_description.cpp option_description::match')],
  [('unparsed tokens','consumed from the front','cmdline::m_args'),('unregistered flag, position key','decide what is collected','basic_option')],
  ['command_line_parser::run, collect_unrecognized, store'])
p('C20','Positional arguments get their names by position',
  "A description of positional arguments says which name each position has; it may be built up, copied and used in between in any order, additions may run out of memory (a failed one adds nothing), and it always counts and names as the additions so far say: the last name for ever if that is unlimited. The n-th positional item of a line, one inserted by a user's parser included, gets the n-th name, however many named options, terminators and words taken as values of options are in between; an item beyond the declared number is an error, also where unregistered options are allowed; and the values arrive under those names in order. Narrow and wide lines read alike, and a parse that failed before (memory, a throwing hook) makes no difference.",
  ['histories','fault_sequences','inputs','configurations'],'all histories of additions, copies and assignments of three descriptions, some failing, and of lines with words, options, lists, optional values, terminators, and items which hooks recognise, swallow or insert','positional_options_test.cpp has two fixed declarations.',
  ['src/positional_options.cpp','src/cmdline.cpp','src/parsers.cpp','src/variables_map.cpp'],[('add, max_total_count and name_for_position','src/positional_options.cpp'),('positional items are counted and named after lists have taken theirs','src/cmdline.cpp run')],[('names and trailing name','position to name','positional_options_description::m_names, m_trailing'),('position key','-1 for named options','basic_option::position_key')],['positional_options_description::add, max_total_count, name_for_position','command_line_parser::positional','store'])
p('C21','Help text layout keeps words and respects the line length',
  "Help output puts names and descriptions in their columns, wraps at blanks where it can, never exceeds the line length by wrapping, honours tab indentation and loses or duplicates no character of a description.",
  ['inputs','configurations'],'all descriptions, widths and texts','options_description_test.cpp compares a few fixed texts.',
  ['src/options_description.cpp'],[('format_paragraph','src/options_description.cpp')],(),['operator<<'])
p('C22','Splitting a command string honours quotes and escapes',
  "Splitting and re-quoting are inverse: a string split with given separators, quotes and escapes yields the tokens a shell-like reading gives, narrow and wide alike.",
  ['inputs'],'all strings and separator/quote/escape sets','split_test.cpp has seven fixed strings.',
  ['src/split.cpp'],[('escaped_list_separator','src/split.cpp')],(),['split_unix'])
p('C23','Textual values convert to typed values exactly',
  "A value string converts to the declared type if and only if the whole string denotes a value of it, giving that value; booleans accept exactly the documented words in any case.",
  ['inputs'],'all strings and types','Fixed examples only.',
  [I+'detail/value_semantic.hpp','src/value_semantic.cpp'],[('validate','detail/value_semantic.hpp, src/value_semantic.cpp')],(),['variable_value::as'])
p('C24','UTF-8 encoding and decoding are inverse on well-formed text',
  "Encoding any sequence of code points to UTF-8 and decoding it gives the sequence back, and decoding rejects malformed leading and continuation bytes.",
  ['inputs'],'all code point sequences and byte strings','test_convert.cpp and unicode_test.cpp use one file and a few strings.',
  ['src/utf8_codecvt_facet.cpp','src/convert.cpp'],[('utf8 facet','boost/detail/utf8_codecvt_facet.ipp')],(),['to_utf8, from_utf8'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
