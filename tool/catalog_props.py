"""The properties, in prose."""
INLINE = ('Sound for the analysed flow graphs: every path of the functions named in the evidence, library helpers '
          'inlined, virtual and unknown calls treated as events; trusts clang\'s front end, the standard library and '
          'rapidjson/boost contracts.')


def define(P, N):
    P('C01', 'A throwing handler neither escapes log() nor starves the other handlers',
      '''Whatever the registered handlers throw, a call of log() on a root logger never lets an exception of a handler
      out. Every handler of the logger gets every accepted record exactly once and with the same record the filter saw,
      in registration order, even when handlers before it threw.''',
      ['inputs', 'fault_sequences'], 'every subset of throwing handlers, every exception type, every record and overload of log()',
      '''Tests use one or two mock handlers that throw std exceptions; the guarantee is over every handler list and every
      thrown type, including types not derived from std::exception.''',
      ['src/root.cpp'], [('per-handler try block with catch-all', 'src/root.cpp root_logger_t::consume')],
      'path-sensitive event-flow analysis with exceptional edges', INLINE)
    P('C02', 'Filter decides first: rejected records cost and emit nothing',
      '''On every logging call of a root logger the filter is asked exactly once and before anything else; a rejected
      record reaches no handler and its lazy message is never computed. An accepted record reaches the handlers only
      after it got its timestamp and, for lazy messages, after the message was computed exactly once and stored as the
      record's text; the filter sees the severity, pattern and attributes the caller passed. All handlers see the same text and
      one timestamp.''',
      ['inputs', 'programs'], 'every filter, supplier, severity, message and attribute pack, every overload of log()',
      '''Tests pin single overloads with an accepting or rejecting filter; no test observes order, double evaluation or
      the state of the record at every handler for all overloads.''',
      ['src/root.cpp', 'src/record.cpp'], [('filter gate', 'src/root.cpp root_logger_t::consume'), ('activation', 'src/record.cpp record_t::activate')],
      'path-sensitive typestate analysis of log()', INLINE)
    P('C03', 'Every attribute in scope is attached exactly once, none is lost',
      '''A record carries exactly the attributes of the call, of every wrapper it passed through and of every scope
      active for that logger in the calling thread - each list exactly once - and the filter already sees them. A wrapper
      forwards each call exactly once with severity, message and supplier unchanged.''',
      ['programs', 'inputs'], 'every nesting of wrappers and scopes, every overload of log()',
      '''Tests cover one wrapper or one or two nested scopes and look at the first attribute; the guarantee is over
      arbitrary nesting depth and all overloads.''',
      ['src/wrapper.cpp', 'src/root.cpp', 'src/scope/watcher.cpp', 'src/scope/holder.cpp'],
      [('wrapper forwarding', 'src/wrapper.cpp wrapper_t::log'), ('scope collection', 'src/scope/watcher.cpp watcher_t::collect'), ('root collection', 'src/root.cpp root_logger_t::log')],
      'path-sensitive flow analysis, collection-pass monitors', INLINE)
    P('C04', 'Scoped attributes nest: leaving a scope restores exactly the previous one',
      '''Entering a scope activates it for its logger and thread on top of the one active before, and leaving it makes
      exactly that previous scope active again, on every path including stack unwinding. Scopes of other loggers and
      other threads are not affected, a finished thread never frees a scope, and moving a logger re-binds every scope
      of the chain.''',
      ['programs', 'histories'], 'every properly nested sequence of scope entries and exits, every number of loggers and threads',
      '''Tests enter at most two scopes of a single logger in one thread; nesting depth, unwinding and logger identity
      are unbounded.''',
      ['src/scope/watcher.cpp', 'src/scope/holder.cpp', 'src/root.cpp'], [('watcher link', 'src/scope/watcher.cpp watcher_t'), ('thread manager', 'src/root.cpp thread_manager_t')],
      'typestate and ownership analysis', INLINE)
    P('C05', 'Changing the filter while logging is race-free and never loses an update',
      '''The filter of a root logger can be replaced, and the logger moved or assigned, while other threads log: the
      shared state is only read or replaced under the lock of its logger and the filter only under the lock of the
      shared state. A concurrent replacement is never overwritten by a stale value, and no user code (filter, handler,
      attribute) runs while one of these locks is held.''',
      ['schedules'], 'every interleaving of logging, filter replacement, move and assignment',
      '''Data races show up in a test only under a lucky schedule; the tests never log and mutate concurrently.''',
      ['src/root.cpp', 'src/util/spinlock.hpp', 'include/blackhole/root.hpp'], [('sync_t load/store', 'src/root.cpp root_logger_t::sync_t'), ('inner_t lock', 'src/root.cpp inner_t::apply')],
      'lockset analysis over event graphs', INLINE)
    P('C06', 'Moving a root logger keeps handlers, filter and active scopes',
      '''After move construction or move assignment the target has the handlers and the filter of the source, a
      lock of its own, and the scopes that were active for the source now belong to the target. Scopes of the target
      survive an assignment, and the source no longer refers to scopes it handed over.''',
      ['programs', 'histories'], 'every state of source and target, every nesting of active scopes',
      '''Tests move a logger with at most one scope and log once; they do not observe the source afterwards.''',
      ['src/root.cpp', 'src/scope/watcher.cpp'], [('move constructor', 'src/root.cpp root_logger_t(root_logger_t&&)'), ('move assignment', 'src/root.cpp operator=')],
      'dataflow analysis of the special members', INLINE)
    P('C07', 'A record reports what it was created with, and is stamped once handled',
      '''A record reports exactly the severity, message pattern and attributes it was created from, the thread and
      lightweight-process identity of the creating thread taken at creation, and - once activated - the formatted text
      and a wall-clock timestamp. Each property is reported by its own accessor, whatever thread reads it.''',
      ['inputs', 'schedules'], 'every record, every reading thread',
      '''Tests read most accessors in the creating thread only; a value computed lazily in the reading thread is
      invisible to them.''',
      ['src/record.cpp', 'src/record.hpp'], [('constructor', 'src/record.cpp record_t::record_t'), ('activate', 'src/record.cpp record_t::activate')],
      'def-use analysis of constructor, activation and accessors', INLINE)
    P('C08', 'A queued copy of a record owns everything it refers to',
      '''An owned copy of a record keeps every property of the original - severity, pattern, text, timestamp, thread
      identities and all attributes of all packs in order - and refers only to storage it owns, so it stays valid after
      the original, its message buffers and its attribute lists are gone. The same holds after the copy was moved or
      assigned; user-defined attribute values are rendered when the copy is made.''',
      ['inputs', 'histories'], 'every record, attribute pack and chain of moves of the owned copy',
      '''Tests compare one small record; dangling views usually still read the right bytes, so tests pass with a broken
      copy.''',
      ['src/recordbuf.cpp', 'src/recordbuf.hpp'], [('owned conversion', 'src/recordbuf.cpp recordbuf_t'), ('value conversion', 'src/recordbuf.cpp into_owned_t')],
      'ownership (points-to) and pass-completeness analysis', INLINE)
    P('C09', 'Objects that carry views of their own data stay consistent when copied or moved',
      '''Wrappers, scope guards and owned attribute pairs keep views into data they own; after construction, copy,
      move and assignment the views always point into the object's own data and cover all of it. That data does not
      change while views of it exist.''',
      ['programs', 'histories'], 'every sequence of copies, moves and assignments, implicitly generated ones included',
      '''A view that still points into the source object reads correct bytes until the source dies; tests do not
      destroy sources before use.''',
      ['src/wrapper.cpp', 'src/scope/holder.cpp', 'src/recordbuf.hpp', 'include/blackhole/wrapper.hpp'], [('view rebuild', 'src/wrapper.cpp constructors'), ('owned pairs', 'src/recordbuf.hpp owned_pair')],
      'representation analysis of special members', INLINE)
    P('C10', 'An asynchronous sink writes every accepted record, even at shutdown',
      '''A record accepted by an asynchronous sink is eventually passed to the wrapped sink exactly once, with its own
      text and its own record. Destroying the sink stops and joins its worker only after everything that was queued
      before has been written: no queued record is lost at shutdown, and no record is written twice.''',
      ['schedules', 'histories'], 'every interleaving of producers, worker and destruction',
      '''Loss at shutdown needs a particular interleaving of the stop flag and the queue; tests that queue one record
      and destroy the sink usually win the race.''',
      ['src/sink/asynchronous.cpp', 'src/sink/asynchronous.hpp'], [('worker loop', 'src/sink/asynchronous.cpp asynchronous_t::run'), ('destructor', 'src/sink/asynchronous.cpp ~asynchronous_t')],
      'ordering (happens-before) monitors over producer, worker and destructor graphs',
      INLINE + ' The queue itself (cds MPSC ring) is covered by C13 only as far as its cells go; its memory-order protocol is trusted.')
    P('C11', 'A failing wrapped sink never stops the asynchronous worker',
      '''Whatever exception the wrapped sink throws, the worker thread survives, goes on with the next record, and wakes
      waiting producers after every processed record, whether it was written or failed. The exception never terminates the process.''',
      ['fault_sequences', 'schedules'], 'every sequence of failures of the wrapped sink, every exception type',
      '''Tests wrap mocks that never throw; an exception escaping the worker is std::terminate in the middle of a run.''',
      ['src/sink/asynchronous.cpp'], [('worker loop', 'src/sink/asynchronous.cpp asynchronous_t::run')],
      'exception-flow analysis of the worker', INLINE)
    P('C12', 'Overflow policies behave as named and as configured',
      '''When the queue is full the policy is asked once per failed attempt: "drop" discards the record without waiting,
      "wait" waits (bounded) and retries until the record is queued. emit() never queues a record twice and never discards one
      the policy did not allow to drop. The builder and the configuration select exactly the policy they name, "wait"
      by default, an unknown name is an error, and the configured queue factor is used (10 when absent).''',
      ['schedules', 'configurations'], 'every fill state of the queue, every policy, every configuration',
      '''Tests do not fill the queue while producers run and never combine every policy with every way to select it.''',
      ['src/sink/asynchronous.cpp', 'src/sink/asynchronous.hpp'], [('producer loop', 'src/sink/asynchronous.cpp asynchronous_t::emit'), ('policy factory', 'src/sink/asynchronous.cpp overflow_policy_factory_t')],
      'path-sensitive analysis of emit, classification of the policies', INLINE)
    P('C13', 'The asynchronous sink starts, queues and fails without touching dead objects',
      '''The worker thread starts only after everything it uses is constructed. A queue cell is raw memory in which the
      record is constructed in place; making the owned copy of a record may fail only before a cell is claimed, so a
      failing producer leaves no half-built cell behind, and a retried record is never one that was already moved away.''',
      ['schedules', 'fault_sequences'], 'every interleaving of construction and worker start, every failing allocation in a producer',
      '''Reading a member before its construction or assigning into raw memory works by luck in most test runs.''',
      ['src/sink/asynchronous.cpp', 'src/sink/asynchronous.hpp'], [('constructor', 'src/sink/asynchronous.cpp asynchronous_t::asynchronous_t'), ('cell', 'src/sink/asynchronous.cpp emit')],
      'initialisation-order and ownership analysis', INLINE)
    P('C14', 'Pattern formatting: each token printed in order with the value it names',
      '''Formatting a record by a pattern prints literals and placeholders exactly once each, in pattern order. Every
      placeholder prints the value it names (severity as number or name, process and thread by number, name or hex, timestamp,
      message, attributes) with its format specification; a named attribute is searched in all lists and the
      first match printed, a missing required one is reported as an exception, a missing optional one
      prints its fallback; `{...}` prints every attribute once, joined by the separator, with prefix and suffix around them only when
      there are attributes. A severity that has a configured name is printed by it, every other one as a number. The tokenizer maps every documented
      placeholder name and type letter to its token.''',
      ['inputs', 'configurations'], 'every pattern, record, attribute set and value alternative',
      '''Tests format selected patterns with a handful of attributes; combinations of placeholder, value type, list
      position and specification are unbounded.''',
      ['src/formatter/string.cpp', 'src/formatter/string/parser.cpp'], [('token visitor', 'src/formatter/string.cpp visitor_t'), ('tokenizer', 'src/formatter/string/parser.cpp parser_t')],
      'path-sensitive output-event analysis of the token visitors', INLINE)
    P('C23', 'The file sink appends one whole line per record to the right file',
      '''Every record the file sink accepts is written as its complete text followed by exactly one newline to the file
      its path pattern selects, under the lock of the sink, so lines of concurrent records never mix. Files are opened
      for appending (existing content is kept), a file that was rotated away is reopened before writing, and when the
      flush policy asks for it the written line is flushed.''',
      ['schedules', 'inputs', 'histories'], 'every text, every interleaving of threads, every rotation history',
      '''Tests write one record through mocks; interleavings, empty texts and rotation between two records are not sampled.''',
      ['src/sink/file.cpp', 'src/sink/file.hpp', 'src/sink/file/stream.cpp', 'src/sink/file/rotate.hpp'], [('emit', 'src/sink/file.cpp file_t::emit'), ('open mode', 'src/sink/file.cpp')],
      'typestate and lockset analysis of file_t::emit', INLINE)
    P('C24', 'A failing file is reported and reopened, never silently skipped',
      '''When writing, ending the line or flushing fails, the error reaches the caller and the backend of that file is dropped,
      so that the next record opens the file again. A file that cannot be opened is reported as an error and leaves no
      backend behind; streams never fail silently.''',
      ['fault_sequences', 'crash_points'], 'every operation on the file failing at any record',
      '''Tests do not inject write errors; a stream left in a failed state swallows every later record without a trace.''',
      ['src/sink/file.cpp', 'src/sink/file.hpp', 'src/sink/file/stream.cpp'], [('recovery', 'src/sink/file.cpp file_t::emit'), ('stream state', 'src/sink/file/stream.cpp')],
      'exception-flow and typestate analysis', INLINE)
    P('C26', 'The TCP sink sends only over a live connection and reconnects after errors',
      '''A record is sent only over a socket whose connection attempt succeeded; a missing connection is made first, trying every
      resolved address before giving up. When connecting or sending fails, the error reaches the caller and the socket is dropped,
      so that the next record connects again. All of this happens under the lock of the sink.''',
      ['fault_sequences', 'schedules'], 'every sequence of connect and send failures, every number of resolved addresses',
      '''Tests connect to one local listener once; failures at each step and multi-address hosts are not sampled.''',
      ['src/sink/socket/tcp.cpp', 'src/sink/socket/tcp.hpp'], [('emit', 'src/sink/socket/tcp.cpp tcp_t::emit'), ('connect', 'src/sink/socket/tcp.cpp connect')],
      'typestate and exception-flow analysis', INLINE)
    P('C27', 'Network sinks transfer the whole text of each record once',
      '''Every record emitted to a TCP or UDP sink without error hands the complete text - all of it, exactly once, in one piece for UDP
      - to the configured peer before the call returns.''',
      ['inputs', 'fault_sequences'], 'every text (embedded NULs, empty, larger than a socket buffer)',
      '''Tests send one short text, for which a partial write never happens.''',
      ['src/sink/socket/tcp.cpp', 'src/sink/socket/udp.cpp'], [('tcp write', 'src/sink/socket/tcp.cpp'), ('udp send', 'src/sink/socket/udp.cpp')],
      'flow analysis of buffers handed to the socket', INLINE)
    P('C28', 'Syslog gets the text verbatim with a valid priority and a live identity',
      '''The syslog sink makes one syslog call per record with a constant format taking the text by its length - the text is never
      interpreted as a format - and the priority mapped from the severity, LOG_ERR for any severity outside the mapping
      (negative ones included). The identity passed to openlog stays valid and unchanged as long as the sink lives, and options,
      facility, identity and priorities given by configuration are used.''',
      ['inputs', 'histories', 'configurations'], 'every text (% directives, NULs), every severity, every lifetime and move of the sink',
      '''syslog cannot be observed by the tests; format-string and lifetime errors do not fail them.''',
      ['src/sink/syslog.cpp', 'src/sink/syslog.hpp'], [('emit', 'src/sink/syslog.cpp syslog_t::emit'), ('identity', 'src/sink/syslog.cpp backend')],
      'flow, guard and lifetime analysis', INLINE)
    P('C29', 'Console lines never interleave and colours are always reset',
      '''Everything the library writes to the console - console sink, development handler, error reports - is written one whole line at a time
      under one common mutex. The console sink prints exactly the text and one newline for a record its filter accepts, nothing for
      a denied one, to the configured stream; colour sequences are written only when the stream is a terminal and are always
      reset, also when writing fails.''',
      ['schedules', 'inputs', 'fault_sequences'], 'every interleaving of threads and writers, every text and colour mapping',
      '''Interleaved output depends on the schedule; the tests write from one thread to string streams.''',
      ['src/sink/console.cpp', 'src/handler/dev.cpp', 'src/termcolor.cpp', 'src/root.cpp'], [('console mutex', 'src/sink/console.cpp'), ('colours', 'src/termcolor.cpp')],
      'lockset and typestate analysis of console output', INLINE)
    P('C30', 'Per-record calls share no unprotected state: one instance serves many threads',
      '''Sinks, handlers, formatters, filters, loggers and overflow policies may be called by any number of threads at once: whatever they
      keep between calls is only changed, or used through operations that change it, under a lock; formatters keep nothing between calls
      (the same record always gives the same bytes, whatever was formatted before or concurrently).''',
      ['schedules', 'histories'], 'every interleaving of concurrent records, every component and instance',
      '''Tests are single-threaded; a race on a cache or a static buffer goes unnoticed.''',
      ['src/sink', 'src/handler', 'src/formatter', 'src/filter', 'src/root.cpp'], [('shared members', 'src/sink/file.hpp file_t'), ('formatters', 'src/formatter')],
      'effect and lockset analysis over the call graph', INLINE)
    P('C31', 'No user code runs under a library lock, and locks cannot deadlock',
      '''No call of the library runs user code (handlers, sinks, formatters, filters, colour mappings, attribute rendering, exception texts) while
      it holds an internal lock, so logging from within such code cannot deadlock. Internal locks are acquired in an
      acyclic order, never twice by one thread, and are released on every path, exceptional ones included.''',
      ['schedules', 'programs'], 'every reentrant use of the library from user callbacks, every interleaving',
      '''Deadlocks need reentrancy or a particular schedule that tests do not set up.''',
      ['src'], [('console mutex', 'src/sink/console.cpp'), ('logger locks', 'src/root.cpp'), ('sink locks', 'src/sink')],
      'lock-order and callback-under-lock analysis', INLINE)
    P('C32', 'The blocking handler formats once and every sink gets that text',
      '''For every record the blocking handler runs its formatter exactly once and passes the record together with exactly the
      formatted text to each of its sinks, each once and in order.''',
      ['inputs', 'configurations'], 'every number of sinks, every record and formatter output',
      '''Tests use one sink and one fixed text.''',
      ['src/handler/blocking.cpp'], [('handle', 'src/handler/blocking.cpp blocking_t::handle')],
      'path-sensitive flow analysis', INLINE)
    P('C44', 'The severity filter denies exactly the records below its threshold',
      '''The severity filter denies a record if and only if its severity is less than the configured threshold, comparing as signed
      numbers of full width; a severity equal to the threshold passes. The zen filter never denies.''',
      ['inputs'], 'every severity and threshold, negative and 64-bit ones included',
      '''Tests sample three small severities around one threshold.''',
      ['src/filter/severity.cpp', 'src/filter/zen.cpp'], [('filter', 'src/filter/severity.cpp severity_t::filter')],
      'path-sensitive guard analysis', INLINE)
    P('C43', 'No record, pattern or configuration makes the library touch an absent element',
      '''The library never dereferences or steps past an end iterator or past the last character of a range, never indexes a sequence outside
      its bounds and never reads an absent optional or null lookup result: each such access happens only on paths where the element was
      established to be there (by a comparison with the end, a size test, a truth test) and not changed since - for every record, severity,
      attribute value, pattern, time format and configuration tree.''',
      ['inputs', 'configurations'], 'every access of the library code, every input that reaches it',
      '''Out-of-range access is undefined behaviour that tests with ordinary inputs do not reach and often do not notice.''',
      ['src/formatter', 'src/config', 'src/sink', 'src/datetime', 'src/registry.cpp', 'src/attribute.cpp'],
      [('severity map', 'src/formatter/string.cpp severity_map'), ('tokenizer', 'src/formatter/string/parser.cpp'),
       ('time pattern', 'src/datetime/generator.linux.cpp'), ('optional nodes', 'src/config/json.cpp')],
      'flow-sensitive guard (must-fact) analysis of every element access, in caller context', INLINE)
    P('C15', 'Every pattern is read completely or rejected with an exception',
      '''Whatever text is given as a pattern, tokenizing it terminates and either yields tokens that cover the whole text or throws
      an exception derived from std::exception. Literal text is reproduced character by character, a doubled brace standing for a
      single one; a single closing brace, an unclosed placeholder, an unclosed specification and a placeholder name with other characters than
      letters, digits, underscore and dot are rejected; after a rejection the tokenizer stays broken. Characters of any value are
      classified without undefined behaviour.''',
      ['inputs'], 'every pattern string',
      '''Tests contain a few dozen well-formed and malformed patterns; the guarantee is over every string.''',
      ['src/formatter/string/parser.cpp', 'src/formatter/string/error.cpp'],
      [('tokenizer', 'src/formatter/string/parser.cpp parser_t::next'), ('literals', 'src/formatter/string/parser.cpp parser_t::parse_literal'),
       ('specifications', 'src/formatter/string/parser.cpp parser_t::parse_spec')],
      'window analysis of consumed versus kept characters, cycle progress analysis', INLINE)
    P('C16', 'Log data is never used as a format string',
      '''Whatever a record contains - its message, the names and values of its attributes, the formatted line - is printed as data: none of
      it ever becomes the format argument of a formatting function (cppformat, printf family, syslog, strftime), so braces and percent signs
      in log data are reproduced as they are and can neither throw nor read memory.''',
      ['inputs'], 'every message, attribute name and value, every formatter and sink',
      '''Tests log ordinary words; a format string bug shows only with braces or percent signs in the data that a
      test does not contain.''',
      ['src/formatter', 'src/sink', 'src/handler', 'include/blackhole/extensions/writer.hpp'],
      [('writer', 'include/blackhole/extensions/writer.hpp writer_t::write'), ('syslog', 'src/sink/syslog.cpp syslog_t::emit')],
      'interprocedural taint analysis', INLINE)
    P('C17', 'String views are never read beyond their end',
      '''The library never treats the pointer of a string view or of a format buffer, which need not be terminated and may be null, as a C
      string: wherever such a pointer is passed on, the length or the end of the same text is passed with it, and cppformat's string
      references, in which length zero means "unknown", are only built from it when the length is nonzero.''',
      ['inputs'], 'every view a caller passes, also into the middle of a larger buffer, empty or default-constructed',
      '''Tests pass literals, whose views happen to be terminated.''',
      ['src/formatter', 'src/util/string_ref.hpp', 'src/sink', 'include/blackhole/stdext/string_view.hpp'],
      [('string_ref', 'src/util/string_ref.hpp string_ref')], 'flow analysis of pointer-length pairs', INLINE)
    P('C18', 'The JSON formatter always writes one well-formed document per record',
      '''For every record whose text is UTF-8 and every accepted configuration the JSON formatter writes exactly one JSON object, followed by a
      newline if and only if that is configured: numbers that JSON cannot represent (infinities, NaN) become null, empty and
      default-constructed texts are written as empty strings, text formatted on the fly stays alive until the document is written,
      members are only added to objects even when a route collides with a value, and routes that are not valid JSON pointers are rejected
      at construction with an exception.''',
      ['inputs', 'configurations'], 'every record, attribute value, route map and option',
      '''Tests format a handful of plain records; a dangling name, a NaN or an odd route needs a specific value to show.''',
      ['src/formatter/json.cpp'],
      [('values', 'src/formatter/json.cpp visitor_t'), ('routes', 'src/formatter/json.cpp json_t::inner_t'), ('document', 'src/formatter/json.cpp json_t::format')],
      'path-sensitive guard and lifetime analysis with inlined visitors', INLINE)
    P('C19', 'The JSON document contains everything the record carries, where configured',
      '''The JSON document contains message, severity, timestamp, process, thread and light-weight process of the record, each exactly once and
      from the right field, and every attribute of every list of the record - once per name when `unique` is set. Each value is placed at
      the route configured for its original name (otherwise at the default route), is named by the new name configured for
      it (otherwise by its own), and is written as a string in the format configured for it, otherwise as its own JSON type.''',
      ['inputs', 'configurations'], 'every record, attribute list and combination of routing, renaming, formatting and unique',
      '''Tests combine two or three options on records with one list; a value lost, doubled or misplaced shows only for particular
      combinations.''',
      ['src/formatter/json.cpp'],
      [('members', 'src/formatter/json.cpp json_t::inner_t::builder'), ('apply', 'src/formatter/json.cpp builder::apply')],
      'path-sensitive multiplicity and provenance analysis with inlined visitors', INLINE)
    P('C20', 'A TSKV record is one line of escaped fields, each written once unless removed',
      '''A TSKV record starts with `tskv`; then the severity, pid, tid and message of the record, every configured constant, every
      configured timestamp and every attribute of every list of the record follow, each exactly once, as a tab, the name,
      `=` and the value. A field whose own name is removed does not appear at all; a field with a new name appears
      under it. Control characters, NUL, escape and backslash in names and text values, and `=` in names, are
      always written as their two-character escape sequences and all other characters as they are, so that a line can be taken apart again.''',
      ['inputs', 'configurations'], 'every record, attribute list, text and configuration of constants, renaming and removal',
      '''Tests escape two or three characters and remove one field; whether any text at all can break a line depends on all
      paths that lead text to the writer.''',
      ['src/formatter/tskv.cpp'],
      [('fields', 'src/formatter/tskv.cpp builder_t::add'), ('escaping', 'src/formatter/tskv.cpp builder_t::write_escaped_*')],
      'path-sensitive output analysis of the formatter: escape coverage per character, field grammar and multiplicity', INLINE)
    P('C35', 'Every documented option of a configuration reaches the object it configures',
      '''When a component is created from a configuration, every documented option takes effect, with the configured key and
      value and nothing else: each entry of JSON mapping, formatting, routing and mutate, of TSKV create, rename, remove and
      mutate, each syslog priority and each severity name is passed on exactly once; unique and newline apply only when
      they are true; flush as a number counts records and as a text is a size; rotation is enabled only for the type
      `stat`; path, host, port, threshold, pattern, factor and overflow reach the object they name. Formatter, filter and sinks of a
      handler, console or asynchronous sink are made by the factory registered under their own `type` from their own node, every
      configured sink is added, and the object returned was built after the last option was applied.''',
      ['configurations'], 'every configuration tree (any combination, number and order of options and entries)',
      '''Tests configure a few options one by one through a mock; an entry dropped on one path or a node mixed up with its
      parent shows only for particular combinations.''',
      ['src/formatter', 'src/sink', 'src/handler/blocking.cpp', 'src/filter/severity.cpp'],
      [('factories', 'src/*/ factory<T>::from'), ('registry', 'include/blackhole/registry.hpp registry_t')],
      'path-sensitive option-flow analysis of every factory over a symbolic configuration tree', INLINE)
    P('C34', 'A component type resolves to exactly the factory registered under its name',
      '''Looking a sink, filter, formatter or handler type up in a registry gives the factory registered last under exactly that name for
      that kind, and std::out_of_range when there is none. The configured registry holds every component of the library
      exactly once under its documented name (severity; json, string, tskv; asynchronous, console, file, null, tcp, udp,
      syslog; blocking), and components that contain others look them up in that same registry. A logger built
      by name gets one handler for every entry configured under that name, each made from its own node by the
      factory its type asks for (`blocking` when it names none).''',
      ['configurations'], 'every registration order, type name and configuration tree',
      '''Tests look up the shipped names; that kinds, names and nodes are never mixed up for any registration and any
      configuration is not sampled.''',
      ['src/registry.cpp', 'src/essentials.cpp', 'include/blackhole/registry.hpp'],
      [('registration', 'src/registry.cpp default_registry_t::add'), ('lookup', 'src/registry.cpp default_registry_t::sink/filter/handler/formatter'),
       ('logger', 'src/registry.cpp builder_t::build')],
      'typestate and provenance analysis of registration, lookup and logger construction', INLINE)
    P('C36', 'A builder hands everything it was given to the object it builds',
      '''Every setter of the programmatic builders (handlers, sinks, formatters) stores exactly the argument it was given - an entry under the
      given name, nothing else overwritten - and returns its builder; its overloads for temporary and named builders have the
      same effect, and no two different setters do the same. build() hands every stored setting to the object built, on every path.
      colorize(severity, color) gives that severity the colour and leaves the colour of every other as it was.''',
      ['configurations'], 'every sequence of setter calls and arguments, for both kinds of overload',
      '''Tests call one overload of a few setters; that all pairs of overloads agree and that nothing stored is lost for any
      combination of settings needs all of them compared.''',
      ['src/formatter', 'src/sink', 'src/handler', 'include/blackhole'],
      [('setters', 'src/*/ builder<T>::*'), ('build', 'src/*/ builder<T>::build')],
      'comparison of effect summaries of overloads, provenance of stored arguments and reachability in build()', INLINE)
    P('C37', 'A configuration tree answers with what is written in it, or says it is not there',
      '''A node of a JSON configuration is a T exactly when the JSON value is one; asking for a T returns the complete value when it is
      one (64-bit integers uncut, texts with embedded NULs) and throws a type mismatch derived from std::exception, which names the
      type expected, the actual one and the place of the node, when it is not. Visiting an array or an object calls the function
      exactly once per element, in order, with the node (and whole key) of that element; looking up an index or key yields
      that child if there is one and nothing otherwise. An optional node forwards every question to the node it has and
      answers none to all of them when it has none. A malformed document is rejected with an exception when it is loaded, never half read.''',
      ['inputs', 'configurations'], 'every JSON document, node type, index and key',
      '''Tests ask a handful of nodes for a handful of types; values at the limits, odd keys and every pairing of type and question
      are not sampled.''',
      ['src/config/json.hpp', 'src/config/json.cpp', 'src/config/option.cpp'],
      [('node', 'src/config/json.hpp json_t'), ('option', 'src/config/option.cpp option<node_t>'), ('factory', 'src/config/json.cpp factory<json_t>::initialize')],
      'type-guard, provenance and forwarding analysis of the configuration nodes', INLINE)
    P('C33', 'A configuration that cannot be honoured is rejected, not half applied',
      '''No component is made from a configuration that lacks a required option - path, host, port, pattern, threshold, the type of a
      formatter, filter or wrapped sink - or that has an unknown rotation type, mutation, overflow policy or data unit: making it throws.
      A configured number that does not fit where it goes (ports, syslog priorities, queue factors outside [2; 20], sizes beyond
      64 bits) is rejected, never cut or wrapped around, and a value of the wrong type that one reading rejected is read in another
      way or reported. Every exception the library throws is derived from std::exception.''',
      ['configurations'], 'every configuration tree',
      '''Tests leave out one or two options; numbers past every limit and each missing or malformed option of each component are not
      sampled.''',
      ['src/sink', 'src/formatter', 'src/handler/blocking.cpp', 'src/filter/severity.cpp'],
      [('factories', 'src/*/ factory<T>::from'), ('limits', 'src/sink/file.cpp parse_dunit, src/sink/asynchronous.p.cpp exp2')],
      'path-sensitive option and interval analysis of the factories, with narrowing conversions and products as obligations', INLINE)
    P('C38', 'A time pattern is rendered completely, from the record\'s own time, in its zone',
      '''Every character of a time pattern belongs to exactly one token, in order: `%f` is the fraction of the second in six digits, `%s` the
      seconds since the epoch, `%%` stays an escaped percent sign, and everything else goes to strftime. Rendering prints every token
      once, in order, whatever its length and characters: nothing is cut or lost. The broken-down time given to a pattern is on
      every path completely filled by a reentrant conversion of the record's timestamp, as universal or local time as asked for;
      rendering one token never changes it for the next, and the fraction is taken from the same timestamp.''',
      ['inputs', 'configurations'], 'every time pattern and timestamp since 1970, in any number of threads',
      '''Tests render a dozen patterns for one time; text past a buffer's end, pairs of placeholders and the other time zone
      show only for particular patterns and settings.''',
      ['src/datetime', 'src/util/time.hpp', 'src/formatter'],
      [('pattern', 'src/datetime/generator.linux.cpp generator_t'), ('conversion', 'src/util/time.hpp gmtime, localtime'),
       ('uses', 'src/formatter/string.cpp, tskv.cpp, json.cpp; src/handler/dev.cpp')],
      'typestate analysis of pattern reading and rendering, provenance of the broken-down time', INLINE)
    P('C40', 'The facade passes every message on once, lazily and with its attributes',
      '''Every overload of the logging facade hands the call to the wrapped logger exactly once, with the severity given, the pattern
      given and every attribute given, and lets the logger's exceptions through. Nothing is formatted before the logger asks
      for the text: then the supplier writes the pattern with all arguments, each once and in order, into a writer that lives as
      long as the call, and returns exactly the text written. A pattern parsed at compile time writes every literal, then the
      argument its placeholder stands for, then the rest.''',
      ['inputs'], 'every severity, pattern, argument pack and attribute list, for both kinds of loggers',
      '''Tests log one message per overload to a mock; a rejected message that is formatted all the same, an empty message, or a
      text that lies in a writer that is gone show only with particular filters, inputs and memory contents.''',
      ['include/blackhole/extensions/facade.hpp', 'include/blackhole/extensions/facade.inl.hpp', 'include/blackhole/extensions/metaformat.hpp'],
      [('overloads', 'include/blackhole/extensions/facade.hpp logger_facade::log, select'), ('suppliers', 'include/blackhole/extensions/facade.inl.hpp write_all, select_t'),
       ('parsed patterns', 'include/blackhole/extensions/metaformat.hpp detail::formatter')],
      'typestate analysis of every facade overload (instantiated by a witness) and of the suppliers it passes on', INLINE)
    P('C21', 'An attribute keeps the value, kind and sign it was made from',
      '''An attribute value or view made from a number, boolean, text, null or function holds exactly that value, in the alternative of
      its kind: signed numbers as signed, unsigned ones as unsigned 64-bit integers, floating point numbers in full precision, texts with
      all their characters. A view of a value shows the same kind and value, for every kind, and calling a function through a view
      calls the function stored, once. Copies and assignments take over the whole value, destruction releases it once, a
      visitor gets the value held, once, and get<T> returns it or throws std::bad_cast when it is of another type.''',
      ['inputs'], 'every value of every constructible type',
      '''Tests store a few small numbers of each type; a number that is cut or changes its sign needs values near the limits of the
      types, and leaks and double releases need particular sequences of assignments.''',
      ['src/attribute.cpp', 'src/attribute.hpp', 'include/blackhole/attribute.hpp'],
      [('values', 'src/attribute.cpp value_t'), ('views', 'src/attribute.cpp view_t, into_view'), ('access', 'src/attribute.cpp get, apply')],
      'flow analysis of every constructor, assignment and accessor with conversions as obligations', INLINE)
    N('C46', 'Calendar fields are those of the time given, for every time',
      '''The broken-down universal or local time of every timestamp - past, future, before 1970, around leap days and changes of the clock -
      has the year, month, day, hour, minute and second of that instant in that zone.''',
      ['inputs'], 'every 64-bit number of seconds', '''Tests compare a few instants only.''', ['src/util/time.hpp', 'src/datetime'],
      [('conversion', 'src/util/time.hpp gmtime, localtime')],
      'A numeric identity over 64-bit arithmetic and the zone database of the system; C38 decides statically that the right conversion fills the whole result, not that its arithmetic is right.')
    N('C47', 'A file sink flushes after exactly as many records or bytes as configured',
      '''With a threshold of n records, or b bytes, the stream is flushed at the n-th record, or as soon as b bytes have been written since the last
      flush, for every sequence of record sizes.''',
      ['inputs', 'configurations'], 'every threshold and sequence of record sizes', '''Tests write a few records with small thresholds.''',
      ['src/sink/file/flusher'], [('flushers', 'src/sink/file/flusher/repeat.hpp, bytecount.hpp')],
      'Depends on sums of run-time quantities over a history; a path analysis cannot bound them. C23 decides that each decision to flush is obeyed.')
    N('C48', 'A rotated file is reopened for the very next record, whatever happens meanwhile',
      '''When the file at the configured path was moved away or replaced, the next record goes to a new file at that path, even if the file is replaced between
      the look at its identity and the write.''',
      ['schedules'], 'every interleaving with external renames', '''Tests move a file between two records.''', ['src/sink/file/rotate'],
      [('rotation', 'src/sink/file/rotate/stat.hpp')],
      'A race with other processes on the file system that no order of calls in this program can exclude; the history that decides it is outside the source.')
