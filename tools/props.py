"""The properties, in one table. gen.py writes properties.jsonl and MANIFEST.json from it."""

PROPS = []
NOT_APPLICABLE = []
NOTE = ('Held on every execution observed: seeded workloads run against the real code while the named monitors watch; '
        'no claim about unobserved executions. Trusts the Go toolchain, the race detector and the harness models.')


def P(id, title, statement, over, qtext, why, files, mechanism, technique, note=NOTE, **extra):
    a = {'files': files, 'mechanism': [{'name': mechanism, 'where': ', '.join(files)}]}
    a.update(extra)
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext},
                      why_tests_cant=why, anchors=a, technique=technique, level_note=note))


P('C01', 'Feeds deliver each value exactly once to every subscribed channel, in order',
  'For any history of subscribe, unsubscribe and send calls on a one-to-many feed (the untyped and the generic variant), from any number of goroutines, each value sent is delivered exactly once to every channel subscribed for the whole of that send, at most once to any other, and never to a channel whose unsubscription returned before the send began or whose subscription began after it ended. '
  'A send returns exactly the number of channels that received its value. '
  'All channels receive the values they have in common in one and the same order, which respects the order of sends that do not overlap in time.',
  ['histories', 'schedules'], 'every sequence of operations, every number of subscribers and every interleaving of concurrent callers',
  'The tests only send with no subscriber or provoke a type panic; no test removes one of several subscribers or sends concurrently.',
  ['event/feed.go', 'event/feedof.go'], 'select-case list with a swap-to-end active prefix, inbox of new cases, one-token send lock, removal channel',
  'runtime monitoring: exact model per step + offline event-log checker (exactly-once, order) under the race detector')
P('C02', 'Slow subscribers block a send; unsubscribing never blocks, works at once',
  'A send on a feed stays blocked exactly as long as some channel subscribed when it began has neither accepted the value nor been unsubscribed; meanwhile every other subscribed channel already gets its value, and a channel subscribed during a blocked send gets only later values. '
  'Unsubscribing returns without needing any receiver even while sends are blocked, may be repeated and called concurrently, and disturbs no other subscription. '
  'Once it has returned nothing more arrives on that channel and its error channel is closed without an error.',
  ['schedules', 'histories'], 'every pattern of slow receivers, blocked and queued sends, and unsubscriptions in between',
  'No test has a blocked send or unsubscribes at all; the states depend on who is blocked when.',
  ['event/feed.go', 'event/feedof.go'], 'reflect select over active cases plus the removal channel; prefix shrink when a pending case is removed',
  'runtime monitoring: exact model compared at every quiescent point of virtual-time bubbles, race detector')
P('C03', 'Feeds reject wrong types without damage and accept every legal value',
  'On an untyped feed the first send or subscription fixes the element type; a later send or subscription with a different type, and any subscription with something that is not a sendable channel, panics, delivers nothing and adds nothing. '
  'After any number of such panics the feed still works as if they had not happened: nothing is left locked and existing subscribers keep receiving. '
  'A generic feed accepts every value of its element type, including nil values of interface, pointer and channel types.',
  ['inputs', 'histories'], 'every mix of element types, channel directions, values and legal operations before and after misuse',
  'The test provokes two wrong sends and never uses the feed afterwards; nil interface values are never sent.',
  ['event/feed.go', 'event/feedof.go'], 'element type check under the feed mutex, lock release before panicking, reflect value construction',
  'runtime monitoring: random misuse histories against an exact model, deadlock watchdog')
P('C04', 'Type dispatch delivers every posted event once to each matching subscription',
  'An event posted to the type dispatcher is delivered exactly once, unchanged and time-stamped, to every live subscription that registered the exact dynamic type of the event before the post, and to no other subscription. '
  'The post returns without error after each of them has received it, and does not return before.',
  ['histories', 'schedules'], 'every set of subscriptions over any event types, any number of concurrent posts and receivers',
  'The test posts one event to one subscriber.',
  ['event/event.go'], 'copy-on-write subscriber lists per type, synchronous delivery on unbuffered channels',
  'runtime monitoring: exact delivery-set model at quiescence + offline checker on concurrent runs, race detector')
P('C05', 'Unsubscribing from or stopping the dispatcher never blocks or harms others',
  'Unsubscribing from or stopping the type dispatcher returns without any receiver, even while posts are blocked on those subscriptions, may be repeated or concurrent, and releases every post that waited for them while other subscriptions still get their events. '
  'When it returns, the affected subscriptions report closed, their channels are closed and deliver nothing more. '
  'After a stop every post fails with the closed error, and every new subscription is born closed.',
  ['schedules', 'histories'], 'every point at which an unsubscription or stop can land relative to blocked and concurrent posts',
  'The tests stop an idle dispatcher only; nothing is blocked when it happens.',
  ['event/event.go'], 'closing signal channel, post/close read-write lock, stopped flag checked under the mutex',
  'runtime monitoring: exact model at quiescence with blocked posts + concurrent runs checked offline, race detector')
P('C06', 'A producer subscription ends cleanly: one error at most, quit seen, waited for',
  'A subscription made from a producer function runs it once; if it ends by itself, its non-nil error is delivered exactly once on the error channel, which is then closed (closed without a value if it returned nil). '
  'Unsubscribing while it runs tells it to quit at once, returns only after it has returned, suppresses its error and closes the error channel; repeated or concurrent unsubscribing never panics or blocks forever. '
  'The producer is never told to quit unless someone unsubscribed.',
  ['schedules', 'inputs'], 'every producer lifetime and result, every moment and number of unsubscriptions, including the moment the producer returns',
  'The test covers one producer that fails before the unsubscription.',
  ['event/subscription.go'], 'unsubscribed flag under a mutex, quit channel, buffered error channel closed when the producer is done',
  'runtime monitoring: virtual-time scripts with exact outcomes + racing threads under the race detector')
P('C07', 'Resubscription keeps one subscription alive, backs off, and ends cleanly',
  'A resubscription makes attempts one at a time: after a subscription fails it tries again (handing the attempt the error of the last subscription, nil at first), after a failed attempt it waits a positive time, growing with each further failure up to, and never beyond, the given maximum, and small again after an attempt that lasted longer than it. '
  'It ends, closing its error channel without an error, exactly when the active subscription ends without an error or when it is unsubscribed. '
  'Unsubscribing works in any state (attempt in flight, waiting, active, already ended), any number of times: it cancels the context of an attempt in flight and disturbs nothing else, returns once that attempt has, makes no further attempt, and by then every subscription ever established has been released and no context of an attempt is left uncancelled.',
  ['schedules', 'fault_sequences'], 'every sequence of attempt outcomes, durations and subscription endings, and every moment of unsubscription',
  'There is no test of resubscription; which state the unsubscription meets depends on timing.',
  ['event/subscription.go'], 'single loop goroutine, attempt goroutine with cancellable context, unsubscribe channel, exponential wait',
  'runtime monitoring: fault plans in virtual time, attempt/release log checked offline, race and deadlock detection')
P('C08', 'A subscription scope tracks exactly its live subscriptions and releases them',
  'The count of a subscription scope is always the number of subscriptions tracked and neither unsubscribed through their wrapper nor closed with the scope. '
  'Unsubscribing a wrapper releases its subscription and no other; the wrapper passes on the error channel. '
  'Closing (repeatedly, concurrently) releases every tracked subscription before it returns, and tracking afterwards is refused with nil and touches nothing.',
  ['histories', 'schedules'], 'every history of track, unsubscribe and close, and every interleaving of concurrent ones',
  'There is no test of the scope.',
  ['event/subscription.go'], 'set of wrappers under a mutex, closed flag',
  'runtime monitoring: exact model per step + concurrent histories with a release ledger, race detector')
P('C09', 'The simulated clock fires each timer exactly once, in order, never early or late',
  'On the simulated clock each timer fires exactly once per scheduling, in the run that first reaches its deadline (deadlines at or before the present fire in the next run, even an empty one), timers due in one run fire in deadline order after the clock has moved, channel timers deliver their deadline, and a timer that was stopped or moved does not fire at the old time. '
  'Stopping reports true exactly when it prevented a firing; the number of active timers and the current time are always exact, also when callbacks schedule or stop timers and when several goroutines do. '
  'Sleepers wake and timer waiters return exactly when the time or the number of timers they wait for is reached.',
  ['histories', 'schedules'], 'every history of schedule, stop, reset and run, with arbitrary durations, callbacks and concurrent callers',
  'There is no test of the clock package in this repository.',
  ['common/mclock/simclock.go'], 'heap of timers with back indexes, deadline-ordered execution outside the lock, condition variable',
  'runtime monitoring: exact model after every step, quiescence checks, exactly-once ledger under the race detector')
P('C10', 'A scheduled alarm always notifies in time and never without cause',
  'After an alarm is scheduled for a time, a notification is available on its channel no later than that time (at once if the time has passed), whatever was scheduled, fired, received or stopped before; an earlier pending time may serve a later one. '
  'It never notifies before the earliest time asked for and not yet served, and each scheduling causes at most one notification. '
  'Stopping drains the channel and cancels everything scheduled so far; the channel stays the same for life.',
  ['histories'], 'every history of schedule, stop, receive and passage of time',
  'There is no test of alarms.',
  ['common/mclock/alarm.go'], 'reuse of a pending timer when it is early enough, one-slot channel with non-blocking send',
  'runtime monitoring: obligation/permission monitor over tick-by-tick virtual time, plus system-clock runs')
P('C11', 'System clock: monotonic, never early, timers fire exactly once',
  'System time never goes backwards, across goroutines too, and advances with the real monotonic clock. '
  'Sleeps, timers, after-channels and delayed functions never complete before their full duration has passed, deliver a time that lies between deadline and reception, happen exactly once per scheduling, and not at all when stopping reported true. '
  'Adding and subtracting durations on absolute times are exact inverses.',
  ['inputs', 'schedules'], 'every duration and every point at which a timer is stopped or reset',
  'There is no test of the clock package in this repository.',
  ['common/mclock/mclock.go'], 'runtime monotonic clock, timers over runtime timers with one-slot channels',
  'runtime monitoring: lower-bound and exactly-once assertions on real timers, monotonicity across threads, race detector',
  note=NOTE + ' Upper bounds on real time are deliberately not judged (wall time on a busy machine decides nothing).')

P('C12', 'Loggers inherit context and handlers from their parents and nothing else',
  'Every record of a derived logger carries the context of its whole ancestry, fixed when each ancestor was created, followed by its own, in order; records, siblings, handlers that modify what they receive, and callers that reuse their argument slices or maps never change the context of any other record or logger, and logging never writes into memory of the caller. '
  'A context map contributes exactly its pairs; an odd number of arguments is completed with nil and flagged, losing nothing. '
  'A logger without a handler of its own always writes to its parent\'s current handler; each record reaches exactly one handler, once, even while handlers are being exchanged; before any handler is set, logging is silent.',
  ['histories', 'inputs', 'schedules'], 'every tree of loggers, argument shape, order of handler changes and concurrent use',
  'The tests cover formatting only; no test derives a logger, and aliasing shows only with particular slice capacities and interleavings.',
  ['log/logger.go', 'log/root.go', 'log/handler_go14.go'], 'copied context slices, normalisation of odd arguments, atomic swap handler chained to the parent',
  'runtime monitoring: exact model per operation with watched spare capacity + concurrent storms, race detector')
P('C13', 'Records say what was logged, when, at what level and from which line',
  'A record carries the message and level it was logged with, a time that lies within the logging call, the standard key names, and as call site exactly the source line of the logging statement: for every method and package function, every level, any chain of handlers, and for explicit call depths the line that many frames up. '
  'A critical record ends the process with status 1 after it has been handed to the handlers, and the call never returns. '
  'Level names read back as the same level; unknown names are rejected.',
  ['inputs', 'histories'], 'every way to log from any source position, through any logger and handler chain',
  'No test looks at a record\'s metadata or at critical records; inlining and extra frames are easy to get wrong.',
  ['log/logger.go', 'log/root.go'], 'fixed frame skip from every entry point to the stack capture',
  'runtime monitoring: call sites in 8 source files record their own line for comparison; critical records in child processes')
P('C14', 'Logfmt output is one parseable line from which every field reads back',
  'Every record formatted as logfmt is exactly one line of key=value pairs: time, level and message first, then every context pair in order, from which each string reads back exactly, whatever quotes, blanks, equals signs, control characters, escapes or invalid UTF-8 it contains. '
  'No control character or terminal escape reaches the output raw. '
  'Formatting never panics, not even on nil pointers with string or error methods, keeps going after a bad (non-string) key, which it flags, and does not change the record.',
  ['inputs'], 'every message, key and value of any type, also formatted concurrently',
  'The tests format a handful of numbers.',
  ['log/format.go'], 'value formatting, escaping and quoting of keys and values',
  'runtime monitoring: independent parser reads every formatted line back, race detector')
P('C15', 'Terminal output is faithful: level, time, origin, message and every field',
  'A record formatted for a terminal is one record terminated by a newline: the level (colored with its own color only if color is on), the time to the millisecond, the origin exactly when origins are printed, with color or without, the message (quoted when it holds characters that could break or drive the terminal; line breaks are allowed), then every field, from which each string reads back exactly. '
  'Values with a special terminal form use it, nil pointers are printed as such; alignment adds nothing but blanks. '
  'Switching origins and formatting may go on concurrently.',
  ['inputs', 'histories'], 'every record, both color settings, both origin settings, any history of field widths',
  'No test formats a record for a terminal.',
  ['log/format.go'], 'header assembly, color codes, field padding table, location length memory',
  'runtime monitoring: structural checker and parser over every line produced, race detector')
P('C16', 'JSON output is valid, complete and one document per record',
  'Each record formatted as JSON (plain, pretty, ordered) is one valid document, followed by a separator exactly when asked for, on one line unless pretty; a stream of records decodes one by one. '
  'The document holds the time, level name, message and every context pair: numbers with their exact value, other values as their text; the ordered form keeps all pairs in order. '
  'Bad keys, and values JSON cannot express, are reported in the error field; nothing panics.',
  ['inputs'], 'every record and every JSON variant',
  'No test formats a record as JSON.',
  ['log/format.go'], 'conversion of values to JSON-friendly ones, ordered context array, fallback document on marshalling errors',
  'runtime monitoring: standard-library decoding of every document and comparison field by field')
P('C17', 'Numbers in logs are grouped without changing their value',
  'Every integer of any width, sign and magnitude, including arbitrary-precision ones, is printed as its exact decimal digits, grouped in threes by commas exactly when it has six or more digits. '
  'Removing the commas gives back the number, and formatting does not change the value passed.',
  ['inputs'], 'every integer',
  'The tests sample about thirty values.',
  ['log/format.go'], 'hand-written digit grouping for 64-bit and big integers',
  'runtime monitoring: differential check against an independent formatter on boundary and random values')
P('C18', 'Log filters pass exactly the records their predicate accepts',
  'A level filter passes exactly the records at or below its level number; a match filter exactly those whose first value under the key (or whose level, time or message, when the key names it) equals the given one; a custom filter exactly those its function accepts. '
  'Records pass through unchanged with the inner handler\'s result, dropped ones report success; nested and concurrent filters decide the same.',
  ['inputs'], 'every record, key, value, level and nesting of filters',
  'There is no test of filters.',
  ['log/handler.go'], 'filter closures over the record',
  'runtime monitoring: every delivery compared with an independent predicate')
P('C19', 'Verbosity, module rules and backtraces decide as last configured',
  'A record is written exactly when its level is at most the global verbosity or the level of the first module rule that matches the source file of the logging statement, under the configuration in force, however often it was changed and whatever decisions were remembered before. '
  'Rules select by file name, by the package path\'s end, or by any containing path, as documented; malformed settings are refused and leave the configuration as it was. '
  'A record logged at the backtrace location is written at info level with the stacks of all threads; other records are never altered, and reconfiguration while logging never makes a decision that no configuration in force allows.',
  ['histories', 'schedules'], 'every history of settings and logging statements, concurrent ones included',
  'There is no test of this handler; its cache makes old decisions survive in particular orders only.',
  ['log/handler_glog.go'], 'atomics for the fast path, rule list with regular expressions, per-call-site cache reset on change',
  'runtime monitoring: independent path matcher over random configuration histories + concurrent storms, race detector')
P('C20', 'Handler combinators deliver as specified whatever the handlers do',
  'A multi handler gives every record to all its handlers in order even if some fail; a failover handler to the first that accepts it, noting every earlier error under its index, and returns the last error if none does; discarding succeeds; '
  'asynchronous handlers deliver every record once, in order, accept as many as their capacity without blocking and then block. '
  'A synchronised handler admits one record at a time, also after its inner handler panicked. Lazy values are evaluated once per evaluation and only for records that get there, invalid ones become flagged errors; caller handlers name the exact file, function and stack of the logging statement.',
  ['inputs', 'schedules', 'fault_sequences'], 'every nesting of handlers and failures, every number of producers and buffer size',
  'There is no test of handlers.',
  ['log/handler.go'], 'closures over shared records, channel with writer goroutine, mutex with deferred unlock, reflection on lazy values',
  'runtime monitoring: interpreter of handler expressions as oracle, stepwise virtual-time driving, exclusion monitors, race detector')
P('C21', 'Every record logged concurrently reaches its sink once, whole and in order',
  'Whatever threads log to files, streams, network peers or syslog peers, each record arrives exactly once, as one intact unit, and records of one thread arrive in the order logged, also while handlers are exchanged and when two handlers append to one file. '
  'Opening a log file keeps what it already held; syslog messages carry the severity of their level, and trace records are not sent. '
  'Failure to open or write is reported to the caller, by panicking in the variants documented to.',
  ['schedules', 'fault_sequences'], 'every number of threads, records and sinks, and every interleaving',
  'There is no test of handlers or of concurrent logging.',
  ['log/handler.go', 'log/syslog.go', 'log/handler_go14.go'], 'mutex around format and write, append mode, one connection per handler',
  'runtime monitoring: byte-accounting ledger over files and loopback peers under concurrent load, race detector')
P('C22', 'Hex byte strings: every codec round-trips and accepts exactly valid text',
  'Encoding any byte string gives "0x" followed by two lower-case digits per byte, by every route (plain function, text, JSON, stringer, GraphQL), and decoding gives the same bytes back. '
  'A decoder succeeds exactly on text with the prefix (0x or 0X) and an even number of hex digits, and, for fixed-length targets, exactly the right number of them; anything else is refused with the error that names the defect (empty, no prefix, odd length, bad digit, wrong length, not a JSON string), and leaves a fixed-length destination untouched. '
  'Encoding and decoding never change their input, keep no reference to it and are safe in parallel.',
  ['inputs'], 'every byte string and every text, in every codec',
  'The tests sample a few literals per function; they check neither all codecs, nor which error, nor destinations after failures.',
  ['common/hexutil/hexutil.go', 'common/hexutil/json.go'], 'prefix and digit checks before hex decoding, fixed-length decoding in two passes',
  'runtime monitoring: independent grammar classifying every literal, encoders compared with a byte-at-a-time reference, race detector')
P('C23', 'Hex quantities: canonical, lossless, and nothing non-canonical accepted',
  'Every unsigned 64-bit number and every integer of at most 256 bits is written as "0x" and the shortest hex digits ("0x0" for zero, a minus sign in front for negative ones), by every route, and read back as the same number. '
  'A decoder succeeds exactly on a prefixed, non-empty run of hex digits without leading zeros that fits the target (64 bits, the machine word, or 256 bits); anything else is refused with the error naming the defect (empty, no prefix, no digits, leading zero, bad digit, out of range), which through JSON arrives as a type error for the target, and leaves the destination untouched. Must-decoders panic exactly where the decoder fails.',
  ['inputs'], 'every number, every text, every codec',
  'The tests sample a dozen literals; boundaries of word size, multi-word nibble packing and error identity depend on the exact length and digit.',
  ['common/hexutil/hexutil.go', 'common/hexutil/json.go'], 'per-nibble accumulation, word-wise assembly of big integers, error translation to JSON type errors',
  'runtime monitoring: numbers around every power of two + literals classified by an independent grammar, race detector')
P('C24', 'Hashes and addresses hold the last bytes given and survive every encoding',
  'A hash or address made from bytes, a hex string (with or without prefix, of odd length too) or an integer holds the last 32 or 20 bytes of it, padded with zeros on the left, whatever the length, and shares no memory with its source. '
  'Written as text, JSON value, JSON map key, unprefixed text, SQL value or through any format verb it appears as documented, and reads back as the same value. '
  'Text, JSON, GraphQL and SQL input is accepted exactly when it is well-formed and of the exact size; refused input leaves the old value intact.',
  ['inputs'], 'every value, every source length, every encoding and every malformed input',
  'The tests use a few fixed values; cropping, odd lengths, verbs and failure atomicity are barely sampled.',
  ['common/types.go', 'common/bytes.go', 'common/hexutil/json.go'], 'crop-left copying, fixed-size hexutil codecs, custom fmt.Formatter, driver.Valuer and sql.Scanner',
  'runtime monitoring: every route compared with a crop-and-pad reference and an independent hex grammar, race detector')
P('C25', 'Addresses print with the EIP-55 checksum; mixed-case input is judged by it',
  'Every address printed as hex (method, stringer, %v, %s, %q) carries exactly the EIP-55 capitalisation of its 20 bytes. '
  'Text counts as a hex address exactly when it is 40 hex digits with an optional 0x or 0X prefix. '
  'A mixed-case address keeps the text it was given, yields its 20 bytes, reports a valid checksum exactly when that text is the checksummed form, says so when printed, and marshals to a JSON string that reads back to the same address and digits; from JSON only prefixed text is accepted.',
  ['inputs'], 'every address and every text',
  'The tests use the vectors of the standard and a few literals; one of them fails for a reason of its own and so guards nothing.',
  ['common/types.go'], 'Keccak-256 over the lower-case digits selects upper-case letters in place',
  'runtime monitoring: independent EIP-55 implementation (golang.org/x/crypto Keccak) over random and letter-heavy addresses and literals')
P('C26', 'Byte helpers pad, trim, copy and convert exactly, leaving inputs alone',
  'Padding on either side yields the given bytes and zeros up to the requested length, and the bytes as they are if already as long; trimming removes exactly the zeros at the named end; copies and padded results are independent of their source, and a copy is nil only for nil. '
  'Hex helpers convert both ways, ignore a 0x or 0X prefix where documented, complete odd lengths with a leading zero, and crop or pad to a fixed size on the left. '
  'Parsing hex-or-text yields the bytes of well-formed prefixed hex, the text itself when there is no prefix, and an error otherwise; no helper changes its input or writes into its spare capacity.',
  ['inputs'], 'every byte string, zero pattern and length',
  'The tests check one example per helper.',
  ['common/bytes.go'], 'slice copies and index loops',
  'runtime monitoring: byte-at-a-time references with sentinel-filled spare capacity watched after each call')
P('C27', '256-bit integer operations are exact and leave their operands alone',
  'Modular exponentiation equals base^exponent mod 2^256 for every base and non-negative exponent; reduction to 256 bits and reinterpretation as two\'s complement are exact and inverse to each other; minimum, maximum, plain power and lowest set bit are exact; single bytes, padded bytes and bytes read into a buffer are the big-endian bytes of the number, never fewer than requested, with nothing written outside the buffer. '
  'Operations documented as not destructive change neither their operands nor any shared constant, and results do not alias operands.',
  ['inputs'], 'every pair of integers of any size and sign, every length',
  'The tests cover small examples; none looks at operands afterwards or at numbers beyond 256 bits in combination.',
  ['common/math/big.go', 'common/big.go'], 'square-and-multiply over words, word-wise byte extraction, in-place masks',
  'runtime monitoring: math/big as reference with operands and constants re-examined after every call, race detector on shared operands')
P('C28', '256-bit text codecs round-trip and accept exactly numbers in range',
  'The hex-or-decimal codec writes any number of at most 256 bits as 0x and minimal hex digits, the decimal codec as decimal digits; both read back what they wrote, directly and through JSON. '
  'Unsigned text is accepted exactly when it is empty (zero), decimal digits, or 0x/0X and hex digits, and the value fits 256 bits; it is refused otherwise with the destination untouched.',
  ['inputs'], 'every number up to 256 bits and every text without a sign',
  'The tests sample a table of literals for the parser; codecs and destinations after failures are not covered at the limits.',
  ['common/math/big.go'], 'prefix dispatch to big.Int parsing, bit length limit, text codecs over type conversions',
  'runtime monitoring: independent parser over literals around the limits, both codecs, both routes')
P('C29', 'Sizes, durations and ages print a value that reads back correctly',
  'A storage size prints with two decimals in the largest binary unit it exceeds, with or without a space, within rounding of its value. '
  'A duration prints as the standard text with fractions cut to three digits, nothing else changed. '
  'An age prints the whole seconds since the given time as at most three of the largest non-zero units (years of 360 days, months of 30, weeks, days, hours, minutes, seconds), "0" below one second, exactly at unit boundaries too.',
  ['inputs'], 'every size below 1024 TiB or so, every duration and every age up to centuries',
  'The test samples five sizes; durations and ages are untested and ages need the clock to stand still.',
  ['common/size.go', 'common/format.go'], 'unit ladders with float division, regular expression over the duration text, subtraction loop over units',
  'runtime monitoring: independent printers, ages under a virtual clock (testing/synctest)')
P('C30', 'Files, paths and problem reports say exactly what happened and where',
  'Loading a JSON file stores exactly what the standard decoder would, and fails exactly when it would; a syntax error is reported with the file name, the line on which it is and the decoder\'s message, any other decoding error with the file name, a missing or unreadable file with the system\'s error. '
  'Existence of a path follows links and notices removal; relative names are joined to the base directory, absolute ones kept. '
  'Client names have the documented form, a problem report names the caller\'s file and line and the details given; a deprecation warning is boxed in lines of equal length.',
  ['inputs'], 'every JSON document and defect, every path, every report',
  'No test loads a file, checks a path or captures a report.',
  ['common/test_utils.go', 'common/path.go', 'common/debug.go'], 'line lookup by error offset, os.Stat, runtime caller and stack, fixed-width box',
  'runtime monitoring: real files with random damage against the standard decoder, captured standard streams')
P('C31', 'SHA-3 hashes equal the specification for every message however it is written',
  'Each of the four Keccak variants yields the specified digest of the concatenation of everything written since creation or reset, for every message length and every division into writes, including empty ones. '
  'Summing appends to the given slice without touching its bytes, may be repeated and interleaved with further writes, and does not disturb the state; instances are independent of each other, and sizes and block sizes are as specified.',
  ['inputs', 'histories'], 'every message, division into writes, and interleaving of sums and resets',
  'The known-answer tests write each message whole and sum once.',
  ['crypto/sha3/sha3.go', 'crypto/sha3/keccakf.go'], 'rate-sized buffering of partial blocks, padding at sum on copied state, unrolled rounds',
  'runtime monitoring: literal implementation of the specification as oracle over random write/sum/reset histories, parallel instances under the race detector')
P('C32', 'Curve points add and multiply by the group law on all four curves',
  'On each of the four curves addition, doubling and multiplication by a scalar of any length follow the chord-and-tangent group law for every pair of points, including equal and opposite ones and the identity (as coordinates 0,0, or no point from multiplication), and membership tells points from non-points. '
  'Operations change neither their operands nor the shared curve constants, which are those of SEC 2 and complete on concurrent first use.',
  ['inputs', 'schedules'], 'every pair of points, every scalar, every curve and parallel use',
  'The tests cover membership of a point and one or two multiples; exceptional cases of the formulas are never met.',
  ['crypto/curve.go'], 'Jacobian coordinates with modular inverse at the end, double-and-add from the first set bit, sync.Once construction',
  'runtime monitoring: affine reference arithmetic on math/big over related point pairs, operand watching, race detector')
P('C33', 'Keys match their public point; points and entropy are serialised faithfully',
  'A point is serialised as 4 and both coordinates at full width, zeros included, and read back exactly; input of another length or lead byte is refused without panicking. '
  'A generated private key has the width of the curve, its public point is exactly that multiple of the base point, it depends on every bit of the randomness consumed and on nothing else, and a random source that fails or ends early makes generation fail. '
  'The entropy reader fills exactly the buffer requested, never repeats itself, never passes off unfilled bytes as random when the system source fails, and is safe in parallel.',
  ['inputs', 'fault_sequences'], 'every point, malformed encoding, random stream and failure of it',
  'The tests serialise one generated point; short coordinates occur once in 256 times, failing randomness never.',
  ['crypto/curve.go', 'crypto/randentropy/rand_entropy.go'], 'right-aligned copies into a fixed buffer, io.ReadFull from the random source',
  'runtime monitoring: full-width reference encoding, chosen streams in awkward pieces with faults, repeat ledger over real entropy')
P('C34', 'Mnemonics encode every message of 8-digit groups and decode back to it',
  'Encoding a message of any number of 8-digit hex groups gives three list words per group, by the defined mixed-radix rule, and decoding them gives back the same text, leading zeros included. '
  'The word list holds 1626 distinct words that nothing changes; a word is found at its own index and an unknown one at -1, and the lookup finds the first place in any other list.',
  ['inputs'], 'every message of 32-bit groups',
  'The test encodes and decodes two messages.',
  ['crypto/mnemonic.go', 'crypto/mnemonic_words.go'], 'mixed-radix digits with differences modulo the list length',
  'runtime monitoring: independent codec over boundary digits and random messages')
P('C35', 'Struct tags are read by the rules, and every misuse is refused by name',
  'For any struct description exactly the exported, not ignored fields are returned, in order, each with the flags its tag list states; nil tags name the empty value (string or list) explicitly or take it from the pointed-to type: unsigned integers, booleans, strings and byte arrays or slices are strings, everything else a list. '
  'Unknown tags, nil tags on non-pointers, tail anywhere but on a last slice field or together with optional, and a required field after an optional or tail one are refused with an error naming the first offending field (and the tag), whose text names the struct if known.',
  ['inputs'], 'every list of fields, types and tags',
  'There is no test of the package; the generator\'s golden files use four tags.',
  ['rlp/internal/rlpstruct/rlpstruct.go'], 'tag parser per field, one pass for ordering of optional fields',
  'runtime monitoring: random struct descriptions through a bridge package laid over the tree, compared with an independent reading of the rules')
P('C36', 'Generated RLP codecs compile, and encode and decode their struct exactly',
  'For every struct made of the supported field types and tags the generator writes code that compiles and holds the methods asked for (encoder by default, decoder on request), marked as generated and excluded while generating. '
  'Its encoder writes the canonical encoding: fields in order, ignored and unexported ones left out, zero optional fields at the end omitted, nil pointers as the tagged or default empty value, negative integers refused, the object unchanged; '
  'its decoder reads exactly what such an encoding says, refuses every other input with an error, and changes the object only on success. '
  'Unsupported types, invalid tags and packages that do not compile are refused with an error and no output.',
  ['inputs', 'programs'], 'every struct type over the supported fields and tags, every value of it and every input',
  'The golden tests cannot run in this module (their package path does not exist) and compare text for five types without compiling it.',
  ['rlp/rlpgen/gen.go', 'rlp/rlpgen/types.go', 'rlp/rlpgen/main.go', 'rlp/internal/rlpstruct/rlpstruct.go'], 'type-directed code templates over go/types, nested temporaries, optional-suffix conditions',
  'runtime monitoring: random types through the real command, output compiled and executed against a reflective reference codec on values, valid and damaged inputs')
P('C37', 'Compiler output parses to exactly the contracts it describes, or fails whole',
  'Parsing combined compiler output of either generation yields one contract per entry, under its full name, with code and runtime code prefixed by 0x, the method hashes, source maps, metadata and the parsed interface and documentation of that entry, and the source, versions and options given by the caller; absent fields are empty. '
  'Output of the newer generation given to the general parser is recognised, and malformed output, or a malformed embedded document in the older form, gives an error and no contracts. Parsing never changes its input, and a contract survives its own JSON form.',
  ['inputs'], 'every combined output of either generation, intact or damaged',
  'There is no test of the package (the compiler itself is not needed for parsing).',
  ['common/compiler/solidity.go', 'common/compiler/helpers.go'], 'two JSON shapes tried in turn, embedded documents decoded per contract',
  'runtime monitoring: documents built from known contracts, with random absences and damage, compared field by field')
P('C38', 'Ended sends, subscriptions, timers and log calls leave nothing behind',
  'While a feed, dispatcher, subscription scope, simulated clock or logger lives on, it holds nothing whose use is over. '
  'Once no send or post is in progress a value sent or posted is referenced only by channels and receivers that hold it; a channel is released, with what is in it, by unsubscribing (whether or not a send saw it, and during one), and so are a dispatcher subscription that was unsubscribed or stopped and a tracked subscription that was unsubscribed through its wrapper or closed with its scope. A value or channel of the wrong type, and what is given to something stopped or closed, is not kept. '
  'A timer of the simulated clock that fired or was stopped is released with its callback and not counted as active, and an alarm leaves at most one active timer, none once stopped. '
  'Values logged, loggers derived and handlers replaced are not kept by the logger or by synchronous handlers and formats. '
  'When producers, resubscriptions and everything else have ended, no goroutine of the library is left and what they used is released.',
  ['histories', 'schedules'], 'every history of joining, leaving, sending, blocking, misuse, starting and stopping',
  'No test looks at what is still referenced; a leak changes no result.',
  ['event/feed.go', 'event/feedof.go', 'event/event.go', 'event/subscription.go', 'common/mclock/simclock.go', 'common/mclock/alarm.go', 'log/logger.go', 'log/handler.go'],
  'case lists cleared after sends and removals, copy-on-delete subscription tables, heap slots cleared, one producer goroutine ended by its quit channel',
  'runtime monitoring: garbage-collector cleanups on values, channel contents, callbacks and handlers against a reference model of what is in use; goroutine dumps')
