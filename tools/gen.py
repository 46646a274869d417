#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (claimed = a harness exists)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=(), na=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
                  _note=' '.join(note.split()), _na=na))


J = 'jaeger_client/'
prop('C01', 'Text/HTTP header propagation round-trips the span context',
     '''Injecting a span context into a text-map or HTTP-header carrier and extracting it again, with the same header
     configuration and any casing of the header names, yields the same trace id, span id, parent id (none for a root) and flags, and the same
     baggage with lower-cased keys and unchanged values. Under the HTTP format every injected baggage value is plain printable ASCII.''',
     ['inputs', 'configurations'],
     '''all trace ids up to 128 bit, span and parent ids up to 64 bit, flag values, baggage keys (ASCII) and values (any Unicode text),
     custom header names and prefixes, header casing''',
     'The tests round-trip a handful of fixed ids and two baggage values; they cannot cover the id, flag and Unicode value spaces.',
     [J + 'codecs.py', J + 'span_context.py', J + 'tracer.py'],
     [('TextCodec.inject/extract', J + 'codecs.py'), ('span_context_to_string/from_string', J + 'codecs.py')],
     ['Tracer.inject', 'Tracer.extract'],
     'real inject/extract executed symbolically; ids full width, keys/values up to the stated length')
prop('C02', 'Trace-context header: exact values or a corruption error',
     '''For any value of the trace header, extraction either returns a context whose ids and flags are exactly the four
     colon-separated hexadecimal numbers of the header with a positive trace id, a positive span id, a non-negative parent id (zero meaning no parent)
     and non-negative flags, or raises the OpenTracing corruption error; no other exception escapes. Every well-formed header is accepted, including
     one presented as a one-element list; a header with a different number of fields, an empty or non-hexadecimal field,
     a zero trace or span id, or a negative field is rejected.''',
     ['inputs'], 'all header strings up to the stated length over all Unicode characters, all 4-tuples of numbers, non-string values, lists of values',
     'A unit test lists about ten malformed strings; the accept/reject boundary is over all strings.',
     [J + 'codecs.py'], [('span_context_from_string', J + 'codecs.py'), ('TextCodec.extract', J + 'codecs.py')],
     ['Tracer.extract', 'TextCodec.extract'],
     'every Unicode string up to the length bound goes through the real parser with an exact model of int(str,16)')
prop('C03', 'Debug-id, manual baggage and baggage-only headers',
     '''Extraction from a carrier that has no trace header returns nothing when there is also no debug-id header and no
     baggage; otherwise it returns a context without a trace that carries exactly the debug id and all baggage found in
     prefixed headers and in the manual comma-separated baggage header. The result does not depend on the order or the casing of the headers, and
     unrelated headers change nothing.''',
     ['inputs'], 'presence/absence and order of trace, debug, prefixed-baggage and manual-baggage headers, their casing, and their symbolic values',
     'Tests use one carrier per feature; combinations and orders are not covered.',
     [J + 'codecs.py', J + 'span_context.py'], [('TextCodec.extract', J + 'codecs.py'), ('_parse_baggage_header', J + 'codecs.py')],
     ['Tracer.extract'], 'all header subsets and orders in the bound, values symbolic')
prop('C04', 'Binary propagation round-trips and matches the Go wire layout',
     '''Injecting a span context into a binary carrier and extracting it yields the same ids, flags and baggage, and the bytes are the
     big-endian layout of the Go client: trace id high and low, span id, parent id (0 for none), one flags byte, item count, then length-prefixed UTF-8 keys and values.''',
     ['inputs'], 'all trace ids up to 128 bit, ids up to 64 bit, flags byte, baggage of up to the stated number of items with Unicode keys and values',
     'Tests check two fixed contexts.', [J + 'codecs.py'], [('BinaryCodec', J + 'codecs.py')], ['Tracer.inject', 'Tracer.extract'],
     'struct.pack/unpack are modelled exactly; ids full width')
prop('C05', 'Binary extraction survives arbitrary bytes',
     '''Extracting from an arbitrary byte buffer either returns a context whose fields are those of the wire layout or raises the
     OpenTracing corruption error: truncated or over-long length fields, bogus counts and invalid UTF-8 never produce another exception, and the
     work done is bounded by the size of the buffer.''',
     ['inputs'], 'all byte buffers up to the stated length',
     'No test feeds malformed binary carriers.', [J + 'codecs.py'], [('BinaryCodec.extract', J + 'codecs.py')], ['Tracer.extract'],
     'every byte of the buffer is symbolic')
prop('C06', 'B3 headers round-trip the context and follow the B3 format',
     '''With B3 propagation, injecting and extracting a context yields the same trace, span and parent ids and the same sampled and debug bits, and the
     injected ids are lower-case hexadecimal of 16 digits (trace id: 16 or 32), the parent header being absent for a root.
     Extraction ignores header casing, accepts exactly '1' as a set sampled or debug header, returns nothing when the trace or span id is missing or zero, and raises the corruption error for a non-hexadecimal id.''',
     ['inputs', 'configurations'], 'all ids, all combinations of sampled and debug bits, both trace-id widths, header casing, arbitrary id header text up to the stated length',
     'Tests use fixed ids and never inject a context that is both sampled and debug.', [J + 'codecs.py'], [('B3Codec', J + 'codecs.py')],
     ['Tracer.inject', 'Tracer.extract'], 'ids full width, header text symbolic up to the bound')
prop('C07', 'Zipkin/TChannel propagation round-trips the span context',
     '''Injecting a span context in the Zipkin span format and extracting it, from a dictionary or from an object with the same fields,
     yields the same trace id, span id, parent id and flags. A carrier without a trace id yields no context and an object lacking a field is refused as an invalid carrier.''',
     ['inputs'], 'all ids and flags; presence of each field', 'Tests use one fixed context.', [J + 'codecs.py'], [('ZipkinCodec', J + 'codecs.py')],
     ['Tracer.inject', 'Tracer.extract'], 'ids full width')
prop('C08', 'Span identity: trace, parent and reference linkage',
     '''A span started without any parent begins a new trace and has no parent id; a span started with a parent (explicit,
     the first reference that has a context, or otherwise the active span unless ignored) shares that parent's trace id and has the parent's span id as parent id. With one-span-per-RPC enabled a
     server span with a parent adopts the parent's span id and parent id instead, and new trace ids use 128 bits exactly when configured. All given references with a context are kept in order.''',
     ['inputs', 'configurations'], 'every combination of explicit parent (none, span, context, context without trace), references, active span, ignore flag, RPC kind, configuration, with symbolic ids and random draws',
     'Tests exercise single combinations with fixed random numbers.', [J + 'tracer.py', J + 'span_context.py', J + 'span.py'],
     [('Tracer.start_span', J + 'tracer.py')], ['Tracer.start_span', 'Tracer.start_active_span'],
     'all combinations, ids and random draws symbolic')
prop('C09', 'Sampling is decided once at the root and inherited',
     '''For a new trace the sampler is consulted exactly once, with the new trace id and the operation name, and its decision sets the sampled flag and its tags the root span's tags; a descendant,
     local or via a propagated context, inherits the parent's flags and never consults the sampler. Unsampled spans are never reported and record no tags or logs.''',
     ['inputs', 'histories'], 'all sampler decisions, ids, flags; chains of spans over in-process and text-map hops',
     'Tests check single parent-child pairs with constant samplers.', [J + 'tracer.py', J + 'span.py'], [('Tracer.start_span', J + 'tracer.py'), ('Span.finish', J + 'span.py')],
     ['Tracer.start_span', 'Span.finish', 'reporter'], 'sampler decision and ids symbolic')
prop('C10', 'Debug id forces a debug trace only when the throttler allows it',
     '''Starting a span from a context that only carries a debug id yields a root span that, when debug spans are allowed for the operation, is sampled and debug and is tagged
     with the debug id under the configured header name; when the throttler refuses, the span is not a debug span. The throttler is asked exactly once, for the span's operation.''',
     ['inputs', 'configurations'], 'debug id text, throttler decision, header name, presence of baggage',
     'Tests cover one allowed and one refused case.', [J + 'tracer.py', J + 'codecs.py'], [('Tracer.start_span', J + 'tracer.py'), ('Tracer.is_debug_allowed', J + 'tracer.py')],
     ['Tracer.start_span'], 'debug id text and throttler decision symbolic')
prop('C11', 'Baggage is inherited by descendants and isolated otherwise',
     '''A child span starts with exactly its parent's baggage at that moment; setting or removing an item afterwards changes only the span it was called on, never the parent, siblings,
     or contexts handed out earlier. Reading an item returns the last value set on that span or inherited, and setting baggage keeps ids and flags.''',
     ['histories', 'inputs'], 'all sequences of start-child/set/remove/read operations up to the stated length over a small span tree with symbolic keys and values',
     'Tests check one parent and child.', [J + 'span.py', J + 'span_context.py', J + 'tracer.py'], [('SpanContext.with_baggage_item', J + 'span_context.py'), ('Span.set_baggage_item', J + 'span.py')],
     ['Span.set_baggage_item', 'Span.get_baggage_item', 'Tracer.start_span'], 'operation sequences bounded, keys/values symbolic')
prop('C12', 'Probabilistic sampling is exactly id < rate * 2^64',
     '''A probabilistic sampler accepts a rate iff it lies in [0, 1], and samples a trace iff the low 64 bits of the trace id are below rate * 2^64; rate 0 samples nothing, rate 1 everything,
     and a trace sampled at some rate is sampled at every higher rate, so the decision is the same for equal ids everywhere.''',
     ['inputs'], 'all binary64 rates including NaN and infinities, all trace ids up to 128 bit',
     'Tests check three rates with boundary ids.', [J + 'sampler.py'], [('ProbabilisticSampler', J + 'sampler.py')], ['Sampler.is_sampled'],
     'exact IEEE-754 and integer semantics')
prop('C13', 'Rate limiter never exceeds its budget in any window',
     '''For any history of calls at non-decreasing times, the total cost admitted by a rate limiter in any time window never exceeds the maximum balance plus the rate times the length of the
     window, including across rate updates at the higher of the rates; a rejected call costs nothing. Hence a rate-limiting sampler admits at most max(rate,1) + rate * window traces.''',
     ['histories', 'inputs'], 'call times (arbitrary non-decreasing reals), costs, rates, initial balance; histories up to the stated number of calls, plus an inductive step from any valid balance',
     'Tests drive three fixed timestamps.', [J + 'rate_limiter.py', J + 'sampler.py'], [('RateLimiter', J + 'rate_limiter.py'), ('RateLimitingSampler', J + 'sampler.py')],
     ['RateLimiter.check_credit', 'Sampler.is_sampled'], 'exact real arithmetic (floats as reals), times and rates symbolic',
     state=[('balance', 'credits available', J + 'rate_limiter.py')])
prop('C14', 'Rate limiter accrues credit and rescales on update',
     '''A rate limiter admits a call of cost c <= max balance whenever at least c divided by the rate seconds have passed since the previous call, and its initial balance is at most the maximum; changing the rate keeps the
     fraction of the balance that is filled, credits the time before the change at the old rate, and never raises an error or loses the limiter for any sequence of valid rates.''',
     ['histories', 'inputs'], 'call times, rates, update positions; inductive step from any valid state',
     'Tests use fixed numbers.', [J + 'rate_limiter.py', J + 'sampler.py'], [('RateLimiter.update', J + 'rate_limiter.py'), ('RateLimitingSampler.update', J + 'sampler.py')],
     ['RateLimiter.check_credit', 'RateLimiter.update'], 'exact real arithmetic')
prop('C15', 'Per-operation sampler: lower bound, limits and tags',
     '''The per-operation sampler samples a trace of a known operation iff the operation's probabilistic rule accepts it or its lower-bound limiter has credit, consuming lower-bound credit in both cases, and tags
     probabilistic decisions as such and the others as lower bound. It never tracks more operations on its own than its maximum, using the default probability for the rest, and operations do not influence each other.''',
     ['histories', 'inputs'], 'sequences of operations and trace ids, strategies with symbolic rates, limiter credit, maximum size',
     'Tests use two operations with fixed rates.', [J + 'sampler.py'], [('GuaranteedThroughputProbabilisticSampler', J + 'sampler.py'), ('AdaptiveSampler', J + 'sampler.py')],
     ['Sampler.is_sampled'], 'operation choice, ids, rates and credit symbolic within bounds')
prop('C16', 'Remote sampler survives any agent response',
     '''Whatever the agent answers to a sampling request (an error, a body that is not JSON, or any JSON document), the remotely controlled sampler keeps answering sampling queries without raising; a valid strategy takes effect
     exactly, an invalid one leaves the decisions as they were. Each response is counted exactly once as retrieved or failed, and each failed or effective update once.''',
     ['inputs', 'fault_sequences', 'histories'], 'responses: failures, invalid text, JSON documents built from the strategy schema with arbitrary values at every position; two consecutive responses',
     'Tests feed a handful of responses.', [J + 'sampler.py'], [('RemoteControlledSampler._sampling_request_callback', J + 'sampler.py'), ('AdaptiveSampler.update', J + 'sampler.py')],
     ['Sampler.is_sampled', 'metrics'], 'JSON shapes enumerated by the solver within the schema bound, numbers symbolic')
prop('C17', 'Debug-span throttling never spends more than the agent granted',
     '''For each operation the number of debug spans allowed never exceeds the credits granted for it by the agent, whatever the interleaving of requests, responses and concurrent callers; a call with at least one credit left is allowed; unknown operations are refused and become known to
     the next credit request. Malformed responses are counted as failures and never raise into the application.''',
     ['histories', 'schedules', 'inputs'], 'sequences of is-allowed calls and responses with symbolic balances; two or three threads under every schedule within the preemption bound',
     'Tests use one thread and fixed balances.', [J + 'throttler.py'], [('RemoteThrottler', J + 'throttler.py')], ['RemoteThrottler.is_allowed', 'metrics'],
     'balances symbolic; thread schedules solver-chosen within a preemption bound', state=[('credits', 'remaining credits per operation', J + 'throttler.py')])
prop('C18', 'Sampling-priority tag switches sampling as documented',
     '''Setting the sampling priority tag to a positive number makes the span sampled and debug when debug spans are allowed, and zero clears both flags; when debugging is refused or the value is not a
     number the flags are unchanged. No value makes the call raise, and repeating a positive priority on a debug span asks the throttler no more and adds no second tag.''',
     ['inputs', 'histories'], 'all integers, floats, booleans, strings, None and containers as value; initial flags; throttler decision; sequences of two calls',
     'Tests set 1, 0 and one string.', [J + 'span.py'], [('Span.set_tag', J + 'span.py')], ['Span.set_tag', 'Span.is_sampled', 'Span.is_debug'], 'values symbolic per kind')
prop('C19', 'A sampled span is reported exactly once',
     '''However many times and from however many threads finish is called, a sampled span reaches the reporter exactly once, with the end time of the call that won, and the finished counter is incremented once; an unsampled span never
     reaches it. Using a span as a context manager finishes it once even when the body raises.''',
     ['schedules', 'histories'], 'two to three threads calling finish, all schedules within the preemption bound; explicit and implicit finish times',
     'Tests call finish sequentially.', [J + 'span.py', J + 'tracer.py'], [('Span.finish', J + 'span.py')], ['Span.finish', 'reporter'],
     'thread schedules solver-chosen within a preemption bound', state=[('finished', 'span already finished', J + 'span.py')])
prop('C20', 'Concurrent updates of a span are not lost',
     '''When several threads set tags, log, or set baggage items on one sampled span, every tag, log and baggage item is present afterwards and the flags are those of some sequential order of the calls.
     The batch built for a span never mixes states of two concurrent updates within the span's own fields, and no schedule deadlocks.''',
     ['schedules'], 'two threads with one or two operations each out of tag, log, baggage, priority, name and serialisation; all schedules within the preemption bound',
     'The tests have no concurrent access to one span.', [J + 'span.py', J + 'thrift.py', J + 'span_context.py'], [('Span.update_lock', J + 'span.py')], ['Span.set_tag', 'Span.log_kv', 'Span.set_baggage_item'],
     'thread schedules solver-chosen within a preemption bound')
prop('C21', 'Tag values keep type and value, long text is truncated',
     '''A tag, log field or process tag is recorded with its key and, for booleans, 64-bit integers and floats, its type and value; any other value is recorded as its text, cut to the configured maximum number of
     characters and otherwise unchanged. No value makes recording raise, and tags keep the order in which they were set.''',
     ['inputs', 'configurations'], 'booleans, all integers, all floats, all strings up to the bound, objects whose text conversion fails; maximum lengths',
     'Tests cover a few values.', [J + 'thrift.py', J + 'span.py'], [('make_tag', J + 'thrift.py')], ['Span.set_tag', 'Span.log_kv'], 'values symbolic')
prop('C22', 'Spans are converted to the wire model without loss',
     '''In the submitted batch a span's trace id equals high * 2^64 + low, span and parent ids are the same 64-bit patterns (0 for no parent), references carry their kind, trace and span ids in order, start time and duration are the recorded
     times in microseconds truncated, and flags, name, tags and logs are those of the span.''',
     ['inputs'], 'all 128-bit trace ids, 64-bit ids, flags, times; up to two references', 'Tests convert a few ids.', [J + 'thrift.py'], [('make_jaeger_batch', J + 'thrift.py'), ('id_to_int', J + 'thrift.py')],
     ['agent batch'], 'ids full width, times as exact binary64')
prop('C23', 'Each batch is one decodable datagram, and failures stay isolated',
     '''Every successfully submitted batch leaves as exactly one datagram that decodes to that batch and nothing else, whatever ids, flags and tag values its spans have; when building or sending one batch
     fails, the following batches are unaffected. An odd id, flag, name or tag value of one span never prevents the other spans of its batch from being sent.''',
     ['inputs', 'fault_sequences'], 'symbolic ids, flags, integer and float tag values of any size; a failure at any send; two consecutive batches',
     'Tests mock the transport.', [J + 'reporter.py', J + 'thrift.py', J + 'local_agent_net.py', J + 'TUDPTransport.py'], [('Reporter._send', J + 'reporter.py'), ('LocalAgentSender', J + 'local_agent_net.py')],
     ['UDP socket'], 'the thrift compact encoder is executed symbolically too')
prop('C24', 'Reporter accounts for every span exactly once',
     '''Every span handed to the reporter is counted exactly once as sent, failed or dropped; spans leave in the order reported, in batches no larger than configured, a span is only dropped when the queue is full or the reporter
     was closed before, and a send failure never stops later spans. After close completes every earlier span has been sent, failed or dropped, and later spans are dropped.''',
     ['schedules', 'fault_sequences', 'configurations'], 'batch size, queue capacity, flush interval, number and position of spans, send failures and delays, position of close, all symbolic within the bound',
     'Tests run a few fixed scenarios.', [J + 'reporter.py', J + 'ioloop_util.py'], [('Reporter._consume_queue', J + 'reporter.py'), ('Reporter._flush', J + 'reporter.py')],
     ['agent batches', 'metrics', 'Reporter.close future'], 'real tornado queue and coroutines on a deterministic loop; events chosen by the solver',
     state=[('queue', 'spans waiting', J + 'reporter.py'), ('stopped', 'close was called', J + 'reporter.py')])
prop('C25', 'Composite reporter fans out to every reporter',
     '''A composite reporter delivers every span and the process description to each of its reporters once and in order, and its close completes when and only when every reporter's close has completed, in whatever order they complete.''',
     ['schedules', 'configurations'], 'zero to three reporters, all completion orders, immediate or later completion', 'Tests use two reporters completing in order.',
     [J + 'reporter.py'], [('CompositeReporter', J + 'reporter.py')], ['CompositeReporter.close'], 'completion order chosen by the solver')
prop('C26', 'Configuration is resolved as documented',
     '''Every documented option has its documented default, takes the configured value when given (also as text where the option is boolean or numeric), explicit configuration winning over environment variables and those over
     defaults; reading the configuration never changes the supplied dictionary. With validation on, exactly the documented keys are accepted.''',
     ['configurations'], 'presence and symbolic values of each option and of the environment variables', 'Tests set a few options each.', [J + 'config.py', J + 'utils.py'], [('Config', J + 'config.py'), ('get_boolean', J + 'utils.py')],
     ['Config properties', 'Config.create_tracer'], 'presence flags and values symbolic per option')
prop('C27', 'Only one global tracer is ever initialised',
     '''Among any number of concurrent or repeated initialisation calls exactly one creates a tracer and installs it globally; all others return nothing and create no tracer, reporter or channel.''',
     ['schedules', 'histories'], 'two or three threads, all schedules within the preemption bound', 'Tests call it twice in one thread.', [J + 'config.py'], [('Config.initialize_tracer', J + 'config.py')],
     ['Config.initialize_tracer', 'opentracing global tracer'], 'thread schedules solver-chosen within a preemption bound')
prop('C28', 'Tracer metrics count spans and traces exactly',
     '''Every started span increments exactly one of the started-span counters according to its sampling, every root span additionally exactly one of the trace counters according to started or joined and sampled or not, and every finished sampled span the finished counter;
     distinct metric names or tags never share a counter.''',
     ['inputs', 'histories'], 'sampling decision, parent, RPC kind; metric names and tags', 'Tests check fixed examples.', [J + 'tracer.py', J + 'metrics/metrics.py', J + 'metrics/prometheus.py'], [('Tracer._emit_span_metrics', J + 'tracer.py'), ('LegacyMetricsFactory', J + 'metrics/metrics.py')],
     ['metrics factory'], 'decisions symbolic, names symbolic within length bound')
prop('C29', 'Error reporting is rate-limited',
     '''With a logger configured, at most one error is logged per configured interval and the first error after a quiet interval is logged; without a logger nothing is logged, and reporting never raises.''',
     ['histories', 'inputs'], 'arbitrary non-decreasing clock readings, interval lengths, up to the stated number of errors', 'Tests use two calls.', [J + 'utils.py'], [('ErrorReporter.error', J + 'utils.py')], ['logger'],
     'clock and interval symbolic')
prop('C30', 'Work submitted to the event loop always completes its future',
     '''A future returned for work submitted to the event loop completes with the result or the exception of that work, whether it is a plain function or a coroutine, succeeds or fails, now or later, and exactly once.''',
     ['schedules', 'fault_sequences'], 'plain or asynchronous work, result or exception, completion immediately or later', 'No test covers failing work.', [J + 'ioloop_util.py'], [('submit', J + 'ioloop_util.py')], ['returned future'],
     'outcome and timing chosen by the solver')
prop('C31', 'Closing a tracer stops all background polling',
     '''After a tracer is closed its remote sampler and throttler start no further polling and issue no further periodic requests, whether close happens before, between or after the start-up steps of the pollers; before close each
     poller polls once per configured interval. Close completes even when it is called twice.''',
     ['histories', 'schedules'], 'position of close among start-up callbacks and timer ticks; interval values; initial random delay', 'Tests close only after start.', [J + 'sampler.py', J + 'throttler.py', J + 'tracer.py'],
     [('RemoteControlledSampler.close', J + 'sampler.py'), ('RemoteThrottler.close', J + 'throttler.py'), ('Tracer.close', J + 'tracer.py')], ['agent requests'], 'event order chosen by the solver')

prop('C32', 'Every batch describes the process that sent it',
     '''Every batch carries the service name and a process description with exactly one tag each for the client version, the host name and the address (unless the application supplies its own, and the host name only if it can be
     determined), the client id given to the throttler when there is one, and every tag of the application with its value and type, texts cut to the configured length. Failing host name lookups are no error; a name that leads
     to a loopback address is replaced by the address of the first network interface that has one, else by that of the default route. Tags given by the application are never changed nor shared between tracers.''',
     ['inputs', 'configurations', 'fault_sequences'], 'service names, tag texts, numbers, maximum lengths, client ids; lookup outcomes', 'Tests check fixed tags on one host.', [J + 'tracer.py', J + 'thrift.py', J + 'utils.py', J + 'reporter.py'],
     [('Tracer.__init__', J + 'tracer.py'), ('make_process', J + 'thrift.py'), ('local_ip', J + 'utils.py')], ['batches handed to the sender'], 'texts and numbers symbolic, lookup outcomes chosen')
prop('C33', 'Requests to the agent name the service, client and operations exactly',
     '''A request for a sampling strategy goes to the sampling port and names exactly the service; a request for credits goes to the throttling port and names exactly the service, the client id and each asked operation,
     for names of any Unicode text; addresses are well-formed, nothing of an earlier request remains, the time-out asked for is used and the answer is handed on.''',
     ['inputs', 'histories'], 'service and operation names, client ids, ports', 'Tests use plain names.', [J + 'local_agent_net.py', J + 'sampler.py', J + 'throttler.py'],
     [('LocalAgentHTTP', J + 'local_agent_net.py'), ('LocalAgentSender', J + 'local_agent_net.py')], ['addresses given to the HTTP client'], 'names symbolic within length bound')
prop('C34', 'Formats, carriers and codecs are dispatched as documented',
     '''Injection and extraction with a format that is not supported fail with UnsupportedFormatException, with a carrier of the wrong kind with InvalidCarrierException, and injection of anything that is neither a span nor a span
     context with ValueError, leaving the carrier as it was; a span is written exactly as its current context, and carriers, spans and contexts of derived classes are accepted. Codecs supplied by the application are used for their format with exactly the context and carrier given, their answer is returned
     unchanged, and neither other formats nor other tracers are affected.''',
     ['inputs', 'configurations'], 'format names, kinds of carriers and objects, ids and flags', 'Tests use one bad value each.', [J + 'tracer.py', J + 'codecs.py'],
     [('Tracer.inject', J + 'tracer.py'), ('Tracer.extract', J + 'tracer.py')], ['Tracer.inject', 'Tracer.extract'], 'format names and ids symbolic, wrong values enumerated')
prop('C35', 'Errors leaving a span are recorded and passed on',
     '''An error leaving a block entered through a span or a scope goes on unchanged; a sampled span records the error tag and exactly one log with the event, message, object, kind and stack, cut to the configured lengths, at the current time, an
     unsampled one nothing; the span is finished unless the scope does not finish it, and the previously active span is active again. Each of the log calls, the deprecated ones included, records exactly one log with exactly its
     fields at the given or current time, and every update returns the span.''',
     ['inputs', 'histories'], 'messages, payloads, flags, times, lengths; kinds of errors and blocks', 'Tests raise one fixed error.', [J + 'span.py', J + 'thrift.py', J + 'tracer.py'],
     [('Span.log_kv', J + 'span.py'), ('Span.error', J + 'span.py'), ('make_log', J + 'thrift.py')], ['tags and logs of the span', 'reporter'], 'texts, flags, lengths and times symbolic')

prop('C36', 'In-memory and logging reporters show exactly the reported spans',
     '''An in-memory reporter keeps every span handed to it exactly once, in the order reported and without limit, also when several threads report; each list it hands out belongs to the caller and shows the spans reported before. The logging
     reporter logs exactly one record for each reported span, which names its trace, span and parent id, flags, service and operation, to the given logger or else to that of the library; the null reporter ignores every span. Closing any of
     them completes and loses nothing.''',
     ['inputs', 'schedules'], 'histories of calls, ids, flags and names; schedules', 'Tests report one span.', [J + 'reporter.py', J + 'span.py'],
     [('InMemoryReporter.report_span', J + 'reporter.py'), ('InMemoryReporter.get_spans', J + 'reporter.py'), ('LoggingReporter.report_span', J + 'reporter.py')],
     ['get_spans', 'records of the logger'], 'histories of 4 calls, 2 threads, ids and names symbolic')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    have = {}
    for n in sorted(os.listdir(os.path.join(HERE, 'harness'))):
        if n[0] == 'c' and n[1:3].isdigit() and n.endswith('.py'):
            have[n.split('_')[0].upper()] = n
    checks, na = [], []
    for p in P:
        if p['id'] in have:
            checks.append(dict(property=p['id'], quick_cmd='bin/check %s' % p['id'],
                               thorough_cmd='VERIF_TIER=thorough bin/check %s' % p['id'],
                               technique='symbolic execution of the real Python code with an SMT solver (z3), counterexamples replayed on the unmodified code',
                               level='model_checking',
                               level_note='Bounded: ' + p['_note'] + '; bounds, stubs and assumptions are in harness/%s and in the evidence. '
                               'Trusts z3, the models of builtins in vf/ (validated on each run by replaying path witnesses on the real code).' % have[p['id']]))
        else:
            na.append(dict(property=p['id'], reason=p['_na'] or 'check not built yet'))
    m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
             notes='See DESIGN.md. No hooks in /repo are needed.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']
    print(len(P), 'properties', len(checks), 'claimed')


main()
