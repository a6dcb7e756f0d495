"""Which harness decides which property, under which build, and what it must observe."""
PARSER_SRC = ['http_parser', 'http_message', 'http_types', 'algorithm']

NET_SRC = ['tcp_server', 'tcp_timer', 'scheduler', 'admin_rights', 'logger', 'http_reader', 'http_writer', 'http_parser',
           'http_message', 'http_types', 'algorithm']

HARNESS = {
    'parser': {'main': ['h/parser.cpp'], 'src': PARSER_SRC},
    'message': {'main': ['h/message.cpp'], 'src': NET_SRC},
    'sched': {'main': ['h/sched.cpp'], 'src': ['scheduler', 'logger']},
    'plugin': {'main': ['h/plugin.cpp'], 'src': ['plugin', 'logger'],
               'so': [{'src': 'h/plug_so.cpp', 'name': n + '.so', 'extra': ['-DNAME=' + n] + e} for n, e in (
                   ('plugA', ['-DWITH_CREATE', '-DWITH_DESTROY']), ('plugB', ['-DWITH_CREATE', '-DWITH_DESTROY']),
                   ('plugC', ['-DWITH_CREATE', '-DWITH_DESTROY']), ('plugNoCreate', ['-DWITH_DESTROY']),
                   ('plugNoDestroy', ['-DWITH_CREATE']))]},
    'proc': {'main': ['h/proc.cpp'], 'src': ['process', 'admin_rights', 'logger']},
    'tcp': {'main': ['h/tcp.cpp'], 'src': NET_SRC},
    'conn': {'main': ['h/conn.cpp'], 'src': NET_SRC},
    'client': {'main': ['h/client.cpp'], 'src': NET_SRC},
    'http': {'main': ['h/http.cpp'], 'src': NET_SRC + ['http_server']},
    'auth': {'main': ['h/auth.cpp'], 'src': NET_SRC + ['http_server', 'http_auth', 'http_basic_auth', 'http_cookie_auth']},
    'files': {'main': ['h/files.cpp'], 'src': NET_SRC + ['http_server', 'http_plugin_server', 'http_auth', 'http_basic_auth', 'http_cookie_auth', 'plugin'],
              'services': ['FileService']},
    'services': {'main': ['h/services.cpp'], 'src': NET_SRC + ['http_server', 'http_plugin_server', 'http_auth', 'http_basic_auth', 'http_cookie_auth', 'plugin'],
                 'services': ['EchoService', 'CookieService', 'HelloService', 'AllowNothingService', 'FileService']},
    'piond': {'main': ['h/piond.cpp'], 'programs': [('utils/piond.cpp', ['-Dmain=piond_main']), ('utils/helloserver.cpp', ['-Dmain=helloserver_main'])],
              'src': NET_SRC + ['http_server', 'http_plugin_server', 'http_auth', 'http_basic_auth', 'http_cookie_auth', 'plugin', 'process'],
              'so': [{'src': '/repo/services/%s.cpp' % n, 'name': n + '.so'} for n in ('EchoService', 'CookieService', 'HelloService', 'AllowNothingService', 'FileService')]},
    'config': {'main': ['h/config.cpp'], 'src': NET_SRC + ['http_server', 'http_plugin_server', 'http_auth', 'http_basic_auth', 'http_cookie_auth', 'plugin'],
               'so': [{'src': 'h/svc_so.cpp', 'name': n + '.so', 'extra': ['-DNAME=' + n]} for n in ('CfgOne', 'CfgTwo', 'CfgThree')]},
    'errors': {'main': ['h/errors.cpp'], 'src': NET_SRC + ['http_server', 'http_plugin_server', 'http_auth', 'http_basic_auth', 'http_cookie_auth', 'plugin'], 'services': ['FileService'],
               'so': [{'src': 'h/plug_so.cpp', 'name': n + '.so', 'extra': ['-DNAME=' + n] + e} for n, e in (('plugA', ['-DWITH_CREATE', '-DWITH_DESTROY']), ('plugB', ['-DWITH_CREATE', '-DWITH_DESTROY']),
                   ('plugNoCreate', ['-DWITH_DESTROY']), ('plugNoDestroy', ['-DWITH_CREATE']))]},
    'codec': {'main': ['h/codec.cpp'], 'src': PARSER_SRC},
    'spdy': {'main': ['h/spdy.cpp'], 'src': ['spdy_parser', 'spdy_decompressor', 'algorithm', 'logger']},
}

SAN = 'real code built with AddressSanitizer + UndefinedBehaviorSanitizer, '
NOTE = 'Seeded random and boundary workloads over the real code; held means no monitor fired on anything executed, not a proof for all inputs. '

PROPS = {}


def P(id, runs, technique, rule, need, note=NOTE, **kw):
    rs = []
    for r in runs.split():
        h, flavor = r.split('/')[:2]
        d = {'h': h, 'flavor': flavor}
        rs.append(d)
    for i, d in enumerate(rs):
        d.update(kw.get('run', {}))
        d.update(kw.get('run%d' % i, {}))
    PROPS[id] = {'runs': rs, 'technique': technique, 'rule': rule, 'need': need, 'note': note,
                 'assumptions': kw.get('assumptions', [])}


P('P01', 'parser/asan', SAN + 'hostile byte workloads, fragment and callback schedules; CPU-time watchdog for runaway parsing',
  'Messages from a grammar, mutated (bytes, lengths, lines, splices) or random, fed in random fragments from exact-size heap blocks '
  'with random limits, callbacks, missing-data and reset calls; distinct = hash of the bytes fed',
  {'bytes_fed': 1000000, 'messages_completed': 1000, 'messages_refused': 1000, 'missing_data_calls': 500, 'parser_resets': 500, 'forms_parsed': 1000, 'pair_parses': 1000, 'uris_parsed': 1000},
  run={'scale': 4})
P('P02', 'parser/asan', SAN + 'differential monitor: one-piece parse against every/random fragmentations of the same bytes',
  'Valid, mutated and random streams; each parsed whole and then cut at every position (short ones) or at random cut sets; distinct = hash of the stream',
  {'split_runs': 10000, 'complete': 1000, 'refused': 1000, 'unfinished': 300}, run={'scale': 5})
P('P03', 'parser/asan', SAN + 'generator-as-oracle: every field of the generated message compared with what the parser reports',
  'Messages built from the HTTP grammar with known fields, random case, spacing and line ends, on fresh and reused parsers; distinct = hash of the bytes',
  {'requests': 1000, 'responses': 1000, 'headers_compared': 10000, 'messages_on_reused_parser': 1000, 'body_chunked': 500, 'body_until_close': 200, 'with_trailers': 200}, run={'scale': 6})
P('P04', 'parser/asan', SAN + 'trace monitor over pipelined streams: message ends compared with the generator\'s boundaries; malformed framing must be refused',
  'Sequences of generated messages concatenated, fed in random fragments with content limits, header-only parsing or callbacks; distinct = hash of the stream',
  {'pipelined_messages': 5000, 'bad_framing_refused': 1000, 'over_limit_bodies': 500, 'bodiless_responses': 500, 'payload_handler_messages': 1000}, run={'scale': 6})
P('P05', 'parser/asan', SAN + 'boundary workload around each limit with an accept/refuse and stored-bytes oracle',
  'Each field at limit-1, limit, limit+1 and far beyond; contents around random content limits in all framings; distinct = (field, length, limit, framing)',
  {'above_limit': 20, 'at_or_below_limit': 20, 'bodies_cut': 500, 'bodies_kept': 500, 'pair_limits_checked': 20, 'default_limits_checked': 10}, run={'scale': 6})
P('P06', 'parser/asan', SAN + 'fault injection: stream cut at every byte, holes of any length; status and stored bytes checked against what was delivered',
  'Generated messages cut at every or random byte, or with holes inside headers, content or chunks; distinct = hash of (bytes, cut or hole)',
  {'truncations_detected': 2000, 'cut_in_body': 500, 'cut_in_headers': 1000, 'losses_recovered': 500, 'header_losses': 200}, run={'scale': 8})
P('P36', 'parser/asan', SAN + 'exhaustive byte injection with an independent character table: every byte value at the first, an inner and the last place of every part of a message head must be refused with that part\'s error, or accepted and reported unchanged',
  '10 parts x 256 byte values x 3 places in random messages and fragmentations (quick covers all of them several times), numbers of any length, incomplete lines; distinct = (part, byte, place) and text hashes',
  {'malformed_refused': 5000, 'well_formed_accepted': 8000, 'numbers_refused': 1000, 'numbers_accepted': 500, 'incomplete_lines_refused': 1000}, run={'scale': 4})
P('P07', 'message/asan', SAN + 'reference-model monitor: independent implementations of the pair, cookie, form, URI and forwarded-for formats',
  'Strings over the structural alphabets and grammar-built ones with known parts; distinct = hash of the text',
  {'query_pairs': 10000, 'cookies_seen': 5000, 'form_fields': 3000, 'uris_accepted': 1000, 'uris_refused': 500, 'public_address_found': 1000}, run={'scale': 4})
P('P08', 'message/asan', SAN + 'round-trip monitor over written bytes: independent framing check plus read-back comparison',
  'Messages assembled by random setter calls, written, checked byte by byte, read back and written again; sent over real (plain and TLS) connections and received at the other end in random pieces, pipelined, headers only, cut short; distinct = hash of the bytes written',
  {'messages_round_tripped': 3000, 'headers_compared': 10000, 'head_responses': 200, 'messages_received': 5000, 'pipelined_received': 1000, 'messages_sent_and_received': 2000, 'short_messages_reported': 300, 'headers_only_received': 300, 'messages_received_over_tls': 300}, run={'scale': 5})
P('P09', 'codec/asan', SAN + 'reference codecs and round trips; outputs in exact-size blocks so over-writes are seen',
  'All strings up to two bytes, boundary and random strings, mutated encodings; distinct = hash of the text',
  {'base64_roundtrips': 5000, 'base64_rejected': 2000, 'url_decodes': 5000, 'url_roundtrips': 3000, 'data_uri_roundtrips': 1000}, run={'scale': 3})
P('P10', 'codec/asan', SAN + 'output monitor: independent UTF-8 / XML character validator and unescaper run over every result',
  'Random bytes, valid UTF-8 of every plane, and damaged sequences; distinct = hash of the input',
  {'xml_encodes': 10000, 'xml_invalid_runs_replaced': 5000}, run={'scale': 4})
P('P11', 'codec/asan', SAN + 'comparison with the machine representation for every width; byte-exact buffers; termination watchdog',
  'Random bit patterns, all boundary exponents, special values; distinct = hash of the bit pattern',
  {'int_roundtrips': 50000, 'double_subnormal': 500, 'float_subnormal': 500, 'double_nan': 500, 'double_inf': 100, 'quad_roundtrips': 1000}, run={'scale': 6})
P('P12', 'message/asan', SAN + 'model-based monitor: a plain reference message follows every operation and all accessors are compared after each',
  'Random sequences of setters, deletes, copies, assignments, clears; distinct = hash of the operation sequence',
  {'operations': 50000, 'state_comparisons': 50000, 'copies': 1000, 'clears': 500}, run={'scale': 4})
P('P13', 'codec/asan', SAN + 'independent calendar computation and decoders run over every generated text',
  'Times over the whole range with calendar boundaries, random parameter sets and cookies; distinct = hash of the text',
  {'dates_checked': 5000, 'query_strings': 3000, 'set_cookies': 3000}, run={'scale': 4})
P('P14', 'spdy/asan', SAN + 'hostile packets in exact-size heap blocks and blocks ending at an inaccessible page (so zlib is watched too); pointer and length invariants checked after every call',
  'Frames with lying counts, lengths and types, damaged or truncated compressed data, sequences sharing one decompressor; distinct = hash of the packets',
  {'frames': 10000, 'refused': 2000, 'finished': 1000, 'continued': 500, 'cuts': 500}, run={'scale': 3})
P('P15', 'spdy/asan', SAN + 'generator-as-oracle: an independent encoder (zlib with the SPDY dictionary, one context per direction) knows what each frame must decode to',
  'Random connections of 1..12 packets with 1..6 frames of all types in both directions; exhaustive first-two-bytes classification; distinct = hash of the frame sequence',
  {'header_frames': 3000, 'headers': 20000, 'data_frames': 1000, 'classifications': 100000, 'non_spdy_refused': 1000, 'invalid_versions_refused': 200, 'short_blocks_refused': 3000, 'lengths_past_end': 500}, run={'scale': 2})
P('P16', 'sched/asan', SAN + 'event-log monitor: one slot per posted task (exactly once), workers seen and concurrently inside, bounded waits confirmed by re-running the case alone',
  'Random scheduler kind, 1..8 workers, 1..6 posting threads, nested posts, throwing and sleeping tasks, restarts; distinct = hash of the observed execution order',
  {'tasks': 20000, 'nested_posts': 1000, 'rounds_with_throwing_tasks': 50, 'rounds_with_parallel_workers': 50, 'full_worker_pools': 50, 'long_idles': 4, 'sleeps': 100},
  run={'shards': 8})
P('P17', 'sched/asan', SAN + 'model-based lifecycle histories and concurrent stress; every call must return (bounded waits, confirmed alone) in the state the model says; idle CPU time measured',
  'Random sequences of start, stop, join, user and post calls, and users racing with repeated shutdowns; distinct = hash of the history or of the observed interleaving counts',
  {'lifecycle_calls': 2000, 'shutdowns_that_waited': 100, 'tasks_after_restart': 200, 'user_rounds': 1000, 'concurrent_shutdowns': 300, 'shutdowns_under_load': 200, 'joins_waiting': 20, 'idle_measurements': 10})
RACE = [('sched', 'P16', None, .5), ('sched', 'P17', None, .5), ('plugin', 'P31', 'threads', 1), ('plugin', 'P32', 'threads', 1), ('proc', 'P35', 'user_threads', 1), ('proc', 'P34', 'rights_threads', 1),
        ('tcp', 'P19', None, .3), ('tcp', 'P20', None, .5), ('tcp', 'P21', None, .34), ('http', 'P22', None, .5), ('http', 'P23', 'changes', 1), ('http', 'P24', None, .4),
        ('auth', 'P26', 'changes', 1), ('auth', 'P27', 'many', 1), ('files', 'P29', 'crowd', 1), ('config', 'P33', None, 1), ('client', 'P39', None, .5)]
P('P18', ' '.join(h + '/tsan' for h, _, _, _ in RACE), 'real code built with ThreadSanitizer (happens-before race detector, lock-order and mutex-misuse checks) under the concurrent workloads of the other monitors; only its reports, crashes and confirmed hangs decide',
  'The concurrent workloads of the scheduler, plug-in, user, privilege, TCP, TLS, timer, HTTP, authentication, file-service and configuration monitors on 1..8 worker threads with administrative calls racing with requests and repeated start/stop; distinct = union of their case hashes',
  {'tasks': 20000, 'user_rounds': 5000, 'concurrent_shutdowns': 1000, 'threaded_opens': 20000, 'contended_identifiers': 1000, 'contended_names': 5000, 'threaded_acquisitions': 1000, 'connections': 1000, 'lifecycle_races': 30, 'tls_rounds': 30,
   'conversations': 200, 'timeout_rounds': 5, 'requests': 2000, 'requests_during_changes': 1000, 'handler_exceptions': 100, 'disconnects': 100, 'decisions_after_changes': 50, 'logins': 100, 'concurrent_gets': 1000, 'accepted': 200},
  note=NOTE + 'A happens-before detector reports every pair of conflicting accesses it sees unordered, also when they did not collide in this run, but only between accesses that were executed. ',
  assumptions=['boost::call_once is replaced by an equivalent whose synchronisation the detector can see (the installed libboost_thread is not instrumented)'],
  **dict(('run%d' % i, dict({'as': a, 'scale': 3 * sc, 'thorough_scale': sc, 'san_only': True}, **({'args': ['--scenario', n]} if n else {}))) for i, (_, a, n, sc) in enumerate(RACE)))
P('P31', 'plugin/asan', SAN + 'libraries that report load, unload, create and destroy to the host; a reference-count model is compared with those events after every step',
  'Random histories of open (by name, path, file), copy, assign, close, create, destroy over three libraries, a static plug-in and unsuitable ones, alone and from several threads; distinct = hash of the history',
  {'steps': 5000, 'opens': 1000, 'opens_of_loaded_library': 200, 'self_assignments': 50, 'failed_opens': 300, 'objects_created': 500, 'threaded_opens': 2000, 'files_found': 300, 'instances': 300, 'instance_failures': 200})
P('P32', 'plugin/asan', SAN + 'model-based monitor: an ordinary map follows every operation; live-object registry checks destruction exactly once',
  'Random histories over path-like identifiers chosen around the separator in sort order; contending threads; distinct = hash of the history',
  {'operations': 10000, 'finds_matched': 500, 'finds_unmatched': 200, 'duplicates_refused': 100, 'removes': 500, 'replaces': 50, 'loads': 300, 'contended_identifiers': 200})
P('P34', 'proc/asan', SAN + 'forked histories with waiters, requesters and signals delivered at injected points; identity calls replaced by stand-ins over a kernel model',
  'Random numbers of waiters and requesters, signals to process or thread or while a lock is held; random user ids and acquisition failures, several holders; generated user and group files; forked callers of daemonize with random descriptors, limits and masks; distinct = hash of the history',
  {'shutdown_histories': 1000, 'waiters_released': 2000, 'signals_delivered': 500, 'rights_acquired': 3000, 'rights_refused': 1000, 'second_releases_with_other_holder': 300, 'large_user_ids': 1000, 'threaded_acquisitions': 2000, 'ids_switched': 500, 'unknown_names': 200, 'daemons': 50},
  assumptions=['seteuid and friends and the system files are stand-ins: the real identity of the process is never changed'])
P('P35', 'proc/asan', SAN + 'model-based monitor: a map of names to independently computed digests follows every operation; competing threads with one-winner accounting',
  'Random histories over similar names and passwords (prefixes, case, embedded zeros, digests as passwords) with clear and pre-hashed passwords, valid and malformed; distinct = hash of the history',
  {'histories': 3000, 'verified': 5000, 'not_verified': 5000, 'bad_hashes_refused': 1000, 'sha1_hashes': 1000, 'sha256_hashes': 1000, 'contended_names': 2000})
P('P19', 'tcp/asan', SAN + 'trace monitor over the handler calls and finishes of every connection, with injected lock delays and accept failures; client-side and reported state compared',
  'Random numbers of plain and TLS clients with random step sequences and abrupt ends, several start/stop cycles, stops with open connections, busy ports, changed addresses, ports and encryption between starts, concurrent lifecycle calls; distinct = hash of the case history',
  {'connections': 500, 'handler_calls': 1000, 'orderly_connections': 300, 'abrupt_ends': 50, 'stops_with_connections': 200, 'waiting_stops': 50, 'bind_failures': 50, 'lifecycle_races': 40, 'failed_handshakes': 50, 'tls_rounds': 10, 'accept_fault_rounds': 20, 'reconfigurations': 200, 'reconfigured_connections': 300, 'old_addresses_refused': 100}, run={'scale': 3})
P('P20', 'tcp/asan', SAN + 'position-coded byte sequences compared at the reading end, with injected lock delays and spurious condition wake-ups (which POSIX permits); resets and early closes by an outside peer',
  'Alternating blocks of sizes around the buffer boundaries through random put/write/flush and get/read/peek/getline/put-back calls, plain and TLS; distinct = hash of the block sizes',
  {'conversations': 300, 'tls_conversations': 50, 'stream_writes': 3000, 'stream_reads': 5000, 'stream_put_backs': 1000, 'put_backs_after_end': 100, 'stream_ends_seen': 200, 'peer_resets': 30, 'peer_early_closes': 20, 'failed_writes_reported': 100}, run={'scale': 4})
P('P21', 'tcp/asan', SAN + 'timed traces: every client records when it last sent and when the connection ended; both bounds compared with the configured timeout, waits confirmed by running the case again',
  'Requests and responses cut into pieces with gaps inside the timeout, stalled at random bytes, idle, pipelined, kept alive; timeouts none, 1 s, 2 s and the default; timers that expire while the only worker is busy and are cancelled by data that came in time; distinct = hash of the case',
  {'timeout_rounds': 10, 'idle_timeouts': 20, 'stalled_timeouts': 50, 'keepalive_timeouts': 50, 'untimed_complete': 20, 'stalled_responses_ended': 50, 'slow_responses_complete': 50, 'late_cancels': 40, 'expired_timers': 20})

P('P22', 'http/asan', SAN + 'trace monitor: every request carries an identity that the handler records and echoes; an independent client checks one response per request, in order, with that identity, under injected lock delays',
  'Random concurrent clients, pipelining depths, fragmentation, methods, connection headers and handlers (immediate, delayed, chunked, large, throwing, missing), plain and TLS; distinct = hash of the request texts',
  {'requests': 2000, 'responses': 2000, 'pipelined_batches': 200, 'closed_by_server': 200, 'head_requests': 50, 'chunked_responses': 50, 'tls_rounds': 5, 'half_closed_clients': 10})
P('P23', 'http/asan', SAN + 'reference-model monitor: an independent longest-prefix and redirect resolver over the registered set; changes raced with requests and checked against the sets current during the request',
  'Random resource sets and redirect graphs over names around the separator in sort order; distinct = hash of the tables and request',
  {'matched': 500, 'not_found': 300, 'redirect_cycles': 30, 'redirects_followed': 100, 'registrations': 500, 'removals': 100, 'requests_during_changes': 300, 'clears': 20, 'long_chains_followed': 20})
P('P24', 'http/asan', SAN + 'fault injection (malformed requests, disconnects at random bytes, throwing handlers) while a well-behaved client checks every answer; connection count and later service checked',
  'Random mixes of attackers against a random server, plain and TLS; handlers of one\'s own for malformed, unmatched and failing requests with a log of their calls; distinct = case',
  {'malformed_answered': 100, 'handler_exceptions': 100, 'disconnects': 100, 'disconnects_in_response': 20, 'garbage_requests': 50, 'steady_requests': 1000, 'custom_bad': 5, 'custom_missing': 30, 'custom_error': 30})
P('P25', 'http/asan', SAN + 'wire monitor: an independent HTTP reader compares the bytes received with the concatenated writes; allocated memory measured over long streams',
  'Random sequences of text, binary, copied and referenced writes, whole or chunked, to HTTP/1.0, HTTP/1.1 and HEAD requests, and requests to an outside server; distinct = hash of the content and mode',
  {'messages_written': 500, 'chunked_messages': 100, 'bodiless_messages': 50, 'http10_messages': 20, 'requests_written': 200, 'long_streams': 4})
P('P26', 'auth/asan', SAN + 'model-based monitor: an independent decision (paths, credentials, current users) for every request of a history, with the handler\'s calls counted; users changed concurrently with requests',
  'Random restricted and permitted paths, redirects, user histories and authorization headers (valid, old, altered, malformed); distinct = hash of the history',
  {'admitted': 300, 'refused': 1000, 'malformed_refused': 200, 'wrong_credentials_refused': 300, 'open_requests': 1000, 'password_changes': 100, 'user_removals': 100, 'requests_during_changes': 1000, 'decisions_after_changes': 100, 'users_changed_by_hash': 50})
P('P27', 'auth/asan', SAN + 'model-based monitor: the set of live sessions with their last use follows every login, logout, request and step of an interposed clock; concurrent logins checked for uniqueness and ownership',
  'Random histories with issued, ended, altered and forged cookies, hostile redirect targets and time steps; distinct = hash of the history',
  {'logins': 500, 'failed_logins': 100, 'logouts': 100, 'admitted': 500, 'refused': 500, 'expired_refused': 20, 'bad_cookies_refused': 200, 'foreign_sessions_refused': 100, 'clock_steps': 200, 'old_sessions_admitted': 20, 'logouts_with_redirect': 200, 'hostile_redirects': 20},
  assumptions=['time() is interposed so that sessions age without waiting'])
P('P28', 'files/asan', SAN + 'file-system monitor: the whole tree is compared before and after every request, every file outside the directory holds a unique token looked for in every answer; an independent path resolver decides what may be touched; the service runs as an unprivileged user',
  'Random directory spellings, options and request paths (dot segments, absolute, encoded, look-alike siblings, control bytes) with every method; distinct = hash of the request sequence',
  {'refused_outside': 1000, 'inside': 1000, 'files_read': 200, 'files_changed': 100, 'tls_rounds': 3},
  run={"scale": 5}, assumptions=['symbolic links inside the directory are followed; none are placed there'])
P('P29', 'files/asan', SAN + 'model-based monitor: the bytes, date and type of every file (or of the cached copy the documented rules allow) compared with each answer; files changed, replaced, removed and made unreadable between requests; concurrent readers',
  'Random cache, scan and chunk settings, contents around chunk boundaries, change histories; distinct = hash of requests and contents',
  {'gets': 3000, 'heads': 500, 'not_modified': 300, 'not_found': 100, 'chunked_gets': 300, 'served_from_cache': 100, 'changes': 300, 'removals': 50, 'replacements': 50, 'unreadable': 30, 'empty_files': 50, 'concurrent_gets': 1000, 'cache_0': 10, 'cache_1': 10, 'cache_2': 10, 'scan_0': 10, 'scan_1': 10, 'scan_2': 10, 'scan_3': 10})
P('P30', 'files/asan', SAN + 'model-based monitor: the whole tree compared with a model after every operation, under permission changes, size limits and full files',
  'Random histories of PUT, POST, DELETE and GET, whole and chunked, over present, missing, read-only and directory targets; distinct = hash of the requests',
  {'puts': 500, 'posts': 200, 'deletions': 100, 'created': 200, 'refused': 300, 'not_permitted': 50, 'too_large': 20, 'disk_full': 10, 'read_only_refused': 50, 'chunked_uploads': 200})
P('P33', 'config/asan', SAN + 'model-based monitor: service libraries report every creation, option, start and destruction to the host; the event log, the access decisions of the running server and accept/refuse are compared with an independent reading of the file',
  'Generated configurations (all directives, random case, separators, line ends, comments, missing final line end) with or without one invalid part; distinct = hash of the text',
  {'accepted': 500, 'refused': 200, 'directives': 2000, 'options': 300, 'no_final_newline': 50, 'served': 500, 'protected': 200, 'logins': 50}, run={'scale': 15})
P('P37', 'services/asan', SAN + 'generator-as-oracle over real connections: each echoed section compared with what the request said; cookie pages read with an independent tag reader and compared with the page\'s own structure; header set of every response checked',
  'Random requests (methods, redirected resources, queries, forms, headers, cookies, plain and chunked contents, users, plain and TLS, pieces); hostile cookie names, values, resources and actions; concurrent pipelined requests for the fixed answers; distinct = hash of the requests',
  {'requests_echoed': 1000, 'redirects_echoed': 200, 'headers_echoed': 2000, 'queries_echoed': 1000, 'cookies_echoed': 500, 'contents_echoed': 300, 'users_echoed': 300, 'cookie_pages': 1000, 'cookies_added': 200, 'cookies_deleted': 50, 'cookies_refused': 200, 'cookies_listed': 500, 'hellos': 500, 'refusals': 500}, run={'scale': 3})

P('P38', 'piond/asan', SAN + 'the programs themselves as processes of their own, with independent clients: every command line is either served exactly or refused, signals are sent at random moments and in random connection states, and each process has to end by itself, with the right status and without a sanitizer report',
  'Command lines (resource and service or configuration file, options in any order, libraries in any of the searched directories, TLS or not), 18 kinds of wrong ones, ignored and ending signals since the start of the process, clients idle, silent, inside headers or content, not reading, hanging up; distinct = hash of the command line',
  {'piond_started': 100, 'answers_checked': 250, 'clean_ends': 150, 'refused': 100, 'usage_shown': 20, 'tls_started': 15, 'configured': 40, 'after_signal_handlers': 20, 'greetings': 500, 'ignored_signals': 80, 'connections_at_the_end': 150})

P('P39', 'client/asan', SAN + 'generator-as-oracle on both ends of real connections: a scripted peer, independent of the library, knows what it sent and what it was sent; a call log of the handlers (order, number, message, connection state) is compared with the script',
  'Chains of 1..5 requests and responses of every framing, one by one or pipelined, plain and TLS, in random pieces, requests composed in four ways; the last message complete, cut at any byte, reset, silent or malformed; distinct = hash of the messages and the ending',
  {'responses_delivered': 1000, 'requests_received': 1000, 'pipelined_responses': 300, 'chunked_responses': 300, 'responses_over_tls': 150, 'responses_until_close': 40, 'head_responses': 100, 'cut_responses_reported': 80, 'reset_responses_reported': 30, 'silent_responses_reported': 3, 'malformed_responses_reported': 30, 'payload_handlers': 150, 'requests_delivered': 600, 'short_requests': 50, 'chunked_requests_received': 200, 'trailers': 30}, run={'scale': 5})

P('P40', 'services/asan', SAN + 'generator-as-oracle over real connections: status, phrase, header set and page of each refusal compared with what the request and the configuration demand; pages read with an independent tag reader that accepts only balanced pages',
  'Random refused requests (18 kinds from every part that answers by itself) with resources, methods, error texts and file names containing markup, entities, UTF-8 and raw bytes, plain and TLS, kept-alive, in pieces; distinct = hash of the requests',
  {'pages': 2500, 'write_errors': 100, 'pages_with_markup_text': 800, 'heads': 100, 'malformed': 100, 'status_201': 100, 'status_302': 20, 'status_400': 100, 'status_401': 50, 'status_403': 400, 'status_404': 500, 'status_405': 250, 'status_500': 400, 'status_501': 120}, run={'scale': 3})
P('P41', 'conn/asan', SAN + 'position-coded byte sequences compared at the reading end of every overload, completion handlers counted, endpoints compared with those of the peer; name lookups answered by a stand-in so that some addresses of a name are dead',
  'Random half-duplex conversations over every form of connecting, accepting, handshake, reading and writing, plain and TLS; refused, unresolvable and partly dead names, resets, failed handshakes; operations left pending and then cancelled, closed, shut down or ended by the peer; distinct = hash of form and sizes',
  {'transfers': 500, 'tls_transfers': 100, 'reads_and_writes': 5000, 'async_operations': 5000, 'connected_by_name': 40, 'connected_by_endpoint': 40, 'connected_by_address': 40, 'connected_by_async endpoint': 40, 'connected_by_async address': 40, 'closes': 100, 'shutdowns': 100, 'destructions': 100, 'finishes': 100, 'finishes_after_close': 200, 'encrypted_by_handshake': 20,
   'refused': 200, 'unresolvable': 200, 'names_reached_later': 100, 'names_unreached': 80, 'resets': 200, 'failed_handshakes': 200, 'cancelled': 200, 'closed': 200, 'shut_down': 200, 'closed_by_peer': 200, 'used_after_cancel': 100, 'accepts_ended': 200},
  assumptions=['host names are resolved by a stand-in for getaddrinfo; the operating system resolver is not exercised'])
P('P42', 'errors/asan', SAN + 'every provoked error is caught by its exact type, and its text, place and survival (through each base, copies, cloned and re-raised pointers) compared with what the call was given',
  'Random names (markup, formats, control and non-ASCII bytes, long ones) given to 26 kinds of failing calls; errors of an application\'s own and of other kinds; distinct = hash of kind and name',
  dict([('errors_raised', 3000), ('errors_examined', 3000), ('errors_kept', 3000), ('own_errors', 1500)] + [('site_%d' % i, 60) for i in range(26)]))
