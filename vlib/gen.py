#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from spec import PROPS

P = []
def p(id, title, statement, over, qtext, why, files, mech, state='', observe=''):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n.split(' @ ')[0], 'where': n.split(' @ ')[1]} for n in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

PC, PH, MH, MC = 'src/http_parser.cpp', 'include/pion/http/parser.hpp', 'include/pion/http/message.hpp', 'src/http_message.cpp'

p('P01', 'HTTP parsing is memory-safe for every byte sequence',
  'Parsing any sequence of bytes as an HTTP request, response, query string, cookie header, form body or URI never touches memory outside the objects involved, never has undefined behaviour, and always returns control to the caller. This holds however the bytes are cut into fragments, with any content limit, with a payload callback, with data reported missing, and when the parser is reset and reused after success or failure.',
  ['inputs', 'histories'], 'every byte string, every fragmentation, every order of parse / missing-data / finish / reset calls',
  'The tests feed a few dozen well-formed captures; hostile bytes and cut positions are unbounded, and an out-of-bounds read usually goes unnoticed without a sanitizer.',
  [PC, PH, MH, MC],
  [('header state machine', PC + ' parse_headers'), ('chunk state machine', PC + ' parse_chunks'), ('content copy', PC + ' consume_content'), ('form parsing', PC + ' parse_multipart_form_data')])
p('P02', 'HTTP parse results do not depend on how the bytes arrive',
  'For every byte stream, parsing it in one piece and parsing it cut into any sequence of non-empty fragments give the same outcome: same acceptance, refusal or need for more, same error, same method, resource, query, version, status, headers, cookies, query parameters and content, and the same number of bytes consumed.',
  ['inputs', 'schedules'], 'every byte stream (valid or not) and every way to fragment it',
  'A network may cut the stream anywhere; a test fixes a handful of cuts.',
  [PC, PH], [('resumable parse state', PH + ' m_message_parse_state, m_headers_parse_state, m_chunked_content_parse_state'), ('fragment loop', PC + ' parse')])
p('P03', 'Parsed HTTP messages report exactly what was sent',
  'For every syntactically valid HTTP/0.9, 1.0 or 1.1 request or response, the parsed message reports exactly the method, resource, query string, version, status code and message, header names and values (with repeated headers all kept), cookies and content that were on the wire. Optional whitespace, bare-LF line ends and header name case do not change that, and nothing of an earlier message parsed by the same parser leaks into the next one.',
  ['inputs', 'histories'], 'every valid message built from the grammar, including reuse of one parser for many messages',
  'The existing parser tests are not even built here and use fixed captures.',
  [PC, PH, MH, 'include/pion/http/request.hpp', 'include/pion/http/response.hpp'],
  [('header state machine', PC + ' parse_headers'), ('transfer to the message', PC + ' update_message_with_header_data'), ('chunk reassembly', MC + ' concatenate_chunks')])
p('P04', 'HTTP message boundaries are exact',
  'The parser ends each message at precisely its last byte, as determined by Content-Length, chunked encoding with trailers, a bodiless status or HEAD request, or connection close, so pipelined messages on one connection are each recovered intact. This stays true when content exceeds the storage limit, when only headers are parsed, or when content goes to a callback, and a message whose framing is invalid (bad or oversized length, bad chunk syntax) is refused rather than guessed at.',
  ['inputs', 'histories'], 'every sequence of valid messages on one connection and every malformed framing header or chunk line',
  'Framing confusion needs specific combinations of headers, limits and following bytes that no fixed test enumerates.',
  [PC, MH], [('framing decision', PC + ' finish_header_parsing'), ('chunk state machine', PC + ' parse_chunks'), ('length header', MH + ' update_content_length_using_header')])
p('P05', 'HTTP parser size limits are enforced exactly',
  'A method, resource, query string, status text, header name or header value longer than its documented maximum makes the message refused, while one at or below it is accepted unchanged; query and cookie names and values over their maximum make that string refused. Content beyond the content maximum (one megabyte unless configured) is consumed but never stored: the stored content is exactly the leading bytes up to the maximum.',
  ['inputs', 'configurations'], 'every field length around and far beyond each limit, and every content limit setting',
  'Tests contain no message near any limit.',
  [PC, PH], [('limits', PC + ' METHOD_MAX .. COOKIE_VALUE_MAX'), ('content maximum', PC + ' consume_content, parse_chunks')])
p('P06', 'Truncated or lossy HTTP input is reported, not passed off as complete',
  'If the input ends before the end of a message, the message is never reported as complete and valid: it is marked invalid with truncated status and, when cut after its headers, holds the start line, headers, queries and cookies once and exactly the content bytes received (a response delimited by connection close, or a chunked message cut between chunks, excepted). Data reported missing inside content is accounted for byte by byte with filler and marks the message as partial or truncated; data missing inside headers or beyond the current content is refused.',
  ['inputs', 'crash_points', 'fault_sequences'], 'every message cut at every byte, and every placement and length of missing data',
  'A connection can drop after any byte; the tests try a few positions.',
  [PC, MH], [('early end', PC + ' finish'), ('missing data', PC + ' parse_missing_data'), ('status', PC + ' compute_msg_status')])
p('P07', 'Query, cookie, form and URI parsing agree with their specification',
  'For every input, parsing a URL-encoded string, a Cookie or Set-Cookie header, a multipart form, a URI or a forwarded-for header yields exactly the name/value pairs or parts the format defines, with every value of a repeated name kept, and refuses what the format excludes. Repeated parsing of the same text into a fresh dictionary always gives the same result.',
  ['inputs'], 'every generated string over the structural alphabets, valid and malformed',
  'Pairs of separators, quotes and empty parts combine without bound; tests pick a few strings.',
  [PC], [('query pairs', PC + ' parse_url_encoded'), ('cookies', PC + ' parse_cookie_header'), ('forms', PC + ' parse_multipart_form_data'), ('URIs', PC + ' parse_uri'), ('forwarded-for', PC + ' parse_forwarded_for')])
p('P08', 'A written HTTP message reads back as the same message',
  'Writing any request or response to a stream and reading it back gives a message with the same first line, headers and content, and the bytes written are one well-formed message whose length header matches its content. Writing the same message twice produces the same bytes, and a response without a length, read from a stream, is complete where the stream ends. The same holds for messages sent over a connection: received at the other end one by one, in whatever pieces and however close together they arrive, each is the message that was sent, the connection stays open exactly if the message asks for it, and a message cut short is reported.',
  ['inputs', 'histories'], 'every message assembled through the public setters, of any content, in any order of calls',
  'The message tests are not built here; round trips over arbitrary contents are unbounded.',
  [MC, MH, 'include/pion/http/request.hpp', 'include/pion/http/response.hpp'],
  [('stream write and read', MC + ' write, read'), ('send preparation', MH + ' prepare_headers_for_send')])
p('P09', 'Base64, URL and data-URI codecs round-trip and refuse safely',
  'Decoding what was encoded gives back every byte string exactly, encoded output uses only the permitted characters, and base64 and URL encodings match the standard. Decoding arbitrary text never touches memory out of bounds, refuses text outside the base64 alphabet or with a bad length, leaves malformed percent escapes as they are, and never writes more than the caller\'s buffer size.',
  ['inputs'], 'every byte string for encoding and every text for decoding',
  'Tests encode a few fixed strings; off-by-one and sign errors sit at specific byte values and lengths.',
  ['src/algorithm.cpp', PC], [('base64', 'src/algorithm.cpp base64_decode, base64_encode'), ('url', 'src/algorithm.cpp url_decode, url_encode'), ('data URI', PC + ' binary_2base64, base64_2binary')])
p('P10', 'XML escaping always yields well-formed, faithful text',
  'For every byte string the XML-escaped result is valid UTF-8 consisting only of characters XML permits, contains no unescaped markup character, and unescapes to the original wherever the original was valid; each byte that is not part of a valid character is replaced, and no valid character is lost.',
  ['inputs'], 'every byte string, valid UTF-8 or not',
  'UTF-8 error handling has many boundary cases (overlong, surrogate, truncated, out of range) of which tests sample a few.',
  ['src/algorithm.cpp'], [('escaping', 'src/algorithm.cpp xml_encode')])
p('P11', 'Integer and floating-point byte conversions are exact inverses',
  'Every integer and floating-point value converted to its fixed big-endian or IEEE byte form and back is unchanged, with the bytes equal to the standard representation, for every width supported, including zeros of both signs, subnormals, infinities and not-a-number. Conversions always terminate and touch only the bytes of their width.',
  ['inputs'], 'every value of every supported width',
  'Tests convert a few values; the special values and boundary exponents are what go wrong.',
  ['include/pion/algorithm.hpp', 'src/algorithm.cpp'], [('integers', 'include/pion/algorithm.hpp to_uint8 .. from_int64'), ('floats', 'src/algorithm.cpp float_from_bytes, float_to_bytes')])
p('P12', 'HTTP message state always reflects the last changes made to it',
  'After any sequence of operations on an HTTP message (adding, changing, deleting headers, cookies and query parameters; changing method, resource, status, version or content; copying, clearing), every accessor and the generated first line reflect exactly those operations. Header and cookie names compare without regard to case, changing a name leaves exactly one value, adding keeps all values, and a copy is independent of its original.',
  ['histories', 'inputs'], 'every sequence of public operations over any names and values',
  'The tests perform short fixed sequences; caching of the first line and case-insensitive replacement only fail in particular orders.',
  [MH, 'include/pion/hash_map.hpp', 'include/pion/http/request.hpp', 'include/pion/http/response.hpp', MC],
  [('dictionaries', MH + ' add_header, change_header, delete_header, change_value'), ('first line cache', MH + ' get_first_line'), ('case-insensitive hash', 'include/pion/hash_map.hpp')])
p('P13', 'Generated HTTP dates, query strings and Set-Cookie headers are well-formed',
  'For every point in time the HTTP date produced is the RFC 1123 form of that instant in GMT; for every set of query parameters the query string produced decodes back to that set; and for every cookie name, value, path and age the Set-Cookie text produced parses back to that name and value.',
  ['inputs'], 'every time value, parameter set and cookie',
  'Calendar boundaries and reserved characters are unbounded; tests use one or two values.',
  ['src/http_types.cpp'], [('dates', 'src/http_types.cpp get_date_string'), ('query strings', 'src/http_types.cpp make_query_string'), ('cookies', 'src/http_types.cpp make_set_cookie_header')])
p('P14', 'SPDY parsing is memory-safe for every packet',
  'Parsing any bytes as a SPDY packet, in any sequence of packets on a connection, never reads or writes outside the packet and the parser\'s own buffers, never has undefined behaviour and always returns. Malformed, short, oversized or undecompressible frames are refused or skipped without affecting memory.',
  ['inputs', 'histories'], 'every byte string given as a packet and every sequence of packets sharing one decompressor',
  'The tests replay a few captured packets; hostile lengths are unbounded.',
  ['src/spdy_parser.cpp', 'src/spdy_decompressor.cpp', 'include/pion/spdy/parser.hpp'],
  [('frame parsing', 'src/spdy_parser.cpp parse'), ('header blocks', 'src/spdy_parser.cpp parse_header_payload'), ('inflate', 'src/spdy_decompressor.cpp decompress')])
p('P15', 'SPDY frames decode to exactly what they carry',
  'For every well-formed SPDY control or data frame, the parser reports the kind of frame, its stream identifier and size, the end-of-stream mark of data and, for each stream-opening, reply or headers frame with a (version 2 layout) header block, exactly the header names and values that were compressed, across any sequence of frames of a connection in both directions. A header block that ends before its last name or value does is refused and nothing is made up for what it lacks. Data that is not SPDY is recognised as such, and the reported remaining length lets the caller walk consecutive frames of one packet.',
  ['inputs', 'histories'], 'every header set and frame sequence sharing one compression context',
  'The compression context makes each frame depend on all earlier ones; tests replay one short capture.',
  ['src/spdy_parser.cpp', 'src/spdy_decompressor.cpp'],
  [('frame parsing', 'src/spdy_parser.cpp populate_frame, parse_spdy_frame'), ('per-direction contexts', 'src/spdy_decompressor.cpp decompress')])
p('P16', 'The scheduler runs every posted task exactly once',
  'Every unit of work posted to a running scheduler while it has users runs exactly once, on one of its worker threads, whatever the number of threads (configured before it starts), posting threads and interleaving; no more workers run than configured, and a task that throws does not prevent any other task from running. Sleeping through the scheduler waits at least the requested time and is ended early only by an explicit wake-up.',
  ['schedules', 'inputs'], 'every interleaving of posters, workers, starts and stops',
  'Lost or duplicated work depends on thread interleaving, and no scheduler test exists.',
  ['src/scheduler.cpp', 'include/pion/scheduler.hpp'],
  [('posting', 'include/pion/scheduler.hpp post'), ('worker loop', 'src/scheduler.cpp process_service_work'), ('sleep', 'include/pion/scheduler.hpp sleep')])
p('P17', 'Scheduler start, stop and reuse always complete and respect active users',
  'For every history of starting, registering and unregistering users, stopping and restarting from threads other than its own workers, each call returns: shutdown waits until the last user has unregistered, then all workers end and the scheduler can be started again with work running as before. Starting twice or stopping twice has no further effect, and waiting for shutdown returns after shutdown and not before. A running scheduler with nothing to do uses no processor time beyond its periodic keep-alive.',
  ['histories', 'schedules'], 'every sequence and interleaving of lifecycle calls from several threads',
  'Deadlocks and lost wake-ups need particular interleavings; no scheduler test exists.',
  ['src/scheduler.cpp', 'include/pion/scheduler.hpp'],
  [('lifecycle', 'src/scheduler.cpp startup, shutdown, join, stop_services'), ('users', 'src/scheduler.cpp add_active_user, remove_active_user')])
p('P18', 'Concurrent use of the library is free of data races',
  'Schedulers, TCP (plain and TLS) and HTTP servers, connection timers, authentication, user management, administrative rights, the file service and plug-in loading and management can be used from many threads at once as the servers do: while connections are accepted, handled, timed out and closed, resources, users, restrictions, sessions and plug-ins are added and removed, and servers and schedulers are started and stopped, no data race, lock-order inversion, misuse of a lock or use of freed memory occurs.',
  ['schedules', 'histories'], 'every interleaving of handler threads, administrative calls and shutdown',
  'Races are invisible to single runs of functional tests; only a race detector sees them.',
  ['src/scheduler.cpp', 'src/tcp_server.cpp', 'src/http_server.cpp', 'src/http_plugin_server.cpp', 'src/http_basic_auth.cpp', 'src/http_cookie_auth.cpp', 'include/pion/user.hpp', 'include/pion/plugin_manager.hpp', 'src/plugin.cpp'],
  [('server state', 'include/pion/tcp/server.hpp m_mutex'), ('resource tables', 'include/pion/http/server.hpp m_resource_mutex'), ('sessions', 'src/http_cookie_auth.cpp m_mutex')])
p('P19', 'The TCP server handles every connection once and stops cleanly',
  'Every connection accepted by a TCP server is handed to its handler exactly once, is closed exactly once when finished without keep-alive, and the reported number of connections returns to zero when all have finished. Stopping returns with every remaining connection closed or, when asked to wait, after all have finished; the server can then be started again, at another address or port or with encryption switched on or off if those were changed in between, serving exactly there; failing to bind leaves it usable.',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of connects, disconnects, finishes, start and stop',
  'Connection accounting depends on timing between accept, finish and stop; the server tests are not built here.',
  ['src/tcp_server.cpp', 'include/pion/tcp/server.hpp', 'include/pion/tcp/connection.hpp'],
  [('accept loop', 'src/tcp_server.cpp listen, handle_accept'), ('finish', 'src/tcp_server.cpp finish_connection'), ('stop', 'src/tcp_server.cpp stop')])
p('P20', 'TCP streams deliver exactly the bytes written, in order',
  'Bytes written to a TCP stream arrive at the peer\'s stream exactly once and in order, for every mix of write sizes, flushes, reads, putbacks and peers that send in arbitrary pieces; reads block until data or end of stream, and end of stream is seen only after all data. Stream use from one thread never loses data when the peer closes after writing.',
  ['inputs', 'schedules'], 'every sequence of write and read sizes on both ends',
  'Buffer boundary errors need particular sizes and put-back patterns; the stream tests are not built here.',
  ['include/pion/tcp/stream.hpp', 'include/pion/tcp/connection.hpp'],
  [('buffered reads', 'include/pion/tcp/stream.hpp underflow, xsgetn'), ('buffered writes', 'include/pion/tcp/stream.hpp flush_output, xsputn')])
p('P21', 'Idle or stalled HTTP readers time out, active ones never do',
  'A connection that sends nothing, or stops in the middle of a message, is closed once the configured read timeout has passed and never before it; a connection whose data keeps arriving within the timeout is never closed by it. A message cut off by the timeout is reported as failed, never as complete. A timer that was cancelled before its expiry was acted upon never interrupts its connection. A zero timeout disables the mechanism.',
  ['schedules', 'configurations'], 'every arrival pattern relative to the timeout',
  'Timer cancellation races with arriving data; no test covers it.',
  ['src/tcp_timer.cpp', 'src/http_reader.cpp'], [('timer', 'src/tcp_timer.cpp start, cancel, timer_callback'), ('read timeout', 'src/http_reader.cpp read_bytes')])
p('P22', 'Every HTTP request gets exactly one response, in order, to its sender',
  'For every set of concurrent clients, keep-alive and pipelined request sequences and arrival fragmentation, plain or encrypted, an HTTP server calls the matching handler exactly once per request with that request\'s own data and each client receives exactly one response per request, in request order. The connection stays open or closes as the request\'s protocol version and Connection header ask (closing an HTTP/1.0 connection is fine if the response says so).',
  ['schedules', 'inputs', 'histories'], 'every mix of clients, pipelining depth and fragmentation',
  'Responses can be lost, duplicated or swapped only under concurrency and pipelining; the server tests are not built here.',
  ['src/http_server.cpp', 'src/http_reader.cpp', 'include/pion/http/writer.hpp', 'include/pion/http/response_writer.hpp'],
  [('request dispatch', 'src/http_server.cpp handle_connection, handle_request'), ('pipelined data', 'src/http_reader.cpp consume_bytes'), ('connection lifecycle', 'include/pion/tcp/connection.hpp lifecycle')])
p('P23', 'HTTP requests reach the longest matching resource, or redirect, or get 404',
  'For every set of registered resources, redirects and changes to them, a request is handled by the registered resource with the longest prefix that ends at a path separator, after following redirects; a request with no match gets a 404 and a redirect cycle gets an error response rather than hanging. Trailing slashes on the registration or request do not matter, and a registration stays until it is removed.',
  ['inputs', 'histories', 'configurations'], 'every resource set, redirect graph and request path',
  'Overlapping prefixes and redirect graphs are unbounded.',
  ['src/http_server.cpp', 'include/pion/http/server.hpp'], [('lookup', 'src/http_server.cpp find_request_handler'), ('redirects', 'src/http_server.cpp handle_request'), ('registration', 'src/http_server.cpp add_resource, remove_resource')])
p('P24', 'Bad requests and failing handlers never take the server down',
  'A malformed request gets an error response or a closed connection, and a handler that throws an exception derived from std::exception or boost::exception gets a server-error response; neither affects any other connection, leaks the connection, or stops the server from serving later requests. A client that disconnects at any point is cleaned up. Handlers set for malformed requests, for requests that match no resource and for server errors are called exactly once for each such request, with that request (and the error text), and for no other.',
  ['inputs', 'fault_sequences'], 'every malformed byte stream, every throw and every disconnect point',
  'Failure containment needs faults injected at many points.',
  ['src/http_server.cpp', 'src/http_reader.cpp', 'src/tcp_server.cpp'], [('error handling', 'src/http_server.cpp handle_request, handle_server_error'), ('read errors', 'src/http_reader.cpp handle_read_error')])
p('P25', 'HTTP writers put exactly the content given on the wire',
  'For every sequence of text, binary, copied or referenced writes, sent whole or in chunks, the peer receives exactly the concatenated bytes with correct framing for its protocol version, and a message to a HEAD request carries no body. Repeated use neither leaks memory nor repeats or drops content.',
  ['inputs', 'histories'], 'every sequence of write calls and send modes',
  'Write caching combines text, binary and no-copy buffers in orders tests do not enumerate.',
  ['include/pion/http/writer.hpp', 'include/pion/http/response_writer.hpp', 'include/pion/http/request_writer.hpp', 'src/http_writer.cpp'],
  [('buffers', 'include/pion/http/writer.hpp write, write_no_copy, flush_content_stream'), ('chunks', 'src/http_writer.cpp prepare_write_buffers')])
p('P26', 'Basic authentication admits exactly the configured users to protected paths',
  'While at least one user is configured, a request under a protected path and not under a permitted one is admitted exactly when it carries valid credentials of a currently configured user, and the handler then sees that user; otherwise it gets a 401 with the realm and the handler never runs. Paths not protected are never affected, and malformed authorization headers are never admitted.',
  ['inputs', 'histories'], 'every header, path and history of user and restriction changes',
  'Bypasses need particular headers, paths or user-change orders.',
  ['src/http_auth.cpp', 'src/http_basic_auth.cpp', 'include/pion/user.hpp'], [('decision', 'src/http_basic_auth.cpp handle_request'), ('path matching', 'src/http_auth.cpp find_resource, need_authentication'), ('credentials', 'src/http_basic_auth.cpp parse_authorization, parse_credentials')])
p('P27', 'Cookie authentication sessions are granted, kept and ended correctly',
  'A request under a protected path is admitted exactly when it carries a session cookie that was issued by a successful login, has not been logged out and has been used within the last hour (the login redirect page excepted); login with wrong credentials issues nothing. Session identifiers are unique per login, also among several authentication objects, none of which accepts a session of another; the handler sees the user who logged in, and a redirect target given to login or logout becomes one Location header and nothing else.',
  ['histories', 'inputs'], 'every sequence of logins, logouts, requests and forged cookies by several users',
  'Session state depends on history and time.',
  ['src/http_cookie_auth.cpp', 'src/http_auth.cpp'], [('sessions', 'src/http_cookie_auth.cpp handle_request, process_login'), ('expiry', 'src/http_cookie_auth.cpp expire_cache')])
p('P28', 'The file service never reaches outside its configured directory',
  'Whatever the request path, encoding or method, and however the directory is spelled, the file service reads, creates, changes or deletes only files inside its configured directory (or its one configured file); every other request is refused with an error and leaves the file system unchanged. Symbolic links that the administrator put inside the directory are followed.',
  ['inputs', 'configurations'], 'every request path and method and every directory layout and spelling',
  'Traversal variants are unbounded; the file service tests are not built here.',
  ['services/FileService.cpp'], [('containment', 'services/FileService.cpp operator()')])
p('P29', 'The file service returns current, complete files and honours conditions',
  'A GET of a file returns exactly the file\'s current bytes with the right type, date and length, HEAD the same headers with no content, a request for a missing file 404, and a conditional request naming exactly the file\'s date "not modified" while any other date gets the file. This holds for every file size, cache setting, scan setting, chunk size and history of changes made to the files between requests (with "cache 2" the bytes may be those first cached, and with scan settings 1 and 3 only files present at the start are served); a file that cannot be read gives an error, never other bytes and never silence.',
  ['inputs', 'histories', 'configurations'], 'every file content and size, cache configuration and order of updates',
  'Cache staleness depends on configuration and update order.',
  ['services/FileService.cpp', 'services/FileService.hpp'], [('cache', 'services/FileService.cpp operator(), DiskFile'), ('sending', 'services/FileService.cpp DiskFileSender')])
p('P30', 'File service uploads and deletions take effect exactly as reported',
  'When writing is enabled, a successful PUT, POST or DELETE leaves exactly the uploaded bytes, the old bytes followed by the uploaded ones, or no file - answered 201 when the file was created and 204 otherwise - and later requests see it; any other answer is an error status and leaves the files as they were (a write that fails half-way, as on a full disk, excepted, but it is reported as an error). When writing is disabled, nothing changes and the answer is 405.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of operations, contents and paths',
  'Sequences and failures are unbounded.',
  ['services/FileService.cpp'], [('writing', 'services/FileService.cpp operator()')])
p('P31', 'Plug-in libraries are loaded once and live exactly as long as used',
  'However many plug-in objects, copies and assignments refer to a library, in any order and from any threads, it is loaded once, stays usable while at least one refers to it, every object created from it is destroyed by it, and it is released after the last one goes. Opening a missing or unsuitable file fails with an error and leaves the plug-in object and later opens unaffected.',
  ['histories', 'schedules'], 'every sequence of open, copy, assign, create, destroy and release from several threads',
  'Reference counts go wrong only in particular orders.',
  ['src/plugin.cpp', 'include/pion/plugin.hpp'], [('library table', 'src/plugin.cpp open, grab_data, release_data'), ('object creation', 'include/pion/plugin.hpp plugin_ptr')])
p('P32', 'The plug-in manager finds, runs and destroys exactly what was added',
  'After any history of adding, loading, removing and clearing plug-ins, lookups return exactly the plug-in registered under that name, prefix lookups the one with the longest matching prefix, run visits every one exactly once, and every plug-in is destroyed exactly once. A duplicate or unknown name is refused with an error without changing anything.',
  ['histories', 'inputs'], 'every sequence of operations over any names',
  'Prefix lookup over an ordered map fails only for particular name sets.',
  ['include/pion/plugin_manager.hpp'], [('lookup', 'include/pion/plugin_manager.hpp find'), ('ownership', 'include/pion/plugin_manager.hpp add, load, remove, clear')])
p('P33', 'Service configuration files are applied exactly or refused',
  'Loading a service configuration applies every path, service, option, auth, restrict and user directive in the file exactly and in order, ignoring comments and blank lines, for any directive case, any run of blanks between the parts, any line end and with or without one on the last line: services exist at their resources with exactly the given options, and restricted resources admit exactly the given users. A missing file, or one with any invalid directive (unknown, incomplete, indented, option without \'=\', unknown service, resource used twice, option refused or without service, unsupported authentication, user or restrict before auth) is refused with an error; a path that does not exist is only skipped. The services of a server that uses its own worker threads are stopped and removed safely when the server is destroyed, also while requests are being answered.',
  ['inputs'], 'every configuration text',
  'Parser states combine without bound; tests use one or two files.',
  ['src/http_plugin_server.cpp'], [('parsing', 'src/http_plugin_server.cpp load_service_config')])
p('P34', 'Process shutdown and privilege changes take effect once and are undone',
  'Waiting for process shutdown returns after shutdown was requested, from any thread or by signal and any number of times, and never before. Temporarily acquired administrative rights are held from acquisition to release, released exactly once however often release is called or the holder destroyed, and afterwards the process has the user it had before, whatever its id; only one thread holds them at a time. Running as a named user or group switches to exactly the id the system file gives that name. Becoming a daemon ends the calling process with status 0 and continues in a session of its own, with the standard streams on the null device, no other descriptor left open and files created without rights for others; a process that already is a daemon is left as it is.',
  ['schedules', 'histories'], 'every interleaving of waiters, requesters and signals, every user id and every overlap of right holders in different threads',
  'Lost wake-ups depend on timing; rights are process state.',
  ['src/process.cpp', 'src/admin_rights.cpp', 'include/pion/process.hpp'], [('shutdown', 'src/process.cpp shutdown, wait_for_shutdown'), ('rights', 'src/admin_rights.cpp')])
p('P35', 'User management accepts exactly the current password of each user',
  'After any history of adding, updating and removing users with clear or pre-hashed passwords, verification succeeds exactly for a current user with that user\'s current password; stored values never equal the clear password, and adding an existing or changing an unknown user is refused.',
  ['histories', 'inputs'], 'every sequence of operations over any names and passwords',
  'Password and user histories are unbounded.',
  ['include/pion/user.hpp'], [('passwords', 'include/pion/user.hpp set_password, match_password'), ('users', 'include/pion/user.hpp user_manager')])

p('P36', 'Malformed first lines and headers are refused for the right reason, well-formed ones never',
  'A message is refused, with the error of the part at fault, if its method or a header or trailer name contains a character that is not allowed in a token, if its resource, query string, status text or a header or trailer value contains a control character (a tab in a value excepted), or if its version or status is missing, not of the expected form or out of range (more than three digits). Wherever and however fragmented they occur, all other bytes are accepted in these parts and reported unchanged.',
  ['inputs'], 'every byte value in every place of every part of a message head',
  'Ten parts, 256 byte values and any position and fragmentation; request smuggling and header injection live in exactly these corners.',
  [PC, PH], [('header state machine', PC + ' parse_headers'), ('character classes', PH + ' is_char, is_control, is_special'), ('errors', PH + ' error_category_t')])

p('P37', 'The bundled services answer with exactly what the request said, and only as text',
  'The echo service reports the method, the original and the delivered resource, query string, version, every header, query parameter and cookie, the content and the authenticated user of each request exactly as sent. The cookie service sets or deletes exactly the cookie asked for, lists exactly the cookies it was sent, and refuses names and values that cannot be in a cookie (control characters, quotes, in names also what separates cookies or names from values); whatever text a request carries, it can add no header to the response and no markup to the page. The hello and allow-nothing services give their fixed answers (200, and 405 with Allow: GET) to every request.',
  ['inputs'], 'every request',
  'The tests make no requests to the services; header and markup injection need hostile texts in each of the places that are echoed.',
  ['services/EchoService.cpp', 'services/CookieService.cpp', 'services/HelloService.cpp', 'services/AllowNothingService.cpp'], [('echo', 'services/EchoService.cpp operator()'), ('cookies', 'services/CookieService.cpp operator()')])

p('P38', 'The programs serve exactly what their command line says and end on a signal',
  'piond, started with a resource and a service or with a configuration file, serves exactly those services with the options given, at the address and port given, over TLS exactly if a key file is given, finding the service libraries in the plug-in directory, in the directory of the program or in the working directory, whatever the order of its options. A command line that is incomplete or wrong (unknown options, missing values, bad addresses, missing directories) is refused with a message and status 1, without serving; services, configurations or key files that cannot be loaded and ports that are in use make it end without crashing and without serving. SIGINT or SIGTERM at any moment, repeated or not, and whatever its connections are doing, makes piond and helloserver close their connections and end with status 0 within bounded time; SIGHUP, SIGPIPE, SIGCHLD and terminal stop signals, and clients that hang up, do not end them. helloserver sends exactly its greeting to each connection and closes it.',
  ['inputs', 'schedules', 'histories'], 'every command line, signal time and connection state',
  'No test starts the programs; the time of a signal relative to start-up, requests and other signals, and the state of each connection at that moment, are schedules.',
  ['utils/piond.cpp', 'utils/helloserver.cpp', 'src/process.cpp', 'src/http_plugin_server.cpp', 'src/tcp_server.cpp'], [('command line', 'utils/piond.cpp main'), ('signals', 'src/process.cpp handle_signal, wait_for_shutdown'), ('end', 'src/tcp_server.cpp server::stop')])

p('P39', 'HTTP clients and readers built on the library deliver every message once, in order and intact',
  'A program that talks HTTP over tcp::connection, plain or TLS (connect and handshake in either style, request_writer, chunked sending or request::send, then a chain of response_readers): the peer receives every request exactly as composed; every response is delivered once and in order, whatever the sizes of the pieces it arrives in, with the status, headers, trailers and content that were sent. For each reader the finished handler is called exactly once; the headers handler is called exactly once, before it, as soon as the headers are complete, with the first line and headers in place; a payload handler gets exactly the content. The connection is then marked as kept alive or pipelined exactly if the message allows another one. When the connection ends or is reset in the middle of a message whose end is known, the peer is silent beyond the timeout, or sends something that is not HTTP, the finished handler gets an error, the connection is marked for closing, and the messages before it are unaffected; a response that lasts until the connection ends is complete then. The same holds for servers built directly on request_reader. No reader is kept alive once it has finished.',
  ['inputs', 'schedules'], 'every sequence of messages, split into pieces, ending and thread schedule',
  'No test reads a response or a request through a reader; piece boundaries, pipelining and the place of a cut are inputs and schedules.',
  ['include/pion/http/response_reader.hpp', 'include/pion/http/request_reader.hpp', 'include/pion/http/request_writer.hpp', 'src/http_reader.cpp', 'src/http_writer.cpp', 'include/pion/tcp/connection.hpp'], [('reading', 'src/http_reader.cpp receive, consume_bytes, handle_read_error'), ('headers handler', 'src/http_parser.cpp finish_header_parsing')])

p('P40', 'Refusals and error answers carry the right status on a complete page with request text only as text',
  'Each answer that the server, the authentication or the bundled file service makes up itself (malformed request 400, unauthorized 401 or 302, forbidden 403, no such resource or file 404, method not allowed 405, failing handler or redirect cycle 500, method not implemented 501, file created 201) has that status with its phrase, the headers that belong to it (Allow, WWW-Authenticate, Location) exactly as configured or asked for and no others, and, unless the request was a HEAD, one complete well-formed HTML page that names the status. Where the page tells the requested resource, the method or an error text, it tells all of it, as text: whatever they contain adds no markup to the page and no header to the response. The connection serves the next request as before, except after a malformed one.',
  ['inputs'], 'every refused or failing request',
  'The tests look at the status of a few error answers and never at the page; markup in a resource, method, error text or file name needs hostile texts at each of the places that are echoed.',
  ['src/http_server.cpp', 'src/http_basic_auth.cpp', 'src/http_cookie_auth.cpp', 'services/FileService.cpp'], [('server pages', 'src/http_server.cpp server::handle_bad_request, handle_not_found_request, handle_server_error, handle_forbidden_request, handle_method_not_allowed'), ('authentication', 'src/http_basic_auth.cpp, src/http_cookie_auth.cpp handle_unauthorized, handle_redirection'), ('files', 'services/FileService.cpp operator(), sendNotFoundResponse')])

p('P41', 'A TCP connection object connects, carries bytes, reports its state and ends exactly as asked',
  'Over plain and encrypted connections, every form of connecting (endpoint, address, host name with several addresses; waiting or asynchronous), accepting, reading (into the connection\'s own buffer or the caller\'s, some data or until a completion condition) and writing (one buffer or several) does what it says: the bytes read are, in order, the bytes written at the other end, a read ends neither before its condition is met nor past its buffers, and the handler of an asynchronous operation is called exactly once. A connected object tells the peer\'s address and port, one that is not connected an empty endpoint; lifecycle, encryption flag and saved read position are those last set. A connection that is refused, broken or reset, a name that cannot be resolved and a failed handshake are reported by an error code, never by an exception; a host name fails only when none of its addresses can be reached and then leaves the object closed, and the object can be used again. close(), shutdown() and destruction end what is pending with an error and let the peer read all that was written before, then the end; close() leaves the object closed and may be repeated, cancel() ends pending operations and leaves the connection usable. finish() calls the finished handler with this connection, once per call.',
  ['inputs', 'schedules', 'fault_sequences'], 'every conversation, buffer sequence, completion condition and ending',
  'The tests exchange a few short lines over the default forms; each of some twenty overloads is a code path of its own for plain and for encrypted connections, and endings with something pending need a certain order of events.',
  ['include/pion/tcp/connection.hpp'], [('connecting', 'include/pion/tcp/connection.hpp connect, async_connect, accept, async_accept, handshake_*'), ('reading and writing', 'include/pion/tcp/connection.hpp read_some, read, write and their asynchronous forms'), ('endings', 'include/pion/tcp/connection.hpp close, shutdown, cancel, finish, get_remote_endpoint')])

p('P42', 'Every error raised says what kind it is and which thing it concerns, however it is caught or kept',
  'A call that cannot be carried out (an option or value that is not known; a plug-in, service, resource identifier, directory or file that is missing, in use, broken or without its functions; a configuration file with an error; a password hash that is none; a plug-in pointer that points to none) raises the exception type of pion::error for that case. Whatever the name concerned contains, what() gives the text of that kind followed by exactly that name, the same each time, through every base (pion::exception, std::exception, boost::exception), from a copy, and from an exception_ptr raised again after the original is gone; pion::diagnostic_information gives that text and the place where the error was raised. Errors an application derives from pion::exception, and errors of other kinds, are shown likewise by their own text or type name.',
  ['inputs', 'configurations'], 'every throwing call and every name given to it',
  'The tests check that a few calls throw some type; the text is put together lazily from attached information, differently at each of some forty places, and survives copying and cloning only if each type does it right.',
  ['include/pion/error.hpp', 'src/plugin.cpp', 'src/http_plugin_server.cpp', 'services/FileService.cpp', 'include/pion/plugin_manager.hpp'], [('texts', 'include/pion/error.hpp exception::what, set_what_msg, update_what_msg, diagnostic_information'), ('raised by', 'BOOST_THROW_EXCEPTION in src/plugin.cpp, src/http_plugin_server.cpp, src/http_basic_auth.cpp, src/http_cookie_auth.cpp, services/FileService.cpp, include/pion/plugin_manager.hpp, include/pion/user.hpp')])

NOT_APPLICABLE = {}

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    checks, na = [], []
    for x in P:
        i = x['id']
        if i in PROPS:
            s = PROPS[i]
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': s['technique'],
                           'level': 'exploration', 'level_note': s['note']})
        else:
            na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 vlib/setup.py',
         'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: monitors attach through the public API, subclassing and interposed Boost headers', 'source_commits': []},
         'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(checks), 'claimed')

main()
