#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "A command is accepted iff the client's authorization patterns allow it",
 "The server acknowledges and forwards a submitted command if and only if the client's authorize section permits it: a `commands` pattern matches the whole command after the timestamp, or a `hosts` pattern matches the host-name field of a PROCESS_HOST_CHECK_RESULT, or a `services` pattern (split at its last @) matches the service and host fields of a PROCESS_SERVICE_CHECK_RESULT. Patterns are POSIX extended regular expressions implicitly anchored as a whole, so an alternation inside one cannot escape the anchors and a host or service pattern can never match text outside its field. Everything else is answered with FAIL and nothing of it is forwarded.",
 ["inputs", "configurations"], "every set of configured patterns and every well-formed or malformed command line",
 "The Autotest groups try about twenty fixed (pattern, command) pairs; the guarantee quantifies over all regular expressions and all commands.",
 ["src/server/auth.c", "src/server/conf.c", "src/server/server.c"],
 [("pattern compilation", "src/server/conf.c parse_*_pattern_cb"), ("decision", "src/server/auth.c is_authorized")],
 ["server response line to the PUSH payload", "bytes read from the command file"])

prop("C02", "A PUSH can never smuggle anything but its one authorised line",
 "Whatever bytes a client pushes, the server forwards either nothing or exactly one newline-terminated command that was itself authorised: payloads with NUL bytes, embedded newlines, a missing final newline, a missing bracketed timestamp, or text before the bracket are refused. Data of one PUSH never becomes part of another command.",
 ["inputs", "histories"], "every byte sequence of every declared size, in any sequence of pushes on a session",
 "The tests send three hand-written malicious strings and no NUL byte; the guarantee is about all byte strings.",
 ["src/server/server.c", "src/server/auth.c", "src/common/tls.c"],
 [("payload validation", "src/server/auth.c is_authorized"), ("forwarding", "src/server/server.c handle_push")],
 ["server response line", "bytes read from the command file"])

prop("C03", "Only clients proving the configured identity and password get a session",
 "A client reaches the NSCA-ng session only if the PSK it uses is exactly the password of the authorize section named exactly like its identity, or of the \"*\" section if no such section exists; any other identity or password fails the TLS handshake. The authorizations later applied to it are those of that same section, for TLS 1.2 and TLS 1.3 alike, and a globally configured password applies to sections that define none.",
 ["inputs", "configurations"], "every set of authorize sections and every (identity, key) pair offered, at each supported protocol version",
 "The tests use one identity and one password per group and never a wrong-section combination.",
 ["src/server/auth.c", "src/server/hash.c", "src/server/conf.c", "src/common/tls.c"],
 [("PSK lookup", "src/server/auth.c check_psk"), ("identity table", "src/server/hash.c"), ("identity kept for authorization", "src/common/tls.c accept_ssl_cb")],
 ["TLS handshake outcome", "server response to authorised/unauthorised commands"])

prop("C04", "Acknowledged commands reach Nagios exactly once, unmodified",
 "Every command answered with OKAY is delivered exactly once and byte for byte to the monitoring process, directly or through a PROCESS_FILE spool file, once that process reads its command file (below max_queue_size); this also holds for concurrent clients, for any command sizes, and when the reader is stalled, absent at start-up or restarted. A command that was refused or not completely received is never delivered, not even in part.",
 ["histories", "schedules", "inputs"], "every history of connects, pushes, partial pushes, aborts and reader stalls/restarts by several clients",
 "The tests submit a handful of commands sequentially to an attentive reader; they never stall, restart or overload it.",
 ["src/server/fifo.c", "src/server/server.c", "src/common/tls.c", "src/common/buffer.c"],
 [("queueing and spooling", "src/server/fifo.c fifo_write/dispatch_data/write_cb/async_dump_data"), ("receive path", "src/common/tls.c read_bytes")],
 ["responses", "bytes read from the command file", "contents of spool files named by PROCESS_FILE"])

prop("C05", "Command-file writes are atomic whole lines; larger data goes via spool files",
 "Every write the server makes to the command file consists of complete newline-terminated command lines and is at most PIPE_BUF bytes, so that it never interleaves with what other processes write into the same FIFO. Commands or backlogs larger than that are written completely to a new private (mode 0600) temporary file in temp_directory before a PROCESS_FILE command with deletion flag 1 naming it is submitted, and the command file is never written to unless it is a FIFO.",
 ["inputs", "schedules", "histories"], "every mix of command sizes around PIPE_BUF, reader stalls and concurrent foreign writers",
 "Interleaving depends on sizes and timing; the tests use only short commands and no second writer.",
 ["src/server/fifo.c"],
 [("PIPE_BUF check and spooling", "src/server/fifo.c buffers_exceed_pipe_size/async_dump_data/sync_dump_data"), ("FIFO check", "src/server/fifo.c open_cb")],
 ["byte stream of the FIFO with marker lines of foreign writers", "write(2) sizes recorded by a preloaded recorder", "mode and content of spool files"])

prop("C06", "Commands are submitted in the order they were acknowledged",
 "Commands that were acknowledged in some order, on one connection or one after the other on several, appear in that order in the command file as long as nothing has to be spooled, also when they were queued while the reader was absent or stalled. Within a spool file the commands keep the order in which they were acknowledged.",
 ["histories", "schedules"], "every history of pushes and reader stalls/restarts",
 "The tests never have more than one command in the queue.",
 ["src/server/fifo.c", "src/common/buffer.c"],
 [("FIFO queue", "src/server/fifo.c, src/common/buffer.c")],
 ["sequence numbers of delivered commands"])

prop("C07", "The server follows the NSCA-ng protocol state machine",
 "For every sequence of request lines the server answers as PROTOCOL specifies: MOIN/PING/BAIL before the handshake, PUSH/NOOP/QUIT/BAIL after it, keywords case-insensitive, CRLF and LF line ends alike, malformed or unexpected requests answered with exactly one FAIL line leaving the session usable. Each request gets exactly one response (BAIL none), responses are upper-case keyword lines terminated with CRLF, and PING, QUIT and BAIL end with a clean TLS shutdown. Request lines up to 1024 octets are accepted, and a client exceeding the limit grossly gets a BAIL and a clean shutdown rather than unbounded buffering.",
 ["histories", "inputs"], "every sequence of request lines, valid or not, in every session state",
 "The tests drive the server only with send_nsca and one scripted dialogue; PING, NOOP, retries and malformed requests are untested.",
 ["src/server/server.c", "src/common/tls.c", "src/common/util.c", "src/common/buffer.c", "PROTOCOL"],
 [("state machine", "src/server/server.c handle_handshake/handle_connection"), ("line reader", "src/common/tls.c read_line")],
 ["lock-step response lines", "TLS close_notify"])

prop("C08", "How a client's bytes are split and paced does not matter to the server",
 "The server's answers and the commands it forwards depend only on the bytes a lock-step client sends, never on how those bytes are divided into TLS records and TCP segments or delayed (within the timeout). Several request lines sent ahead in one record are answered one by one in order.",
 ["schedules", "inputs"], "every segmentation of every session transcript",
 "The tests have a single segmentation each: the one the client library happens to produce.",
 ["src/common/tls.c", "src/common/buffer.c", "src/server/server.c"],
 [("non-blocking TLS I/O", "src/common/tls.c read_line/read_bytes/write_cb"), ("line buffer", "src/common/buffer.c")],
 ["transcript of responses", "bytes read from the command file"])

prop("C09", "No client can crash the server, leak its resources or disturb other clients",
 "Arbitrary bytes before, during or after the TLS handshake, and disconnections or resets at any point of a session, never terminate the server, corrupt its memory, make it spin or leave file descriptors behind; nor does using up all its file descriptors. Sessions of well-behaved clients running meanwhile or afterwards are served as if the hostile client did not exist.",
 ["inputs", "histories", "fault_sequences"], "every byte stream and every disconnection point, in any number and mixture",
 "The tests contain no hostile client at all.",
 ["src/common/tls.c", "src/server/server.c", "src/common/buffer.c", "src/common/util.c"],
 [("error paths", "src/common/tls.c check_tls_error/tls_free/get_peer_address"), ("connection state lifetime", "src/server/server.c connection_stop")],
 ["server process state, sanitizer reports, /proc/<pid>/fd, CPU time", "outcome of a canary client"])

prop("C10", "Commands longer than max_command_size are refused, all others accepted",
 "With max_command_size = N > 0 a PUSH announcing more than N bytes is answered with FAIL and the session continues, while every announced size from 1 to N is accepted; with N = 0 there is no limit. Sizes that are zero, negative, not a number or too large to represent are refused with FAIL, whatever N is, and never lead to reading a different number of bytes.",
 ["inputs", "configurations"], "every configured limit and every announced size string",
 "The tests never configure the limit nor announce a bogus size.",
 ["src/server/server.c", "src/server/conf.c"],
 [("size parsing and limit", "src/server/server.c handle_connection")],
 ["server response to PUSH", "delivered commands"])

prop("C11", "The backlog is bounded by max_queue_size and dropped only as whole commands",
 "While Nagios does not read its command file, the server queues commands up to max_queue_size megabytes; when a new command would exceed that, the queued data is thrown away and queueing continues, so memory stays bounded (0 means unlimited). What is delivered later is always a set of complete acknowledged commands including all those acknowledged after the last overflow; below the limit nothing is lost.",
 ["histories", "configurations"], "every sequence of command sizes, limits and reader states",
 "The tests never queue anything.",
 ["src/server/fifo.c", "src/server/conf.c"],
 [("overflow handling", "src/server/fifo.c fifo_write")],
 ["commands delivered after the reader appears", "server memory"])

prop("C12", "Idle clients are disconnected after the configured timeout, active ones never",
 "A connection on which the client shows no activity for `timeout` seconds is ended by the server in every state: during the TLS handshake, between requests, within a partial line or payload, or while not reading responses; established sessions get a BAIL line and a TLS shutdown. A client that keeps sending, or keeps reading its responses, with pauses all shorter than the timeout is never cut off, however long the session lasts, and timeout = 0 disables the limit.",
 ["schedules", "configurations", "histories"], "every position of a stall and every pacing relative to the timeout",
 "Timing and stall position are not exercised by the tests at all.",
 ["src/common/tls.c", "src/server/server.c"],
 [("activity timer", "src/common/tls.c tls_on_timeout/timeout_cb"), ("BAIL on timeout", "src/server/server.c handle_timeout")],
 ["time and form of the disconnection seen by the client"])

prop("C13", "send_nsca gives up on a stalled server after the configured timeout",
 "If the server stops responding for the time set with -o or the `timeout` setting, at any point (TCP accept, TLS handshake, after any request, while a large command is being transmitted, at the final shutdown), send_nsca waits without burning CPU time, and terminates within a bounded time after it, with a message and non-zero status if anything was left unconfirmed. A server that keeps responding, or reading a large command, within the limit never causes a timeout, and 0 disables it.",
 ["schedules", "fault_sequences", "configurations"], "every stall position, timeout value and command size",
 "The tests only talk to a responsive server.",
 ["src/common/tls.c", "src/client/client.c", "src/client/send_nsca.c"],
 [("activity timer", "src/common/tls.c timeout_cb")],
 ["exit status and run time of send_nsca"])

prop("C14", "The server honours its configuration as documented in nsca-ng.cfg(5)",
 "Global settings act as fallbacks exactly for authorize sections not defining them; quoting, escapes, comments, environment variables, line continuation and include of files or directories (only .cfg/.conf, recursively) mean the same as the equivalent single flat file; order does not matter. Command-line options -b, -C, -l, -P override the file. Invalid configurations (unknown settings, missing password or authorizations, bad regular expression, negative limits) make the server refuse to start with non-zero status.",
 ["configurations"], "every configuration text generated from the documented grammar, its layout and distribution over files",
 "The tests use two or three small configurations in a single layout.",
 ["src/server/conf.c", "src/server/nsca-ng.c"],
 [("configuration parser", "src/server/conf.c conf_parse/include_cb/fallback_to_defaults"), ("overrides", "src/server/nsca-ng.c main")],
 ["accept/refuse decisions of the running server", "exit status at start-up"])

prop("C15", "SIGHUP applies the new configuration; the PID file marks the one instance",
 "After SIGHUP the server (not changing its root directory) restarts with the same arguments (in the foreground: as the same process) and serves according to the current configuration files, however often this is repeated and whatever sessions are open; SIGTERM and SIGINT end it with status 0 and remove the PID file. While an instance holds the PID file it contains that server's PID and a second instance using it refuses to start without disturbing the first; a stale file is taken over.",
 ["histories", "configurations"], "every sequence of start, reload, second start, kill and stop with changing configurations",
 "The tests start and stop the server once per group.",
 ["src/server/nsca-ng.c", "lib/pidfile/pidfile.c", "lib/pidfile/flopen.c", "src/server/conf.c"],
 [("restart by re-exec", "src/server/nsca-ng.c signal_cb/main"), ("lock", "lib/pidfile")],
 ["PID file content, process state, behaviour towards clients"])

prop("C16", "The server drops privileges and changes root before serving",
 "With `user` set the running server has exactly the real, effective and saved user and group IDs and supplementary groups of that user, and files it creates (PID file, spool files) belong to that user; an unknown user stops start-up. With `chroot` set its root directory is the given one and command_file, pid_file and temp_directory are resolved inside it; the two combine.",
 ["configurations"], "every combination of user, chroot, paths and command-line overrides",
 "The tests run without these settings.",
 ["src/server/nsca-ng.c"],
 [("drop_privileges", "src/server/nsca-ng.c")],
 ["/proc/<pid>/status, /proc/<pid>/root, owners of created files, delivery through the FIFO"])

prop("C17", "The server works under systemd socket activation and supervision",
 "When handed a listening socket by systemd the server serves clients on that socket, ignoring configured listen addresses and staying in the foreground; it announces READY=1 only once it is able to serve, and sends WATCHDOG=1 at least twice per watchdog interval while running. This keeps working after any number of SIGHUP reloads.",
 ["histories", "configurations"], "every sequence of reloads and sessions under activation with any watchdog interval",
 "The tests never use socket activation.",
 ["src/server/nsca-ng.c", "src/common/tls.c", "src/common/log.c"],
 [("sd_listen_fds / sd_notify", "src/server/nsca-ng.c main/notify_systemd/keep_alive_cb"), ("descriptor= listen address", "src/common/tls.c tls_server_start")],
 ["sessions over the inherited socket", "datagrams on NOTIFY_SOCKET"])

prop("C18", "Logs record submissions as configured and never reveal passwords",
 "At log level 3 and above every accepted or refused command is logged together with the client's identity and address, at level 4 and above every protocol line, and raising the level only adds messages. No password ever appears in any log output or diagnostic message of server or client at any level, and text supplied by a peer never acts as a format string.",
 ["inputs", "configurations", "histories"], "every password, log level, target and session history",
 "The tests do not look at log output.",
 ["src/common/log.c", "src/server/server.c", "src/server/auth.c", "src/client/conf.c", "src/client/client.c"],
 [("vlog", "src/common/log.c"), ("log statements", "src/server/server.c")],
 ["standard error of server and client at all levels"])

prop("C19", "Failures of the operating system are contained and never corrupt delivery",
 "When creating, writing or closing a spool file, opening or writing the command file, or accepting a connection fails (disk full, missing permission, interrupted calls, no descriptors, reader gone), the server logs the problem, leaks nothing (neither descriptors nor temporary files it could not complete) and keeps serving. Whatever it delivers afterwards is still a set of complete acknowledged commands with none delivered twice, and it never submits a PROCESS_FILE command for a file that does not completely hold its data.",
 ["fault_sequences", "histories"], "every single injected failure at every call position, and random sequences of them",
 "The tests inject no fault.",
 ["src/server/fifo.c", "src/common/tls.c", "lib/wrappers.c"],
 [("error branches", "src/server/fifo.c open_cb/write_cb/async_cb/open_dump_file/close_dump_file"), ("accept errors", "src/common/tls.c accept_tcp_cb")],
 ["bytes read from the command file and spool files", "/proc/<pid>/fd", "later sessions"])

prop("C20", "send_nsca turns each check result into the one correct command",
 "For every stream of check results with any allowed delimiter and separator, send_nsca submits exactly one command per non-empty record, in order: PROCESS_HOST_CHECK_RESULT;host;status;message for three fields and PROCESS_SERVICE_CHECK_RESULT;host;service;status;message for four, prefixed with the current timestamp. Backslashes and newlines inside are escaped as \\\\ and \\n so that unescaping gives back the exact input, delimiters inside the message are kept, and the PUSH size equals the number of bytes sent.",
 ["inputs", "configurations"], "every input byte stream (without NUL), delimiter and separator",
 "input.at tries a dozen fixed inputs.",
 ["src/client/parse.c", "src/client/client.c", "src/client/input.c", "src/common/buffer.c"],
 [("splitting and escaping", "src/client/parse.c parse_check_result/escape"), ("record splitting", "src/common/buffer.c buffer_read_chunk")],
 ["commands and PUSH sizes received by a scripted server"])

prop("C21", "send_nsca -C submits every input line verbatim, adding only a timestamp",
 "With -C every non-empty input line is submitted as exactly one command in input order, unchanged if it starts with a bracketed timestamp and otherwise prefixed with the current timestamp, with only leading blanks removed; a last line without newline counts as well. Options -d and -e have no effect in this mode.",
 ["inputs"], "every input text (without NUL and CR), line length and number of lines",
 "The tests submit a few fixed commands.",
 ["src/client/parse.c", "src/client/client.c", "src/client/input.c"],
 [("parse_command", "src/client/parse.c"), ("handle_input_chunk", "src/client/client.c")],
 ["commands and PUSH sizes received by a scripted server"])

prop("C22", "send_nsca's behaviour does not depend on how its inputs are chunked or paced",
 "What send_nsca submits, and its exit status, depend only on the bytes on its standard input and the server's bytes, not on how standard input is divided into writes (pipe, file or slow producer) nor on how server responses are divided into TLS records and TCP segments or delayed within the timeout. A complete record is submitted without waiting for further input or the end of standard input.",
 ["schedules", "inputs"], "every segmentation of standard input and of the server's responses",
 "Each test has one segmentation.",
 ["src/client/input.c", "src/common/buffer.c", "src/common/tls.c", "src/client/client.c"],
 [("chunk reader", "src/client/input.c read_cb"), ("line reader", "src/common/tls.c read_line")],
 ["commands received by a scripted server", "exit status"])

prop("C23", "send_nsca exits 0 only if the server confirmed everything",
 "For every behaviour of the server (FAIL, BAIL or garbage at any step, wrong protocol version, overlong lines, disconnection, reset or silence at any point) send_nsca terminates without crashing, and its exit status is 0 only if each command on its input, and the session's end, was confirmed with OKAY; whenever anything stays unconfirmed, the status is non-zero and a message is printed. When the server confirms everything the status is 0.",
 ["fault_sequences", "inputs", "histories"], "every server response script and disconnection point",
 "The tests see one authorization failure and otherwise a friendly server.",
 ["src/client/client.c", "src/common/tls.c", "src/client/send_nsca.c"],
 [("response handling", "src/client/client.c handle_tls_*_response"), ("auto-die on TLS errors", "src/common/tls.c check_tls_error")],
 ["exit status and standard error of send_nsca", "server's record of acknowledged commands"])

prop("C24", "send_nsca.cfg is parsed as documented, and the command line overrides it",
 "Every configuration file following the documented grammar (quoting, escapes, comments, continuation lines, blank lines, LF or CRLF line ends, with or without a final newline) yields exactly the documented values, with -H, -p, -o, -D taking precedence and later assignments overriding earlier ones; unknown settings, missing values or trailing garbage are rejected with non-zero status. No file content whatsoever makes send_nsca crash or access memory out of bounds.",
 ["inputs", "configurations"], "every file content, well-formed or not",
 "The tests use a single well-formed file.",
 ["src/client/conf.c", "lib/wrappers.c", "src/common/util.c", "src/client/send_nsca.c"],
 [("line reader", "src/client/conf.c read_conf_line"), ("value parser", "src/client/conf.c parse_conf_file")],
 ["identity, key, address the client connects with; exit status; sanitizer reports"])

prop("C25", "send_nsca's -d and -e accept every documented character notation",
 "For every ASCII character allowed, all notations documented for -d and -e (the character itself, C-style backslash escape, octal with leading zero, 0x-prefixed hexadecimal) select exactly that character; values that are not a single character, forbidden delimiters (backslash, newline, ETB, NUL) and a delimiter equal to the separator are rejected with non-zero status before connecting.",
 ["inputs", "configurations"], "every character, every notation, every malformed argument string",
 "The tests use three or four notations.",
 ["src/client/send_nsca.c"],
 [("parse_backslash_escape", "src/client/send_nsca.c")],
 ["how send_nsca splits its input", "exit status"])

prop("C26", "send_nsca and nsca-ng together deliver every check result end to end",
 "With the real client talking to the real server, each permitted check result or command given to any number of concurrent send_nsca processes arrives in the command file exactly once with its content intact (after unescaping), send_nsca exits 0 exactly if all of them were accepted, and nothing that was refused arrives.",
 ["inputs", "histories", "schedules", "configurations"], "every batch of results, client mode, authorization and concurrency",
 "The tests send one or two results at a time.",
 ["src/client", "src/server", "src/common"],
 [("whole pipeline", "src/client/client.c, src/server/server.c, src/server/fifo.c")],
 ["command file content, exit status"])

prop("C27", "Clients talk only to servers that prove they know the password",
 "send_nsca and the Perl and Python modules transmit a check result, and take an answer for its confirmation, only in a TLS session whose server has proved knowledge of the configured password for the configured identity. A server that presents a certificate (whoever signed it), offers anonymous or unencrypted cipher suites, doesn't use TLS, or has any other key gets no application data at all, with every TLS version and whatever (non-anonymous) cipher list is configured; the submission fails with an error.",
 ["inputs", "configurations"], "every server not knowing the password, at every TLS version, and every client cipher list",
 "The tests only ever use the project's own server, with the right password.",
 ["src/common/tls.c", "src/client/auth.c", "perl/client.c", "python/client.c"],
 [("PSK callback", "src/client/auth.c set_psk"), ("TLS client set-up", "src/common/tls.c tls_connect")],
 ["application data received by an imposter", "exit status or exception of the client"])

prop("C28", "Both programs interpret their command lines as documented",
 "For every documented combination of options - in any order, clustered, with attached or separate values, repeated (the last one counts) - send_nsca contacts the server and port, waits at most the delay, and writes its messages to the targets (standard error, syslog, both) at the verbosity selected, and nsca-ng uses the configuration file or directory, listening address, command file, PID file, log level and log targets selected, each taking precedence over the configuration file. An unknown option, a missing or negative argument or a stray argument makes them fail with a message and non-zero status before contacting a server or opening anything; -h and -V (--help, --version) print to standard output and succeed.",
 ["inputs", "configurations"], "every command line built from the documented options, and every erroneous one",
 "The tests always use the same few options, in one spelling and order.",
 ["src/client/send_nsca.c", "src/server/nsca-ng.c", "src/common/log.c"],
 [("option parsing", "src/client/send_nsca.c get_options, src/server/nsca-ng.c get_options"), ("log targets", "src/common/log.c log_set")],
 ["exit status and output", "server contacted", "listening address, command file, PID file", "messages on stderr and to syslog"])

prop("C29", "Clients reach any address of the server; the server binds exactly the one set",
 "send_nsca and the Perl and Python modules reach a server given by name if any of the addresses the name resolves to accepts connections: addresses which refuse connections or cannot be routed to are skipped without waiting for the timeout, and every result is delivered exactly once. IPv4 addresses, IPv6 addresses (with or without brackets), port numbers and service names are taken literally, never replaced by another host; without a port, 5668 is used. If no address is reachable, the client fails promptly with a message naming the cause. nsca-ng listens on exactly the address and port given by -b or `listen` (IPv6 addresses in brackets; the default port if none is given) and otherwise refuses to start with a message naming the cause.",
 ["inputs", "configurations", "histories"], "every list of addresses, every subset of reachable ones (also changing over the life of an object), every spelling of addresses and ports",
 "The tests only ever connect to localhost, which resolves to one address here.",
 ["src/common/tls.c", "src/client/send_nsca.c", "src/server/nsca-ng.c", "perl/client.c", "python/client.c"],
 [("connecting", "src/common/tls.c tls_connect, connect_cb"), ("binding", "src/common/tls.c tls_server_start, src/server/nsca-ng.c main"), ("modules", "perl/client.c, python/client.c nscang_client_init")],
 ["exit status, exceptions and messages", "time taken", "connections and commands at the servers", "listening sockets"])

prop("C30", "The Perl module submits results exactly as given or dies",
 "For all argument values, Net::NSCAng::Client's host_result, svc_result and command either return normally, and then the server has acknowledged exactly one command with precisely the given host, service, status and text, or die with an error message. A command without a timestamp is given the current one, and one with a malformed timestamp is refused. They never truncate or alter data silently, never crash the interpreter, leave its signal handling as it was, and any number of results can be sent over one object.",
 ["inputs", "histories"], "every argument value and length, and every sequence of calls",
 "The Perl tests cover the constructor and offline errors only.",
 ["perl/client.c", "perl/Client.xs"],
 [("nscang_client_send_command / push", "perl/client.c")],
 ["commands received by a scripted server", "exceptions, interpreter exit status"])

prop("C31", "The Python module submits results exactly as given or raises",
 "For all argument values, NSCAngNotifyer's host_result and svc_result either return normally, and then the server has acknowledged exactly one command with precisely the given host, service, status and text, or raise an exception. They never truncate or alter data silently or send memory contents, never crash the interpreter whatever they or the constructor were given, arguments of the wrong type raise TypeError, connections end with their object, and any number of results can be sent over one object.",
 ["inputs", "histories"], "every argument value and length, and every sequence of calls",
 "There is no Python test at all.",
 ["python/client.c", "python/nscang.c"],
 [("nscang_client_send_command / push", "python/client.c")],
 ["commands received by a scripted server", "exceptions, interpreter exit status"])

prop("C32", "The language modules survive and report every hostile server behaviour",
 "Whatever a server sends or does (FAIL, BAIL, garbage, empty or overlong responses, format directives, disconnection, reset or silence at any step), the Perl and Python modules raise an error within the configured timeout, report success exactly for the commands actually acknowledged and the server's reason for a refusal, and never corrupt memory, spin, hang or crash the interpreter.",
 ["fault_sequences", "inputs"], "every server response script and disconnection point",
 "No test runs the modules against a server.",
 ["perl/client.c", "perl/Client.xs", "python/client.c", "python/nscang.c"],
 [("nscang_client_response", "perl/client.c, python/client.c"), ("exceptions", "perl/Client.xs, python/nscang.c")],
 ["exceptions, interpreter exit status, sanitizer reports"])

prop("C33", "The language modules recover when the server closed an idle connection",
 "When the server has ended the connection of a long-lived notifier object (idle timeout, restart), a later submission against a healthy server reconnects transparently and is delivered exactly once, or, with the Perl module, may raise once; after such an error a further attempt succeeds.",
 ["histories", "fault_sequences"], "every sequence of submissions, pauses beyond the idle timeout and server restarts",
 "No test runs the modules against a server.",
 ["perl/client.c", "python/client.c", "python/nscang.c"],
 [("reconnect", "nscang_client_send_push, NSCAngNotifyer_result")],
 ["delivered commands, exceptions"])

prop("C40", "The contributed scripts submit their arguments and plugin output verbatim",
 "For all host names, service descriptions, comments and plugin outputs, invoke_check, acknowledge, downtime, enable_notifications and disable_notifications hand send_nsca exactly the command corresponding to their arguments; backslashes, percent signs or other special characters in them are neither interpreted nor lost. invoke_check submits the exit status of the plugin it ran as the state and submits nothing if that status is no valid state.",
 ["inputs"], "every argument and plugin output text",
 "The scripts have no tests.",
 ["contrib"],
 [("printf to send_nsca", "contrib/invoke_check")],
 ["standard input and arguments seen by a stand-in send_nsca", "commands delivered end to end"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
