# One p(...) per property; executed by props.py.
T0 = "The existing tests only start, query and stop a daemon with one test console; "

p("C01", "Buffered output is an exact FIFO that loses only its oldest bytes",
  "Every byte queued for a console, client or logfile reaches that descriptor exactly once and in order, whatever mix of partial writes, interruptions and would-block results the kernel returns. When the fixed-size buffer overflows, only the oldest undelivered bytes are lost, so what is delivered afterwards is a contiguous run ending with the newest byte queued. Queueing never blocks and never touches memory outside the buffer.",
  ["inputs", "histories", "fault_sequences"],
  "every sequence of queue/flush operations with every chunk length and content, from every fill level and wrap position, and every result of each write call",
  T0 + "no write is ever partial and the buffer never wraps or overflows.",
  ["src/server-obj.c"],
  [("write_obj_data: circular copy, overwrite adjustment", "src/server-obj.c:write_obj_data"),
   ("write_to_obj: two-part vectored write, pointer advance", "src/server-obj.c:write_to_obj")],
  [("buf/bufInPtr/bufOutPtr", "src/server.h:base_obj")], ["bytes passed to writev on the object's descriptor"])

p("C02", "Console output reaches every attached reader and the log, unchanged",
  "Each chunk of output read from a console is appended, whole and in order, to the pending output of every client attached to it for reading and to its (unprocessed) logfile, and to nothing else. One party being slow, suspended, closing or already at end-of-file does not change what the others receive. Interrupted or would-block reads lose nothing and are not treated as disconnects.",
  ["inputs", "histories", "fault_sequences"],
  "every chunk content and length, every set of attached readers and writers and their states, every result of the read call",
  T0 + "no console output is ever read by more than one party.",
  ["src/server-obj.c"],
  [("read_from_obj: fan out to each reader", "src/server-obj.c:read_from_obj")],
  [("readers/writers lists", "src/server.h:base_obj")])

p("C03", "Typed data reaches the console byte-exact; commands never leak into it",
  "The bytes a user types (including 0xFF) reach each console the client may write to byte for byte and in order, no matter how the stream is split across reads. In-band command sequences are recognised identically under every split, take effect exactly once, and none of their bytes is ever delivered to a console.",
  ["inputs", "schedules"],
  "every byte string typed or sent and every way of splitting it into reads",
  T0 + "no client session is ever opened, so neither the stuffing nor the parser runs.",
  ["src/server-esc.c", "src/server-obj.c", "src/client-tty.c"],
  [("process_client_escapes: 0xFF state machine", "src/server-esc.c:process_client_escapes"),
   ("read_from_stdin: stuffing of 0xFF", "src/client-tty.c:read_from_stdin")],
  [("gotEscape", "src/server.h:client_obj")])

p("C04", "Telnet protocol bytes are removed and answered correctly under any split",
  "From a telnet terminal server's byte stream exactly the data bytes (with doubled 0xFF reduced to one) reach readers, independent of how the stream is split into reads. Commands, option negotiations and sub-negotiations never appear as data, and each negotiation is answered at most once, with refusals for unsupported options, so that no exchange of acknowledgements can loop. A new connection starts parsing from a clean state.",
  ["inputs", "schedules", "histories"],
  "every byte stream, every split of it into reads, and any point at which the connection drops and is re-established",
  T0 + "no telnet console is configured.",
  ["src/server-telnet.c"],
  [("process_telnet_escapes / process_telnet_cmd", "src/server-telnet.c:process_telnet_escapes"),
   ("send_telnet_cmd", "src/server-telnet.c:send_telnet_cmd")],
  [("iac", "src/server.h:telnet_obj")])

p("C05", "Processed logs are printable, line-preserving and stamped at line starts",
  "With sanitizing on, a console's log contains only printable 7-bit characters and CR/LF line ends, the number and position of lines is preserved, and the result does not depend on how the output was split into reads. With timestamping on, every line (an empty one included) begins with exactly one timestamp and timestamps appear nowhere else. With neither, the log is the console output byte for byte; no input can overrun the conversion buffer or lose data.",
  ["inputs", "schedules"],
  "every console byte string, every split of it into reads, all four option combinations, with and without earlier log content",
  T0 + "log contents are never examined.",
  ["src/server-logfile.c"],
  [("write_log_data: CR/LF state machine and conversion", "src/server-logfile.c:write_log_data")],
  [("lineState", "src/server.h:logfile_obj")])

p("C06", "A read-only client can never affect a console",
  "No byte sequence sent by a client that does not hold write access puts data into a console's pending output, sends it a serial break, or starts a reset command. The only way it can obtain write access is an explicit in-session join or force request, and after giving write access up it is read-only again.",
  ["inputs", "histories"],
  "every byte sequence from a client in every attachment state, under every split",
  T0 + "no client is ever attached read-only.",
  ["src/server-esc.c", "src/server-obj.c"],
  [("write access = console in client's readers list", "src/server-obj.c:link_objs"),
   ("perform_break/perform_reset iterate over writable consoles", "src/server-esc.c")])

p("C07", "Write access is exclusive unless explicitly joined or forced",
  "A request for write access to a console that already has a writer is refused, naming the current writers, unless it asks to join or to force. A forced request leaves the requester as the only writer of each console it opens, after telling the displaced clients who displaced them; a joined request leaves existing writers in place; a refused request changes nothing.",
  ["inputs", "histories", "configurations"],
  "every combination of request mode and options with every set of consoles and existing readers and writers",
  T0 + "no two clients ever contend for a console.",
  ["src/server-sock.c", "src/server-obj.c"],
  [("check_busy_consoles", "src/server-sock.c:check_busy_consoles"),
   ("link_objs: stealing", "src/server-obj.c:link_objs"),
   ("perform_connect_cmd/perform_monitor_cmd", "src/server-sock.c")])

p("C08", "Attachments stay mutually consistent and vanish with the client",
  "Whenever one party is recorded as reading from another, the other records it as writing to it, exactly once, through every sequence of attach, join, force, switch, detach and disconnect. After a client's connection is closed no console refers to it, its consoles and the other clients remain attached as before, and its resources are released exactly once.",
  ["histories", "schedules"],
  "every bounded sequence of attach/switch/steal/disconnect operations over a few consoles and clients",
  T0 + "objects are only created once and never relinked.",
  ["src/server-obj.c", "src/server-esc.c"],
  [("link_objs/unlink_objs/unlink_obj", "src/server-obj.c"),
   ("shutdown_obj", "src/server-obj.c:shutdown_obj")],
  [("readers/writers lists", "src/server.h:base_obj")])

p("C09", "A detached or hung-up client is drained and then always disconnected",
  "A client that has been displaced from its last console, or that has closed its side, receives the output already queued for it and no more, and is then disconnected and removed. This holds whether it is suspended, in quiet mode, slow, or still sending: no such client lingers with an open connection that is no longer serviced.",
  ["histories", "schedules", "fault_sequences"],
  "every client state (quiet, suspended, pending output or none) at the moment of displacement or hang-up, and every later I/O result",
  T0 + "no client is displaced or suspended.",
  ["src/server-obj.c", "src/server-esc.c"],
  [("gotEOF set by unlink_objs / read_from_obj", "src/server-obj.c"),
   ("write_to_obj: shutdown when drained", "src/server-obj.c:write_to_obj")],
  [("gotEOF, gotSuspend, poll events", "src/server.h")])

p("C10", "No client behaviour or transient resource failure terminates the daemon",
  "Whatever bytes a client sends during its request or session, whenever it disconnects or resets its connection, and whichever accept, thread, name-lookup, socket-option or write call fails for it, the daemon keeps running and its other consoles and clients are unaffected. The failing client's connection is closed and its resources are released exactly once.",
  ["inputs", "fault_sequences", "schedules"],
  "every request byte string, every in-session byte string in every attachment state, and every failure of each system call made on the client's behalf",
  T0 + "clients are well behaved and no call fails.",
  ["src/server.c", "src/server-sock.c", "src/server-esc.c", "src/server-obj.c"],
  [("accept_client", "src/server.c:accept_client"),
   ("process_client error paths", "src/server-sock.c:process_client"),
   ("process_client_escapes", "src/server-esc.c:process_client_escapes")])

p("C11", "The lexer is total: any text yields tokens in order and then end-of-input",
  "For every input string tokenising terminates, never reads or writes outside its own text, reports line numbers equal to the number of newlines passed, and recognises keywords case-insensitively only as whole words. Text encoded for transmission decodes to the original for every 7-bit text, and the encoded form contains no quote characters.",
  ["inputs"], "every NUL-terminated string up to the bound and every keyword table order",
  T0 + "only a single short configuration is ever tokenised.",
  ["src/lex.c"], [("lex_next, lex_encode, lex_decode", "src/lex.c")])

p("C12", "A client's request arrives at the daemon exactly as it was made",
  "For every combination of user, terminal, mode, options and console names (non-empty and shorter than 1 KB, the lexer's limit), the daemon that parses the request a client sends acts on the same user, terminal, mode, options and names in the same order, including 7-bit values with quotes, spaces and control characters other than line breaks; words it does not know are ignored. A request that is cut short or carries no command, or a greeting that is cut short or names no user, is refused and never acted upon.",
  ["inputs", "fault_sequences"], "every field content up to the bound, every option combination and every corruption of the line",
  T0 + "only the query command with no options is sent.",
  ["src/client-sock.c", "src/server-sock.c", "src/lex.c", "src/common.c"],
  [("send_req", "src/client-sock.c:send_req"), ("recv_req / parse_cmd_opts", "src/server-sock.c:recv_req")])

p("C13", "The daemon's answer is reported to the user exactly and untruncated",
  "Each refusal or acceptance the daemon sends is read back by the client with the same error code, the same text and the same list of consoles, and the options reported as enabled by the daemon are the ones the client enables; words the client does not know are ignored. An answer that does not fit is not sent in part, and one that carries neither acceptance nor refusal, or is cut short, is reported as an error, never as success.",
  ["inputs", "fault_sequences"], "every error code, message text, console list and option set, and every truncation or corruption",
  T0 + "the client never receives an error.",
  ["src/server-sock.c", "src/client-sock.c"],
  [("send_rsp", "src/server-sock.c:send_rsp"), ("recv_rsp / parse_rsp_ok / parse_rsp_err", "src/client-sock.c:recv_rsp")])

p("C14", "Lists keep exact sequence semantics while being iterated and modified",
  "Every sequence of append, prepend, insert, remove, find, delete, push/pop, enqueue/dequeue, sort and iterate operations gives the result it would give on an ordinary sequence. Iterators active during insertions and removals visit every element that stays exactly once and never a removed one, and removed elements are freed exactly when requested.",
  ["histories"], "every bounded sequence of list operations with two concurrently active iterators",
  T0 + "the lists hold one console and are never modified while iterated.",
  ["src/list.c"], [("list_node_create/list_node_destroy iterator fix-up", "src/list.c")])

p("C15", "Console names are ordered naturally and consistently",
  "Names are ordered by the characters before their trailing number, and when these are equal by the numeric value of that number, however long. The order is consistent (total, transitive, equal only for equal names), so that sorting gives the same list whatever the initial order. Duplicates in a request's result are removed so that each console appears once.",
  ["inputs"], "every pair and triple of names up to the bound, including numbers that exceed machine integers",
  T0 + "only one console name exists.",
  ["src/server-obj.c", "src/server-sock.c", "src/list.c"],
  [("compare_objs, find_trailing_int_str", "src/server-obj.c:compare_objs")])

p("C16", "Name expansion is bounded, complete and cannot escape its directory",
  "Expanding a file-name or command pattern for a console writes at most the space given, is always terminated, and either yields the complete expansion or reports failure, never a silently shortened name. Substituted console and device names have every slash and non-printable character replaced, so that a substituted value never introduces a directory separator.",
  ["inputs", "configurations"], "every pattern, console name, device name and buffer size up to the bound",
  T0 + "no pattern is expanded.",
  ["src/server-obj.c"], [("format_obj_string, sanitize_file_string", "src/server-obj.c:format_obj_string")])

p("C17", "String helpers never overrun and always terminate their result",
  "For every destination size and every source and format, the bounded copy, append, formatted append and prefix helpers write only inside the destination, leave it terminated, and report truncation exactly when text was lost. Once a string has been truncated, further appends leave it unchanged.",
  ["inputs"], "every buffer size, prior content and source string up to the bound",
  T0 + "no string is ever long enough to be truncated.",
  ["src/util-str.c", "src/util-net.c"],
  [("append_format_string, substitute_string", "src/util-str.c"), ("host copy helpers", "src/util-net.c")])

p("C18", "Socket helpers transfer exactly the requested bytes under any short I/O",
  "Reading n bytes, writing n bytes and reading one line give the same bytes as a single uninterrupted transfer for every sequence of short transfers and interruptions, stop at end-of-file, and report errors as errors. Line reads never store more than the given size, always terminate the text they return, and never consume bytes beyond the line that a later read needs.",
  ["inputs", "fault_sequences"], "every sequence of read/write results and every stream content up to the bound",
  T0 + "every transfer completes in one call.",
  ["src/util-file.c"], [("read_n, write_n, read_line", "src/util-file.c")])

p("C19", "Directory and path helpers create exactly the missing parents",
  "For every path, extracting its directory part yields the text before the final component (or a single dot when there is none) without overrunning the given buffer, and creating directories makes every missing prefix of the path in order, nothing else, and fails only when a needed component cannot be created.",
  ["inputs", "fault_sequences"], "every path string, buffer size and set of already existing directories up to the bound",
  T0 + "paths are fixed.",
  ["src/util-file.c"], [("get_dir_name, create_dirs", "src/util-file.c")])

p("C20", "Timers fire once, in order, never early, and not after cancellation",
  "Each scheduled timer runs exactly once, not before its due time, in due-time order, unless it was cancelled first, in which case it never runs. Waiting for input never sleeps past the next due timer (rounded up to the next millisecond) nor spins while one is pending, however far away it is; a wait already in progress is woken when another thread changes what it waits for. Callbacks may freely add and cancel timers, and identifiers never collide while in use.",
  ["histories", "schedules", "inputs"], "every bounded sequence of schedule/cancel/wait operations with arbitrary clock readings, and callbacks that add or cancel timers",
  T0 + "timer callbacks never interact.",
  ["src/tpoll.c"], [("tpoll_timeout_absolute/relative/cancel, _tpoll dispatch", "src/tpoll.c")])

p("C21", "The poll set reports exactly the descriptors and events being watched",
  "After any sequence of adding, removing, clearing and zeroing watched events, the set waited upon contains each watched descriptor exactly once with exactly its requested events and no other descriptor, however far it has grown. An event query answers true only for events the last wait actually reported for that descriptor.",
  ["histories", "inputs"], "every bounded sequence of set/clear/test/zero operations on arbitrary descriptors and event masks",
  T0 + "the set never grows or has entries removed while in use.",
  ["src/tpoll.c"], [("tpoll_set/clear/is_set/zero", "src/tpoll.c")])

p("C22", "A lost console connection is always retried, with bounded exponential delay",
  "Whenever a network, process or local-socket console is not connected and not connecting, a retry is pending: the delay starts at that console type's minimum, doubles on each consecutive failure, never exceeds its maximum, and returns to its initial value (an immediate retry where the type has one) after a stable connection; failed name look-ups are retried at a fixed interval, and a file-system watch event may start an attempt at once. No console ever has two retries pending or leaks a descriptor, and failure of one connection attempt never terminates the daemon.",
  ["histories", "fault_sequences"], "every bounded sequence of connect outcomes, disconnects, lookups and timer expirations, with arbitrary uptime",
  T0 + "the only console never disconnects.",
  ["src/server-telnet.c", "src/server-process.c", "src/server-unixsock.c", "src/server-ipmi.c"],
  [("connect_*/disconnect_* and delay doubling", "src/server-telnet.c"), ("process consoles", "src/server-process.c"), ("unix sockets", "src/server-unixsock.c")],
  [("state, delay, timer", "src/server.h")])

p("C23", "Log replay shows exactly the most recent logged bytes",
  "A log-replay request delivers, after its header, exactly the last bytes of the console's logged output up to the documented 4 KB, in order and without stale or unwritten data, and only to the requesting client. Output logged before the daemon started, or discarded because its logfile could not be written, does not count. The request does not disturb what is still to be written to the logfile, nor any other party's output.",
  ["inputs", "histories"], "every amount and content of logged output, every wrap position and pending amount, before and after the logfile is reopened",
  T0 + "no replay is ever requested.",
  ["src/server-esc.c", "src/server-obj.c"], [("perform_log_replay", "src/server-esc.c:perform_log_replay")],
  [("gotBufWrap, bufInPtr", "src/server.h:base_obj")])

p("C24", "Console option strings are applied completely or not at all",
  "For every log, serial, IPMI and test-console option string, the parser either accepts it, and then every resulting setting is the documented meaning of the text (later settings overriding earlier ones, unmentioned settings keeping their previous value) and within its documented range, or rejects it with a message and leaves all settings unchanged. A number that is missing, followed by other text, or too large to represent is never accepted as some other number. In a log option string an unrecognised word is reported and skipped, and does not affect the other words. No string can overrun a setting's storage.",
  ["inputs", "configurations"], "every option string up to the bound and every prior setting",
  T0 + "only one option string is parsed.",
  ["src/server-logfile.c", "src/server-serial.c", "src/server-test.c", "src/server-ipmi.c"],
  [("parse_logfile_opts", "src/server-logfile.c"), ("parse_serial_opts", "src/server-serial.c"),
   ("parse_test_opts", "src/server-test.c"), ("parse_ipmi_opts", "src/server-ipmi.c")])

p("C25", "No two consoles share a name, a device or a logfile",
  "A configuration in which two consoles would have the same name, the same serial or local-socket device, the same terminal-server port or the same log file is detected, and the second definition is rejected with a message while the first keeps working. Distinct definitions are all accepted.",
  ["configurations", "inputs"], "every pair of console definitions up to the bound, including names given through patterns and relative paths",
  T0 + "only one console is configured.",
  ["src/server-conf.c", "src/server-logfile.c", "src/server-serial.c", "src/server-telnet.c", "src/server-unixsock.c", "src/server-ipmi.c", "src/server-test.c", "src/server-process.c"],
  [("duplicate checks in create_*_obj", "src/server-*.c")])

p("C26", "Configuration text of any kind is either applied or reported, never fatal",
  "For every configuration file content each directive is applied as documented or reported with its line number and skipped, and parsing always finishes without crash or hang. An error in one directive never changes the effect of the directives on the following lines, and numeric settings are accepted only within their valid range.",
  ["inputs", "configurations"], "every token sequence and directive value up to the bound",
  T0 + "one valid configuration is parsed.",
  ["src/server-conf.c"], [("parse_server_directive, parse_console_directive, parse_global_directive", "src/server-conf.c")])

p("C27", "Programs the daemon runs start from a known-safe environment",
  "Whatever environment the daemon is started with, the environment it uses from before any console is opened (and so the one the programs it executes inherit) consists of a fixed field separator, the standard search path, a dumb terminal, and the caller's DEBUG and TZ values if set, and nothing else. Whichever standard descriptors are closed at start, all three are open by the time programs are executed, and none of the daemon's own descriptors is ever replaced by one of them.",
  ["inputs", "configurations"], "every environment list and every set of initially closed standard descriptors up to the bound",
  T0 + "one environment is used.",
  ["src/server.c"], [("setup_sane_env / environment reset", "src/server.c")])

p("C28", "Quiet mode and suspension change only what that client is shown",
  "A client in quiet mode receives no informational messages and all console output; a suspended client receives nothing until it resumes and then everything still retained, in order. Toggling twice restores the original behaviour, and neither mode alters what any other client, the log or the console receives.",
  ["histories", "inputs"], "every interleaving of toggles, console output and informational messages",
  T0 + "neither mode is exercised.",
  ["src/server-esc.c", "src/server-obj.c"],
  [("perform_quiet, perform_suspend", "src/server-esc.c"), ("write_obj_data isInfo/gotSuspend", "src/server-obj.c")])

p("C29", "A reset request runs the configured command once per writable console",
  "A reset request starts the configured reset command, with that console's name substituted, exactly once for each console the client can write to and that has a reset command, and for no other. While a console's reset is still running a further request does not start another; a command that outlives the time limit is terminated together with its process group; and no failure to start it affects the daemon.",
  ["histories", "fault_sequences", "inputs"], "every sequence of reset requests, process completions and timer expirations, and every fork outcome",
  T0 + "no reset command is configured.",
  ["src/server-esc.c"], [("perform_reset, perform_reset_by_console, kill_reset_cmd", "src/server-esc.c")],
  [("resetCmdPid, resetCmdTimer", "src/server.h:base_obj")])

p("C30", "Logfiles are appended across restarts and locked by one writer",
  "Opening a console's logfile preserves its existing content unless truncation was requested, and then only at the first opening and never on reopening. A logfile that another process holds locked is not written, a failed opening leaves the console working without it, and reopening always follows the current name expansion without leaking a descriptor.",
  ["configurations", "fault_sequences", "histories"], "every option combination, every outcome of each file operation, and every sequence of reopenings",
  T0 + "no logfile is reopened, truncated or found locked.",
  ["src/server-logfile.c", "src/server-obj.c"], [("open_logfile_obj", "src/server-logfile.c:open_logfile_obj")])

p("C31", "Daemon log messages are whole, bounded single lines",
  "Every diagnostic the daemon emits appears once in each enabled destination, with its severity prefix (in the log file) and exactly one line end after its text, truncated if it is too long but never corrupting memory or swallowing the line end, and only if its severity is at or above that destination's threshold. A fatal diagnostic always ends the program with a failure status.",
  ["inputs", "configurations"], "every message length, format content, severity, threshold and destination set up to the bound",
  T0 + "message contents and lengths are not varied.",
  ["src/log.c"], [("log_aux, log_msg, log_err", "src/log.c")])

p("C32", "Host look-ups are copied without overrun and without shared storage",
  "For every resolver answer the copied host entry either equals the answer field by field inside the caller's buffer or the call fails with a range error, never writing outside the buffer and never pointing at the resolver's own storage.",
  ["inputs"], "every host entry shape (aliases, addresses, lengths) and every buffer size up to the bound",
  T0 + "only the local host is resolved.",
  ["src/util-net.c"], [("copy_hostent", "src/util-net.c:copy_hostent"), ("get_host_by_name/addr wrappers", "src/util-net.c")])

p("C33", "Periodic log timestamps appear at every interval boundary and only there",
  "With an interval configured, exactly one stamp is pending from start-up on: the first is due at the next multiple of the interval since local midnight, at most one interval ahead, and each later one exactly one interval after the previous one however late the timer ran. Each expiry puts exactly one stamp, on a line of its own naming the console and the time, into every console log and nowhere else. With no interval configured none is ever written.",
  ["inputs", "histories"], "every interval, clock reading and timer lateness up to the bound",
  T0 + "the interval is disabled.",
  ["src/server.c"], [("schedule_timestamp, timestamp_logfiles", "src/server.c")])

p("C34", "File-system watch events reach exactly their registered handler",
  "Each event reported by the kernel for a watched path invokes the handler registered for that path once with its argument, for every batch of events in one read; events for other or removed paths invoke nothing, and no batch content makes the reader run past the batch.",
  ["inputs", "histories"], "every batch of events up to the bound and every add/remove history",
  T0 + "no watch is ever installed.",
  ["src/inevent.c"], [("inevent_add, inevent_remove, inevent_process", "src/inevent.c")])

p("C35", "Terminal lines are put in exactly the requested mode",
  "A serial console's line gets exactly the configured speed, character size, parity and stop bits in raw, receiver-enabled mode with no echo or translation, for every configured combination, and the saved settings are restored when it is released. The user's own terminal is made fully transparent for a session.",
  ["inputs", "configurations"], "every prior terminal state and every option combination",
  T0 + "no terminal device is configured.",
  ["src/server-serial.c", "src/common.c"], [("set_serial_opts", "src/server-serial.c:set_serial_opts"), ("get_tty_raw", "src/common.c:get_tty_raw")])

p("C36", "Session notices reach each other participant exactly once and are well formed",
  "When a client gains, loses or takes over write access, every other party attached to that console is told exactly once who did it and when, in one message that begins and ends on its own line and fits its buffer whatever the lengths of the names. A party attached for both reading and writing is not told twice.",
  ["inputs", "histories", "configurations"], "every set of attached parties and every name length up to the bound",
  T0 + "no second client is present.",
  ["src/server-obj.c"], [("notify_console_objs, link_objs, unlink_objs, write_notify_msg", "src/server-obj.c")])

p("C37", "The user's escape commands are recognised exactly and lose no input",
  "While a session is open, every key typed is passed to the daemon unchanged except an escape character followed by a command key, which performs that command; a doubled escape character passes exactly one, and an unknown sequence is passed through whole. This holds for every escape character the user may choose and however the typing is split into reads.",
  ["inputs", "schedules", "configurations"], "every typed byte string, every escape character and every split into reads",
  T0 + "the interactive client is never run.",
  ["src/client-tty.c"], [("read_from_stdin, process_client_escapes (client)", "src/client-tty.c:read_from_stdin")])

p("C38", "Broadcast and multi-console sessions treat every console alike",
  "Data and commands from a client attached to several consoles are applied to each of them exactly once and identically, and a broadcasting client is shown no console output. A request for more than one console is refused unless it is a broadcast.",
  ["inputs", "histories", "configurations"], "every set of consoles and every byte string up to the bound",
  T0 + "no broadcast session is opened.",
  ["src/server-sock.c", "src/server-obj.c", "src/server-esc.c"],
  [("perform_connect_cmd, validate_req", "src/server-sock.c"), ("read_from_obj fan-out", "src/server-obj.c")])
