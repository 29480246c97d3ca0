OBJ = ["server-obj.c", "list.c"]
WS = ["weak_stubs.c"]
LM = {"list.c": "list_model.c"}
OBJMEM = {"server-obj.c": ["-Dmalloc=obj_malloc", "-Dcalloc=obj_calloc"]}
# ---------------------------------------------------------------- C01
for t in ("LOGFILE", "CLIENT"):
    H("ring_" + t.lower(), "ring.c", OBJ + ["util-str.c"],
      "buffer capacity scaled to 3 (OBJ_BUF_SIZE 4), 5 queue/flush operations, chunks 1..3 bytes, <=1 EINTR per flush, partial/zero/would-block writes",
      redirect=["writev", "close"], scale={"OBJ_BUF_SIZE": 4}, unwind=6, extra_src=WS, transform=T_BUF, file_defs=OBJMEM,
      harness_defs=["-DOTYPE=CONMAN_OBJ_" + t], weight=40)
for op in (0, 1):
  H("ring_full%d" % op, "ringfull.c", OBJ + ["util-str.c"],
  "real buffer size 16384, one operation from every valid buffer state (induction step: covers histories of any length), chunks 1..16383, one arbitrary byte of the stream followed",
  redirect=["writev", "close"], unwind=6, extra_src=WS, transform=T_BUF,
  file_defs={"server-obj.c": ["-Dmalloc=full_malloc", "-Dmemcpy=st_memcpy"]}, weight=30, advisory=True, harness_defs=["-DOP=%d" % op])
prop("C01", ["ring_logfile", "ring_client", "ring_full0", "ring_full1"])
# ---------------------------------------------------------------- C03 / C06 / C38
def client_in(name, mode, kt, wn, shape=0, L=3, rd=None, dw=0, **kw):
    L = 4 if shape else L
    H(name, "client_in.c", OBJ + ["server-esc.c"] + (["server-telnet.c"] if kt == "TELNET" else []),
      "client in mode %s, console type %s, %s, read in pieces of %d" % (mode, kt,
        ["every stream of %d bytes after any pending escape, not changing the access mode" % L, "data, any command, data", "any two commands"][shape], rd or L),
      redirect=["close", "read", "snprintf", "vsnprintf", "tcsendbreak", "open", "fork", "setpgid", "kill", "time", "execl", "_exit", "dup2"],
      intercept=["write_obj_data", "notify_console_objs"] + ([] if shape else ["link_objs", "unlink_objs"]),
      unwind=5, extra_src=WS, scale={"OBJ_BUF_SIZE": 16, "LOG_REPLAY_LEN": 2, "MAX_LINE": 16}, model=LM, transform=T_AUX,
      harness_defs=["-DMODE=MODE_" + mode, "-DKTYPE=CONMAN_OBJ_" + kt, "-DLEN=%d" % L, "-DRD=%d" % (rd or L), "-DSHAPE=%d" % shape, "-DLM_CAP=3", "-DDW=%d" % dw] + (["-DTELNETC"] if kt == "TELNET" else []) + ["-DWITN=%d" % wn], weight=20, **kw)
client_in("cin_rw_serial", "RW", "SERIAL", 3)
client_in("cin_rw_serial_split", "RW", "SERIAL", 3, rd=1)
client_in("cin_rw_telnet", "RW", "TELNET", 2)
client_in("cin_bc_process", "BC", "PROCESS", 3)
client_in("cin_ro_serial", "RO", "SERIAL", 0)
client_in("cin_gone_serial", "GONE", "SERIAL", 0)
client_in("cin_rw_cmd1", "RW", "SERIAL", 2, shape=1)
client_in("cin_rw_cmd2", "RW", "SERIAL", 2, shape=2)
client_in("cin_ro_cmd1", "RO", "SERIAL", 1, shape=1)
client_in("cin_ro_cmd2", "RO", "SERIAL", 1, shape=2)
client_in("cin_ro_cmd1w", "RO", "SERIAL", 1, shape=1, dw=1)
client_in("cin_ro_cmd2w", "RO", "SERIAL", 1, shape=2, dw=1)
client_in("cin_gone_cmd1", "GONE", "SERIAL", 0, shape=1)
prop("C03", ["cin_rw_serial", "cin_rw_serial_split", "cin_rw_telnet", "cin_rw_cmd1", "cin_rw_cmd2"])
prop("C38", ["cin_bc_process"])
prop("C06", ["cin_ro_serial", "cin_gone_serial", "cin_ro_cmd1", "cin_ro_cmd2", "cin_ro_cmd1w", "cin_ro_cmd2w", "cin_gone_cmd1"])
# ---------------------------------------------------------------- C17
for t, b in (("APPEND", "destination sizes 0..6 with any previous content, two appends of any strings up to 6"),
          ("SUBST", "destination sizes 1..6, every pattern up to 5 bytes, every substitute up to 3 bytes or none"),
          ("PARSE", "every command line up to 6 bytes, up to 4 words"), ("MISC", "every string up to 6 bytes"), ("DELTA", "every difference below 20000 s")):
    H("str_" + t.lower(), "strs.c", ["util-str.c"], b, redirect=["time", "localtime_r", "strftime"] + (["snprintf"] if t == "DELTA" else []), scale={"MAX_STR_SIZE": 4}, unwind=9, hunwind=34,
      harness_defs=["-DTEST=T_" + t, "-DLC_DIGITS=3"])
prop("C17", ["str_append", "str_subst", "str_parse", "str_misc", "str_delta"])
# ---------------------------------------------------------------- C22
CONNR = ["read", "socket", "setsockopt", "getsockopt", "connect", "access", "socketpair", "fork", "kill", "execv", "_exit", "dup2", "time"]
def conn(typ, pre, steps, **kw):
    H("conn_%s%s" % (typ.lower(), pre or ""), "conn.c", OBJ + ["server-%s.c" % typ.lower()],
      "console type %s, %d failed attempts and then every sequence of %d events (timer, loss, completion, watch event) with every outcome of each system call" % (typ, pre, steps),
      redirect=CONNR, intercept=["write_obj_data", "notify_console_objs", "write_notify_msg"], unwind=5, extra_src=WS, model=LM, transform=T_AUX,
      scale={"OBJ_BUF_SIZE": 16, "MAX_LINE": 16},
      file_defs={f: ["-Dclose=cn_close", "-Dstat(a,b)=st_stat(a,b)"] for f in OBJ + ["server-%s.c" % typ.lower()]},
      harness_defs=["-DTYPE=%s" % typ, "-DPRE=%d" % pre, "-DSTEPS=%d" % steps, "-DLM_CAP=2"], weight=20, **kw)
conn("TELNET", 0, 4)
conn("TELNET", 8, 2)
conn("UNIXSOCK", 0, 4)
conn("UNIXSOCK", 7, 2)
conn("PROCESS", 0, 4)
conn("PROCESS", 6, 2)
prop("C22", ["conn_telnet", "conn_telnet8", "conn_unixsock", "conn_unixsock7", "conn_process", "conn_process6"])
# ---------------------------------------------------------------- C04
def tel(name, L, rd, cut=0, **kw):
    H(name, "tel.c", OBJ + ["server-telnet.c"],
      "every stream of %d bytes from the terminal server, read in pieces of %d%s" % (L, rd, ", connection lost and re-established after %d bytes" % cut if cut else ""),
      redirect=["read", "socket", "setsockopt", "connect", "getsockopt"], intercept=["write_obj_data", "notify_console_objs", "write_notify_msg"],
      unwind=8, extra_src=WS, model=LM, transform=T_AUX, scale={"OBJ_BUF_SIZE": 32, "MAX_LINE": 16},
      file_defs={f: ["-Dclose=cn_close"] for f in OBJ + ["server-telnet.c"]},
      harness_defs=["-DLEN=%d" % L, "-DRD=%d" % rd, "-DCUT=%d" % cut, "-DLM_CAP=2"], weight=20, **kw)
tel("tel_whole", 5, 5)
tel("tel_bytes", 5, 1)
tel("tel_split", 5, 2)
tel("tel_recon1", 4, 4, 1)
tel("tel_recon2", 5, 5, 2)
tel("tel_recon3", 6, 6, 3)
tel("tel_long", 8, 3)
prop("C04", ["tel_whole", "tel_bytes", "tel_split", "tel_recon1", "tel_recon2", "tel_recon3"], ["tel_long"])
# ---------------------------------------------------------------- C18 / C19
def files(t, b, name=None, S=4, u=11, hu=26):
    H(name or "file_" + t.lower(), "files.c", ["util-file.c"], b, redirect=["read", "write", "fcntl", "mkdir"], file_defs={"util-file.c": ["-Dstat(a,b)=st_stat(a,b)", "-DPATH_MAX=%d" % (8 if t == "MKDIRS" else 24)]},
      unwind=u, hunwind=hu, harness_defs=["-DTEST=T_" + t, "-DMKS=%d" % S], weight=10)
files("READN", "transfers of 0..6 bytes, any short transfers, <=2 interruptions, EOF or error at any point")
files("WRITEN", "transfers of 0..6 bytes, any short transfers, <=2 interruptions, error at any point")
files("LINE", "streams of 0..6 arbitrary bytes, sizes 0..7, <=2 interruptions, EOF or error at any point")
files("DIRNAME", "every path up to 6 bytes, sizes 0..8")
for S in (4, 5):
    files("MKDIRS", "every path up to %d bytes over {slash, letter}, every state (missing, directory, other, unwritable) of each prefix" % S, "file_mkdirs%d" % S, S, S + 2, S + 3)
prop("C18", ["file_readn", "file_writen", "file_line"])
prop("C19", ["file_dirname", "file_mkdirs4"], ["file_mkdirs5"])
# ---------------------------------------------------------------- C14
FIRST = ["", "a sort, then ", "a delete-all, then ", "a search, then ", "replacing an iterator, then "]
def lists(n0, steps, d, first=0, **kw):
    H("list_%d_%d_%d_%d" % (n0, steps, d, first), "lists.c", ["list.c"],
      "a list of %d items, %severy sequence of %d operations out of 11 kinds with two live iterators, %s a delete function" % (n0, FIRST[first], steps, "with" if d else "without"),
      unwind=n0 + steps + 2, harness_defs=["-DN0=%d" % n0, "-DSTEPS=%d" % steps, "-DDEL=%d" % d, "-DFIRST=%d" % first, "-DLM_CAP=%d" % (n0 + steps)], extra_src=["list_ref.c"],
      file_defs={"list.c": ["-UWITH_PTHREADS"]}, hunwind=n0 + steps + 3, weight=30, **kw)
lists(2, 1, 1)
lists(2, 2, 1)
lists(2, 3, 1)
lists(1, 4, 0)
for fi in (1, 2, 3, 4):
    lists(3, 2, fi % 2, fi)
prop("C14", ["list_2_2_1_0", "list_2_3_1_0", "list_3_2_1_1", "list_3_2_0_2", "list_3_2_1_3", "list_3_2_0_4"], ["list_1_4_0_0"])
# ---------------------------------------------------------------- C11
def lexh(name, test, L, u, b, ntok=1):
    H(name, "lexh.c", ["lex.c"], b, unwind=u, hunwind=L + 4, scale={"LEX_MAX_STR": 4}, transform=T_LEX, harness_defs=["-DTEST=%d" % test, "-DL=%d" % L, "-DNTOK=%d" % ntok], weight=20)
for L, n in ((6, 1), (5, 2), (4, 3), (3, 5)):
    lexh("lex_tokens%d_%d" % (L, n), 1, L, L + 3, "every text of up to %d bytes, its first %d tokens, string buffer scaled to 4 bytes, three keywords" % (L, n), n)
lexh("lex_code", 2, 6, 9, "every 7-bit text of up to 6 bytes")
prop("C11", ["lex_tokens6_1", "lex_tokens3_5", "lex_code"], ["lex_tokens5_2", "lex_tokens4_3"])
# ---------------------------------------------------------------- C02
def fan(name, kt, logi, rwc, bc, nr=3, **kw):
    H(name, "fanout.c", OBJ, "console type %s, %d readers in every state%s%s, one read with every result and content of up to 4 bytes, <=2 interruptions" % (kt, nr,
        ", one of them the log" if logi >= 0 else "", ", one also writing" if rwc >= 0 else ""),
      redirect=["read", "close", "snprintf", "time"], intercept=["write_obj_data", "notify_console_objs"], unwind=6, extra_src=WS,
      scale={"OBJ_BUF_SIZE": 16, "MAX_LINE": 16}, model=LM, transform=T_AUX,
      harness_defs=["-DKTYPE=CONMAN_OBJ_" + kt, "-DKTYPE_%s=1" % kt, "-DLOGI=%d" % logi, "-DRWC=%d" % rwc, "-DBC=%d" % bc, "-DNR=%d" % nr, "-DLM_CAP=4"], weight=20, **kw)
fan("fan_log_first", "SERIAL", 0, 1, 1)
fan("fan_log_last", "TELNET", 2, 0, 0)
fan("fan_nolog", "PROCESS", -1, -1, 1)
fan("fan_unix", "UNIXSOCK", 1, 2, 0)
prop("C02", ["fan_log_first", "fan_log_last", "fan_nolog", "fan_unix"])
# ---------------------------------------------------------------- C05
OPTN = ["no processing", "sanitized", "timestamped", "sanitized and timestamped"]
def logd(opt, L, rd, stamp=1, **kw):
    H("log_%d_%d_%d%s" % (opt, L, rd, "_full" if stamp > 1 else ""), "logdata.c", ["server-logfile.c"],
      "%s, every stream of %d bytes in pieces of %d%s" % (OPTN[opt], L, rd, "; conversion buffer scaled to 31 bytes, timestamps of real length" if stamp > 1 else ""),
      scale={"OBJ_BUF_SIZE": 32 if stamp > 1 else 48, "MAX_LINE": 16}, unwind=L + 2, hunwind=80, transform=T_AUX, extra_src=WS,
      harness_defs=["-DOPT=%d" % opt, "-DLEN=%d" % L, "-DRD=%d" % rd, "-DSTAMP=%d" % stamp], weight=10, **kw)
for o in (0, 1, 2, 3):
    logd(o, 4, 4); logd(o, 4, 1); logd(o, 5, 2)
logd(2, 4, 4, 20); logd(3, 4, 4, 20)
prop("C05", ["log_0_4_4", "log_1_5_2", "log_1_4_1", "log_2_4_1", "log_2_5_2", "log_3_4_4", "log_3_4_1", "log_2_4_4_full", "log_3_4_4_full"], ["log_0_5_2", "log_1_4_4", "log_2_4_4", "log_3_5_2"])
# ---------------------------------------------------------------- C08
OPN = ["asks to join", "asks to force", "asks to monitor", "hangs up", "is reset"]
def lnk(wr0, where1, wr1, bc, pre=(), **kw):
    name = "link_%d%d%d%d%s" % (wr0, where1, wr1, bc, "".join("_%d" % p for p in pre))
    H(name, "links.c", OBJ + ["server-esc.c"],
      "2 consoles, a log, 3 clients (first %s, second %s on console %d, third %s), each suspended or quiet or not; %sthen any operation (join, force, monitor, hang-up, connection error) by any of them" % (
        "writing" if wr0 else "reading", "writing" if wr1 else "reading", where1, "broadcasting to both" if bc else "reading", "".join("client %d %s, " % (p // 5, OPN[p % 5]) for p in pre)),
      redirect=["read", "close", "snprintf", "time"], intercept=["write_obj_data", "notify_console_objs"], unwind=6, extra_src=WS,
      scale={"OBJ_BUF_SIZE": 16, "MAX_LINE": 16, "LOG_REPLAY_LEN": 2}, model=LM, transform=T_AUX,
      harness_defs=["-DWR0=%d" % wr0, "-DWHERE1=%d" % where1, "-DWR1=%d" % wr1, "-DBC=%d" % bc, "-DLM_CAP=4"] + ["-DPREOP%s=%d" % ("2" if i else "", p) for i, p in enumerate(pre)], weight=5, **kw)
    return name
P8 = [(1, 0, 0, 1), (1, 0, 1, 0), (0, 1, 1, 1)]
q8 = [lnk(*c) for c in P8] + [lnk(*P8[0], pre=(p,)) for p in (2, 3, 6, 13)] + [lnk(*P8[1], pre=(p,)) for p in (2, 4, 11, 12)] + [lnk(*P8[2], pre=(p,)) for p in (1, 6, 9)]
t8 = [lnk(*c, pre=(p,)) for c in P8 for p in range(15) if "link_%d%d%d%d_%d" % (c + (p,)) not in q8] + [lnk(*P8[1], pre=p) for p in ((2, 1), (11, 6), (6, 1), (1, 13), (11, 0))]
prop("C08", q8, t8)
# ---------------------------------------------------------------- C09
def drain(step, cause, rw, bc, pend, off, **kw):
    name = "drain_%s_%s%s_%d_%d" % ("step" if step else "enter", "stolen" if cause else "hangup", "_bc" if bc else "_rw" if rw else "_ro", pend, off)
    H(name, "drain.c", OBJ + ["server-esc.c"],
      "a %s client with %d bytes pending that %s, quiet or not; %s" % (
        "broadcasting" if bc else "read-write" if rw else "read-only", pend, "is displaced" if cause else "hangs up",
        "any next event (writable with every result, still sending any command, hang-up, console output): an induction step, so histories of any length are covered" if step else "suspended or not at that moment"),
      redirect=["read", "writev", "close", "snprintf", "time", "tcsendbreak", "open"], intercept=["notify_console_objs"], unwind=6, extra_src=WS,
      scale={"OBJ_BUF_SIZE": 8, "MAX_LINE": 16, "LOG_REPLAY_LEN": 2}, model=LM, transform=T_AUX + T_BUF, file_defs=OBJMEM,
      harness_defs=["-DSTEP=%d" % step, "-DCAUSE=%d" % cause, "-DRW=%d" % rw, "-DBC=%d" % bc, "-DPEND=%d" % pend, "-DOFF=%d" % off, "-DLM_CAP=3"], weight=10, **kw)
    return name
prop("C09", [drain(0, c, r, b, p, o) for c, r, b in ((0, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1)) for p, o in ((0, 0), (2, 7))]
  + [drain(1, c, r, b, p, o) for c, r, b in ((0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 1)) for p, o in ((0, 0), (2, 7), (3, 2)) if c or p], [])
# ---------------------------------------------------------------- C15 / C16
def names(name, test, b, L=4, ot=None, u=7, **kw):
    H(name, "names.c", OBJ, b, redirect=["getpid", "strftime"], unwind=u, hunwind=30, extra_src=WS, model=LM, scale={"OBJ_BUF_SIZE": 16, "MAX_LINE": 16},
      harness_defs=["-DTEST=%d" % test, "-DLM_CAP=2", "-DLC_DIGITS=3"] + (["-DL=%d" % L] if ot is None else ["-DOTYPE=%d" % ot, "-DFL=%d" % L]), weight=15, **kw)
names("name_pairs", 1, "every two names of up to 4 bytes")
names("name_numbers", 2, "every two names of one byte and up to 11 digits", 12, u=14)
names("name_triples", 3, "every three names of up to 3 bytes", 3)
prop("C15", ["name_pairs", "name_numbers", "name_triples"])
for on, o in (("none", -1), ("serial", 8), ("process", 4), ("telnet", 16), ("unixsock", 32), ("client", 1)):
    names("fmt_" + on, 4, "every pattern up to 4 bytes, names and devices up to 3 bytes, buffers of 1..9 bytes", 4, o, u=8)
prop("C16", ["fmt_none", "fmt_serial", "fmt_process", "fmt_telnet", "fmt_unixsock", "fmt_client"])
# ---------------------------------------------------------------- C32
def hostent(test, nal, nad, hl, bl=0, ad=0, maxn=0, minn=999, **kw):
    tn = ["", "copy", "addr", "name", "cname"][test]
    name = "host_%s_%d%d%d%s" % (tn, nal, nad, hl, "_%d" % bl if bl else "")
    H(name, "hostent.c", ["util-net.c", "util-str.c"], "every answer with %d aliases and %d addresses of %d bytes, names up to 2 bytes, %s" % (nal, nad, hl, "buffer of %d bytes" % bl if bl else "sizes 0..4"),
      redirect=["gethostbyname", "gethostbyaddr"], unwind=6, hunwind=18, scale={"HOSTENT_SIZE": 160},
      harness_defs=["-DTEST=%d" % test, "-DBLEN=%d" % bl, "-DADDR=%d" % ad, "-DNAL=%d" % nal, "-DNAD=%d" % nad, "-DHL=%d" % hl, "-DMAXN=%d" % maxn, "-DMINN=%d" % minn], weight=10, **kw)
    return name
hb = [hostent(1, 1, 1, 4, n) for n in (20, 31, 40)]
for nal, nad, hl in ((0, 1, 4), (1, 1, 4), (2, 2, 4), (1, 2, 16), (2, 0, 4)):
    m = 32 + 8 * (nal + nad + 2) + nad * hl
    lo, hi = m + nal + 1, m + 3 * nal + 3
    for k, n in enumerate(sorted({m - 9, m - 1, m, lo - 1, lo, (lo + hi) // 2, hi - 1, hi})):
        hb.append(hostent(1, nal, nad, hl, n, k % 2, hi, lo))
for t in (2, 3, 4):
    for nal, nad, hl in ((0, 0, 4), (1, 1, 4), (0, 1, 16)):
        hb.append(hostent(t, nal, nad, hl))
prop("C32", hb)
# ---------------------------------------------------------------- C31
for e in (0, 1):
    H("log_%s" % ("fatal" if e else "msg"), "logs.c", ["log.c"], "line limit scaled to %d bytes; every message of 0..%d bytes whose format ends with a newline or not, every severity, threshold and set of destinations" % (20 + 6 * e, 22 + 6 * e),
      redirect=["strftime", "vsnprintf", "fprintf", "fputs", "syslog", "openlog", "closelog", "setvbuf", "ferror", "getenv", "write", "exit"], scale={"MAX_LINE": 20 + 6 * e}, unwind=26 + 8 * e, hunwind=60,
      harness_defs=["-DERR=%d" % e, "-DML=%d" % (20 + 6 * e)], weight=10)
prop("C31", ["log_msg", "log_fatal"])
# ---------------------------------------------------------------- C33 / C27
def daemon(name, test, b, defs=(), weight=10, intercept=(), unwind=6, **kw):
    H(name, "daemon.c", ["list.c"] if test == 3 else [], b, included=["server.c"], model=LM if test == 3 else {}, intercept=list(intercept),
      redirect=[], unwind=unwind, hunwind=90, harness_defs=["-DTEST=%d" % test, "-DLM_CAP=4", "-DLC_DIGITS=3", "-Dmktime=st_mktime"] + list(defs), weight=weight, **kw)
for a, im in (("", 255), ("_long", 4000)):
    daemon("stamp_first" + a, 1, "every interval of 1..%d minutes and every time of day; local time without clock changes" % im, ["-DIMAX=%d" % im])
daemon("stamp_next", 2, "every interval of 1..100000 minutes, every previous stamp and every lateness within the day; local time without clock changes")
for nl in range(4):
    daemon("stamp_write%d" % nl, 3, "two consoles, %d of them logged, names of 0..7 bytes, line limit scaled to 34" % bin(nl).count("1"), ["-DNLOG=%d" % nl], scale={"MAX_LINE": 34, "OBJ_BUF_SIZE": 16}, transform=T_AUX, unwind=9)
SYS4 = ["open", "close", "dup2", "pipe", "fork", "setsid", "umask", "chdir", "getpid", "kill", "exit", "getenv"]
daemon("startup", 4, "every subset of the standard descriptors closed, foreground or daemon, with and without an interval", ["-D%s=st_%s" % (x, x) for x in SYS4], unwind=12,
       intercept=["setup_coredump", "setup_signals", "display_configuration", "create_listen_socket", "setup_nofile_limit", "open_daemon_logfile", "open_objs", "mux_io"])
prop("C33", ["stamp_first", "stamp_first_long", "stamp_next", "startup"] + ["stamp_write%d" % n for n in range(4)])
envs = [(d, t) for d in (-1, 0, 2) for t in (-1, 0, 2)]
for d, t in envs:
    daemon("env_%d%d" % (d + 1, t + 1), 5, "DEBUG %s, TZ %s, every value" % tuple("unset" if x < 0 else "of %d bytes" % x for x in (d, t)), ["-DDL=%d" % d, "-DTL=%d" % t, "-Dgetenv=st_getenv", "-Dstrlen=st_strlen", "-Dmemcpy=st_memcpy", "-Dmalloc=st_malloc", "-Dfree=st_free"], unwind=40)
prop("C27", ["env_%d%d" % (d + 1, t + 1) for d, t in envs] + ["startup"])
# ---------------------------------------------------------------- C35
TTYR = ["tcgetattr", "tcsetattr", "cfsetispeed", "cfsetospeed", "tcflush", "isatty"]
H("tty_serial", "ttys.c", OBJ + ["server-serial.c", "common.c", "util-str.c"], "every prior line state, every supported option combination (8 of the speeds), every outcome of opening, one re-opening, release",
  redirect=TTYR + ["open"], intercept=["write_notify_msg"], unwind=5, extra_src=WS, model=LM, transform=T_AUX, scale={"OBJ_BUF_SIZE": 16, "MAX_LINE": 16},
  file_defs={f: ["-Dclose=cl_close"] for f in OBJ + ["server-serial.c", "common.c"]}, harness_defs=["-DTEST=1", "-DTFD=4", "-DLM_CAP=2"])
H("tty_user", "ttys.c", ["common.c"], "every prior state of the user's terminal, console or monitor session, one suspension or echo toggle",
  included=["client-tty.c"], intercept=["read_from_stdin", "write_to_stdout", "locally_display_status", "locally_echo_esc", "send_esc_seq"], redirect=TTYR, unwind=5, hunwind=40,
  harness_defs=["-DTEST=2", "-DTFD=0", "-Dclose=cl_close"] + ["-D%s=st_%s" % (x, x) for x in TTYR + ["select", "kill", "getpid"]])
prop("C35", ["tty_serial", "tty_user"])
# ---------------------------------------------------------------- C34
SEQS = {"a": [0], "ab": [0, 1], "abc": [0, 1, 2], "ab_a": [0, 1, 4], "ab_b": [0, 1, 5], "abc_a": [0, 1, 2, 4], "a_a_c": [0, 4, 2], "a_ab": [0, 4, 0, 1], "aac": [0, 0, 2], "ac_b_c": [0, 2, 5, 6], "a_a": [0, 4], "ab_ab": [0, 1, 4, 5], "c_ca": [2, 6, 2, 0]}
iq = []
def inev(sn, lens, fail=None):
    n = "inev_%s_%s%s" % (sn, "".join(map(str, lens)), "_f%d" % fail if fail is not None else "")
    H(n, "inev.c", ["list.c"], "watch history %s, every batch of %d events with %s bytes of name, any descriptor and mask" % (SEQS[sn], len(lens), "/".join(map(str, lens))),
      included=["inevent.c"], redirect=[], model=LM, unwind=9, hunwind=16, scale={"INEVENT_NUM": 3}, any_witness=True,
      harness_defs=["-DSEQ={%s}" % ",".join(map(str, SEQS[sn])), "-DNEV=%d" % len(lens), "-DE0=%d" % lens[0], "-DLM_CAP=4"] + (["-DE1=%d" % lens[1]] if len(lens) > 1 else []) +
        (["-DFAIL=%d" % fail] if fail is not None else []) + ["-D%s=st_%s" % (x, x) for x in ("inotify_init", "inotify_add_watch", "inotify_rm_watch", "close", "read", "strdup", "free")])
    return n
for sn in SEQS:
    iq.append(inev(sn, (4,) if sn in ("a_a", "ab_ab") else (4, 4)))
iq += [inev("abc", (0, 4)), inev("ab", (4, 0)), inev("abc", (2,)), inev("a", (4,), 0), inev("abc", (4,), 1)]
prop("C34", iq)
# ---------------------------------------------------------------- C24
LOGF = [ "server-logfile.c", "util-str.c"]
def opts(name, test, f, b, defs, **kw):
    un = kw.pop("u", 30)
    H(name, "opts.c", [f, "util-str.c"], b, redirect=["strtol", "strtoul", "sscanf", "atoi"] + kw.pop("rx", []), unwind=un, hunwind=80, extra_src=WS, transform=T_AUX,
      unwindset=dict({"%s.%d" % (f, i): un + 3 for f in ("nl_num", "rnum") for i in range(2)}, **dict({"main.%d" % i: un + 3 if test > 3 else 80 for i in range(4)}, **{"strspn.0": 12, "strspn.1": 12, "int_to_bps.0": 22})), harness_defs=["-DTEST=%d" % test] + defs, **kw)
    return name
FIX = ["-DFIXLEN"]
FX = ["strlcpy", "strtok", "strtok_r"]
oq = [opts("opt_log%d" % w, 1, "server-logfile.c", "two words of any case and any separators, the first being number %d" % w, ["-DW1=%d" % w] + FIX, rx=FX, u=25) for w in range(8)]
for l1, l2 in ((0, 0), (2, 0), (4, 0), (6, 0), (8, 0), (4, 6), (11, 0), (24, 0)):
    oq.append(opts("opt_lograw_%d_%d" % (l1, l2), 2, "server-logfile.c", "every word of %d%s bytes; line limit scaled to 24" % (l1, " and of %d" % l2 if l2 else ""), ["-DL1=%d" % l1, "-DL2=%d" % l2] + FIX, rx=FX, scale={"MAX_LINE": 24}, u=26))
for i, (pre, n, bad) in enumerate((("", 4, 0), ("9600,", 4, 0), ("115200,8n1", 1, 0), ("42949729", 3, 0), ("300,429496729", 3, 1), ("46080", 3, 0), ("300,8e429496729", 2, 1))):
    oq.append(opts("opt_serial%d" % i, 3, "server-serial.c", "\"%s\" followed by every %d bytes" % (pre, n), ['-DPREFIX="%s"' % pre, "-DNSYM=%d" % n, "-DBADW=%d" % bad], u=max(len(pre) + n + 2, 5)))
for i, (pre, n, suf, bad) in enumerate((("", 1, "", 1), ("", 2, "", 1), ("", 3, "", 0), ("", 4, "", 0), ("B:5,", 3, "", 0), ("", 3, ",n:7", 0), (",,m:", 3, ",,P:101,b:0x10", 0), ("B:214748364", 1, "", 0), ("N:42949672", 2, "", 1), ("B:9223372036854775808", 0, "", 1), ("P:18446744073709551617", 0, ",M:3", 1), ("M:4294967297", 0, "", 1), ("", 0, "", 0))):
    oq.append(opts("opt_test%d" % i, 4, "server-test.c", scale={"MAX_LINE": 40}, b="\"%s\", every %d bytes, \"%s\"" % (pre, n, suf), defs=['-DPREFIX="%s"' % pre, '-DSUFFIX="%s"' % suf, "-DNSYM=%d" % n, "-DBADW=%d" % bad, "-DKF=0"] + FIX, rx=FX, u=max(len(pre) + n + len(suf) + 2, 5)))
for n, pre, kf in (("empty", "b:", 1), ("errno", "b:5", 2)):
    oq.append(opts("opt_test_" + n, 4, "server-test.c", scale={"MAX_LINE": 40}, b="recorded finding: \"%s\"" % pre, defs=['-DPREFIX="%s"' % pre, '-DSUFFIX=""', "-DNSYM=0", "-DKF=%d" % kf, "-DBADW=2"] + FIX, rx=FX, u=6, no_witness=True))
for i, (pre, n, suf, bad) in enumerate((("U:", 2, "", 0), ("u:abcdefghijklmno", 1, ",U:", 0), ("U:abcdefghijklmnopq", 0, ",C:3", 1), ("P:", 4, "", 0), ("p:0x41", 2, ",C:7", 0), ("K:0x", 3, "", 0), ("K:", 0, ",k:0x0", 0), ("K:0xaabbccddeeff00112233", 0, "", 0),
    ("L:", 4, "", 0), ("C:", 3, "", 0), ("U:a,c:", 2, ",L:4", 0), ("C:42949672", 2, "", 1), ("L:429496729", 1, "", 1), ("L:Op,W:sun20,W:", 3, "", 0), ("W:", 7, "", 0), ("W:NON", 1, ",W:0x1", 0), ("W:42949673", 2, "", 1), ("C:9,", 3, "", 0), ("K:0xaabbccddeeffgg", 1, "", 0), ("L:administrator,,", 0, "", 0))):
    oq.append(opts("opt_ipmi%d" % i, 5, "server-ipmi.c", scale={"MAX_LINE": 40}, b="\"%s\", every %d bytes, \"%s\"; the library's verdicts on names and keys fixed" % (pre, n, suf), defs=['-DPREFIX="%s"' % pre, '-DSUFFIX="%s"' % suf, "-DNSYM=%d" % n, "-DBADW=%d" % bad] + FIX, rx=FX, u=max(len(pre) + n + len(suf) + 2, 22)))
prop("C24", oq)
# ---------------------------------------------------------------- C20 / C21
TPR = ["poll", "gettimeofday", "pipe", "fcntl", "read", "write", "close", "realloc"]
def polls(name, test, b, defs, **kw):
    H(name, "polls.c", ["tpoll.c"], b, redirect=TPR, unwindset={"%s.%d" % (f, i): 16 for f in ("_tpoll_init", "tpoll_clear", "_tpoll_grow", "memset") for i in (0, 1)} if test > 1 else {}, unwind=kw.pop("u", 14), hunwind=30, harness_defs=["-DTEST=%d" % test] + defs, **kw)
    return name
SEQS21 = {"set": [2], "two": [2, 3], "order": [11, 0, 4], "clear": [2, 3, 103], "last": [0, 11, 111], "again": [2, 102, 2], "below": [3, 2, 102], "zero": [2, 9, 200, 3], "timers": [2, 201, 8], "twice": [4, 4, 104], "other": [2, 110, 101], "empty": [3, 103], "allclear": [0, 3, 100, 103, 11],
    "g1": [309, 2], "g2": [2, 307, 11, 107], "g3": [3, 308, 200, 4], "g4": [311, 111, 8], "g5": [0, 4, 310, 100]}
tq1 = []
for sn, sq in SEQS21.items():
    a = 7 if sn[0] == "g" else 12
    s2 = [2 if sn in ("empty", "g1") else 102, 111, 200 if sn == "twice" else 0]
    tq1.append(polls("poll_" + sn, 1, "operations %s then %s (descriptor to set, 100+descriptor to clear, 200 zero; 300+descriptor: set one beyond the array) with any events, array of %d growing as needed, every outcome of each wait" % (sq, s2, a), ["-DSEQ={%s}" % ",".join(map(str, sq)), "-DSEQ2={%s}" % ",".join(map(str, s2)), "-DNALLOC=%d" % a, "-DNALLOC2=%d" % max(a, 14)], u=16))
prop("C21", tq1 )
tq2 = []
for nt in (1, 2, 3):
    for ms in (0, 1, 2, 3):
        for cb in ((-1, 0),) if nt == 3 else ((-1, 0), (0, 3)) + (((0, 2), (1, 2)) if nt == 2 else ((0, 1),)):
            tq2.append(polls("poll_t%d%d_%d%d" % (nt, ms, cb[0] + 1, cb[1]), 2, "%d timers of any due time, one cancelled or none, wait %s ms, callback %s" % (nt, (-1, 0, 2, 700)[ms], ("plain", "adding a timer", "cancelling another", "cancelling itself")[cb[1]]),
               ["-DNTIM=%d" % nt, "-DMSI=%d" % ms, "-DCBT=%d" % cb[0], "-DCBACT=%d" % cb[1], "-DNALLOC=12", "-DRELMS=%d" % (0 if ms == 1 else 2), "-DMAXPOLL=%d" % (2 if nt == 3 or cb[1] == 1 else 3)], u=nt + 3 + (cb[1] == 1)))
for o in range(5):
    tq2.append(polls("poll_wake%d" % o, 3, "one timer, one change by another thread during the wait", ["-DNTIM=1", "-DMSI=0", "-DCBT=-1", "-DCBACT=0", "-DNALLOC=12", "-DRELMS=0", "-DMAXPOLL=2", "-DOP3=%d" % o], u=5))
tq2.append(polls("poll_far", 4, "one timer due in 1 s to 12 years", ["-DNALLOC=12"], u=5))
prop("C20", tq2)
# ---------------------------------------------------------------- C37
def keys(m, n):
    H("keys_%d_%d" % (m, n), "keys.c", [], "every %d keys, every escape character, %s session" % (n, ("read-write", "monitor", "broadcast")[m]), included=["client-tty.c"], redirect=[], unwind=7, hunwind=34, any_witness=True,
      transform=[(r"unsigned char buf\[4\];", "unsigned char buf_[5], * const buf = buf_ + 1;")],   # the scan ends one before the start
      harness_defs=["-DNK=%d" % n, "-DMODE=%d" % m, "-Dclose=cl_close"] + ["-D%s=st_%s" % (x, x) for x in ("select", "kill", "getpid", "isatty", "read", "shutdown", "snprintf")])
    return "keys_%d_%d" % (m, n)
prop("C37", [keys(m, n) for m in (0, 1, 2) for n in (2, 4)])
# ---------------------------------------------------------------- C23
def replay(name, b, defs, **kw):
    H(name, "replay.c", OBJ + ["util-str.c", "server-logfile.c"], b, intercept=["write_obj_data", "notify_console_objs"], included=["server-esc.c"], extra_src=WS, model=LM, transform=T_BUF + T_AUX,
      file_defs={"server-obj.c": ["-Dmalloc=rp_malloc", "-Dcalloc=rp_calloc"]}, harness_defs=defs + ["-DLM_CAP=2"], **kw)
    return name
rq = [replay("replay_hist%d" % f, "buffer of 7 bytes, 2 bytes replayed: 4 chunks of 1..7 bytes, a flush with every outcome after chunk %d" % (f + 1), ["-DSZ=0", "-DNOPS=4", "-DFLUSHAT=%d" % f],
      redirect=["writev", "close"], scale={"OBJ_BUF_SIZE": 8, "LOG_REPLAY_LEN": 2, "MAX_LINE": 16}, unwind=9) for f in (0, 1, 2, 3)]
rq.append(replay("replay_real", "real sizes (16384 and 4096), every buffer position and fill, names up to 1100 bytes", ["-DSZ=1"], redirect=["close"], unwind=5))
prop("C23", rq)
# ---------------------------------------------------------------- C12 / C13
def wire(name, test, b, defs=[], ntk=24, **kw):
    H(name, "wire.c", ["list.c"], b, included=["server-sock.c", "client-sock.c", "common.c"], extra_src=WS, model=LM, scale={"MAX_SOCK_LINE": 48, "MAX_LINE": 16},
      unwind=ntk + 3, hunwind=ntk + 3, unwindset={"strcmp.0": 12, "recv_greeting.0": 14, "recv_req.0": 14, "recv_rsp.0": 16, "tok_of.0": 20, "tok_of.1": 20, "format.0": 22, "send_req.0": 4, "parse_greeting.0": 6, "parse_cmd_opts.0": 16, "parse_rsp_ok.0": 16, "parse_rsp_err.0": 16, "main.1": 420, "strlcpy.0": 5, "strlen.0": 14}, harness_defs=["-DTEST=%d" % test, "-DNTK=%d" % ntk, "-DLM_CAP=3", "-DLM_IT=1", "-DLM_STATIC"] + defs, **kw)
    return name
w12 = [wire("wire_greet", 1, "every user, terminal or none, overrun, write and read outcome", ntk=9)]
for c in ("QUERY", "MONITOR", "CONNECT"):
    for nn in (0, 1, 2):
        w12.append(wire("wire_req_%s%d" % (c[0].lower(), nn), 2, "command %s, %d names, every combination of options, overrun at any point, failing write" % (c, nn), ["-DCMD=CONMAN_CMD_" + c, "-DNN=%d" % nn]))
w12.append(wire("wire_srv", 3, "any command or none, 3 groups each a name, an option with any keyword, an unknown word or an unknown setting; whole, cut short at any token, end of file or error"))
w12.append(wire("wire_hello", 4, "3 groups each a user, terminal, empty user or unknown word, after HELLO or another word; whole, cut short, end of file or error"))
prop("C12", w12)
w13 = [wire("wire_rsp%d" % nn, 5, "acceptance with %d consoles or refusal with code 1..7 and any text; overrun, failing write, cut short at any token" % nn, ["-DNN=%d" % nn]) for nn in (0, 1, 2, 3)]
w13.append(wire("wire_cli", 6, "OK, ERROR or neither, then 3 groups each a console, an option, a code, a text, an unknown word or an unreadable token; whole, cut short, end of file or error"))
prop("C13", w13)
