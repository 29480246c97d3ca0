From 2108b3357556a7ff4a6684a2e8aab097f5441a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 01/19] fix: console mode escapes from stolen, read-only, and
 read-write clients

A client whose session was stolen has no console, so a force, join, or
monitor escape it sends before being disconnected dereferenced NULL.
A monitor escape in a read-only session granted write access, and a force
or join escape in a read-write session revoked it.
---
 src/server-esc.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/server-esc.c b/src/server-esc.c
index cee005e..8f0f551 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -224,9 +224,11 @@ static void perform_del_char_seq(obj_t *client)
 static void perform_console_writer_linkage(obj_t *client)
 {
 /*  Converts the client's console session between read-only and read-write.
+ *  This is a no-op if the session is already in the requested mode.
  */
     obj_t *console;
     int gotWrite;
+    int wantWrite;
 
     assert(is_client_obj(client));
 
@@ -237,9 +239,12 @@ static void perform_console_writer_linkage(obj_t *client)
     assert(list_count(client->readers) <= 1);
 
     /*  A R/O or R/W client will have exactly one console writer.
+     *  But a client that has been unlinked from its console (eg, because its
+     *    session was stolen) has none while awaiting disconnection.
      */
-    assert(list_count(client->writers) == 1);
-    console = list_peek(client->writers);
+    assert(list_count(client->writers) <= 1);
+    if (!(console = list_peek(client->writers)))
+        return;
     assert(is_console_obj(console));
 
     /*  A R/O client will have no readers,
@@ -247,11 +252,16 @@ static void perform_console_writer_linkage(obj_t *client)
      */
     gotWrite = list_count(client->readers);
 
-    if (gotWrite) {
+    /*  The client requests write-access via either a force or a join.
+     */
+    wantWrite = client->aux.client.req->enableForce
+        || client->aux.client.req->enableJoin;
+
+    if (gotWrite && !wantWrite) {
         client->aux.client.req->command = CONMAN_CMD_MONITOR;
         unlink_objs(client, console);
     }
-    else {
+    else if (!gotWrite && wantWrite) {
         client->aux.client.req->command = CONMAN_CMD_CONNECT;
         link_objs(client, console);
     }
-- 
2.43.0


From f8e275f773b03648a25eb7e04f65b6fe8ad00c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 02/19] fix: client data is written to the console before a
 following escape is performed

Data in the same read as an escape was only forwarded once all of that read's
escapes had been performed: data before a del char or break was sent after it,
data before a monitor escape was discarded, and data before a force or join
escape was written to the console of a read-only session.
---
 src/server-esc.c | 13 ++++++++++++-
 src/server-obj.c | 37 ++++++++++++++++++++++++-------------
 src/server.h     |  2 ++
 3 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/server-esc.c b/src/server-esc.c
index 8f0f551..bb5cd93 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -62,7 +62,9 @@ int process_client_escapes(obj_t *client, void *src, int len)
  *    for escape character sequences.
  *  Escape characters are removed (unstuffed) from the buffer
  *    and immediately processed.
- *  Returns the new length of the modified buffer.
+ *  Data preceding an escape is written to the client's readers beforehand.
+ *  Returns the new length of the modified buffer (ie, of the data remaining
+ *    to be written to the client's readers).
  */
     const unsigned char *last = (unsigned char *) src + len;
     unsigned char *p, *q;
@@ -76,6 +78,15 @@ int process_client_escapes(obj_t *client, void *src, int len)
     for (p=q=src; p<last; p++) {
         if (client->aux.client.gotEscape) {
             client->aux.client.gotEscape = 0;
+            /*
+             *  Forward the data preceding an escape before processing it:
+             *    the escape might change where that data is to be written,
+             *    or write to the console itself.
+             */
+            if ((*p != ESC_CHAR) && (q > (unsigned char *) src)) {
+                write_reader_data(client, src, q - (unsigned char *) src);
+                q = src;
+            }
             switch (*p) {
             case ESC_CHAR:
                 *q++ = *p;
diff --git a/src/server-obj.c b/src/server-obj.c
index a7a6cda..00b36e8 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -885,8 +885,6 @@ int read_from_obj(obj_t *obj)
     unsigned char buf[(OBJ_BUF_SIZE / 2) - 1];
     int n;
     int isEmpty;
-    ListIterator i;
-    obj_t *reader;
 
     DPRINTF((20, "Entered read_from_obj: [%s]\n", obj->name));
 
@@ -941,23 +939,36 @@ again:
          *    after the escape characters have been processed.
          */
         if (n > 0) {
-            i = list_iterator_create(obj->readers);
-            while ((reader = list_next(i))) {
-
-                if (is_logfile_obj(reader)) {
-                    write_log_data(reader, buf, n);
-                }
-                else {
-                    write_obj_data(reader, buf, n, 0);
-                }
-            }
-            list_iterator_destroy(i);
+            write_reader_data(obj, buf, n);
         }
     }
     return(n);
 }
 
 
+void write_reader_data(obj_t *obj, const void *src, int len)
+{
+/*  Writes the buffer (src) of length (len) read from the object (obj)
+ *    into the circular-buffer of each obj in its "readers" list.
+ */
+    ListIterator i;
+    obj_t *reader;
+
+    i = list_iterator_create(obj->readers);
+    while ((reader = list_next(i))) {
+
+        if (is_logfile_obj(reader)) {
+            write_log_data(reader, src, len);
+        }
+        else {
+            write_obj_data(reader, src, len, 0);
+        }
+    }
+    list_iterator_destroy(i);
+    return;
+}
+
+
 int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
 {
 /*  Writes the buffer (src) of length (len) into the object's (obj)
diff --git a/src/server.h b/src/server.h
index 44c513c..3312d22 100644
--- a/src/server.h
+++ b/src/server.h
@@ -456,6 +456,8 @@ int shutdown_obj(obj_t *obj);
 
 int read_from_obj(obj_t *obj);
 
+void write_reader_data(obj_t *obj, const void *src, int len);
+
 int write_obj_data(obj_t *obj, const void *src, int len, int isInfo);
 
 int write_to_obj(obj_t *obj);
-- 
2.43.0


From 0d77c595c749ed9719ad5642b29d353cdb9ed744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 03/19] fix: client data equal to IAC is doubled when sent to a
 telnet console

A 0xFF byte typed by a client was written as is, so the terminal server took
it and the byte(s) following it as a telnet command (cf. RFC 854).
---
 src/server-obj.c    |  3 +++
 src/server-telnet.c | 22 ++++++++++++++++++++++
 src/server.h        |  2 ++
 3 files changed, 27 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 00b36e8..9d489a0 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -960,6 +960,9 @@ void write_reader_data(obj_t *obj, const void *src, int len)
         if (is_logfile_obj(reader)) {
             write_log_data(reader, src, len);
         }
+        else if (is_telnet_obj(reader)) {
+            write_telnet_data(reader, src, len);
+        }
         else {
             write_obj_data(reader, src, len, 0);
         }
diff --git a/src/server-telnet.c b/src/server-telnet.c
index fb66864..b3c1813 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -444,6 +444,28 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
 }
 
 
+void write_telnet_data(obj_t *telnet, const void *src, int len)
+{
+/*  Writes the buffer (src) of length (len) into the (telnet) obj's buffer as
+ *    data: each byte equal to IAC is sent twice so the remote end will not
+ *    interpret it as the start of a telnet command (cf. RFC 854).
+ */
+    const unsigned char *last = (const unsigned char *) src + len;
+    const unsigned char *p, *q;
+
+    assert(is_telnet_obj(telnet));
+
+    for (p=q=src; q<last; q++) {
+        if (*q == IAC) {
+            write_obj_data(telnet, p, q - p + 1, 0);
+            p = q;                      /* IAC will be written again */
+        }
+    }
+    write_obj_data(telnet, p, last - p, 0);
+    return;
+}
+
+
 int send_telnet_cmd(obj_t *telnet, int cmd, int opt)
 {
 /*  Sends the given telnet (cmd) and (opt) to the (telnet) console;
diff --git a/src/server.h b/src/server.h
index 3312d22..730ff96 100644
--- a/src/server.h
+++ b/src/server.h
@@ -505,6 +505,8 @@ int open_telnet_obj(obj_t *telnet);
 
 int process_telnet_escapes(obj_t *telnet, void *src, int len);
 
+void write_telnet_data(obj_t *telnet, const void *src, int len);
+
 int send_telnet_cmd(obj_t *telnet, int cmd, int opt);
 
 
-- 
2.43.0


From 2d63411f730aa647449b46c86eb48674f7450f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 04/19] fix: failure to create or configure a terminal server's
 socket is retried instead of terminating the daemon

---
 src/server-telnet.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index b3c1813..3a948fa 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -204,16 +204,27 @@ static int connect_telnet_obj(obj_t *telnet)
             return(-1);
         }
         if ((telnet->fd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
-            log_err(errno, "Unable to create socket for [%s]", telnet->name);
+            log_msg(LOG_WARNING, "Unable to create socket for [%s]: %s",
+                telnet->name, strerror(errno));
+            disconnect_telnet_obj(telnet);
+            return(-1);
         }
         if (setsockopt(telnet->fd, SOL_SOCKET, SO_OOBINLINE,
                 (const void *) &on, sizeof(on)) < 0) {
-            log_err(errno, "Unable to set OOBINLINE socket option");
+            log_msg(LOG_WARNING,
+                "Unable to set OOBINLINE socket option for [%s]: %s",
+                telnet->name, strerror(errno));
+            disconnect_telnet_obj(telnet);
+            return(-1);
         }
         if (telnet->aux.telnet.enableKeepAlive) {
             if (setsockopt(telnet->fd, SOL_SOCKET, SO_KEEPALIVE,
                     (const void *) &on, sizeof(on)) < 0) {
-                log_err(errno, "Unable to set KEEPALIVE socket option");
+                log_msg(LOG_WARNING,
+                    "Unable to set KEEPALIVE socket option for [%s]: %s",
+                    telnet->name, strerror(errno));
+                disconnect_telnet_obj(telnet);
+                return(-1);
             }
         }
         set_fd_nonblocking(telnet->fd);
-- 
2.43.0


From 5d8d753e6ee79b4be73893f366296aa2c11513d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:24 +0000
Subject: [PATCH 05/19] fix: a doubled IAC within a telnet subnegotiation does
 not end it or appear as data

---
 src/server-telnet.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 3a948fa..4e5501a 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -396,6 +396,16 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
             else
                 *q++ = *p;
             break;
+        case SE:
+            /*
+             *  An IAC was found within a subnegotiation.  A doubled IAC is
+             *    subnegotiation data; o/w, this is the cmd after the IAC.
+             */
+            if (*p == IAC) {
+                telnet->aux.telnet.iac = SB;
+                break;
+            }
+            /* fall-thru */
         case IAC:
             switch (*p) {
             case IAC:
@@ -435,11 +445,11 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
         case SB:
             /*
              *  Ignore subnegotiation opts.  Consume bytes until IAC SE.
-             *    Remain in the SB state until an IAC is found; then reset
-             *    the state to IAC assuming the next byte will be the SE cmd.
+             *    Remain in the SB state until an IAC is found; then set
+             *    the state to SE since the next byte should be the SE cmd.
              */
             if (*p == IAC)
-                telnet->aux.telnet.iac = *p;
+                telnet->aux.telnet.iac = SE;
             break;
         default:
             log_err(0, "Reached invalid state %#.2x%.2x for console [%s]",
-- 
2.43.0


From e46fe4ccbb49b2033f5680c501f1fbf51131539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:26 +0000
Subject: [PATCH 06/19] fix: a telnet command cut short by a disconnect is not
 continued by the next connection

---
 src/server-telnet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 4e5501a..a9cad7e 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -276,6 +276,7 @@ static int connect_telnet_obj(obj_t *telnet)
             telnet->aux.telnet.state);
     }
     telnet->gotEOF = 0;
+    telnet->aux.telnet.iac = -1;
     telnet->aux.telnet.state = CONMAN_TELNET_UP;
     tpoll_set(tp_global, telnet->fd, POLLIN);
 
-- 
2.43.0


From 12add6d3a4108d56af5a6cf4a72109d9347701ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:25 +0000
Subject: [PATCH 07/19] fix: always disconnect a client that is displaced or
 hangs up

A client whose session was stolen, or that closed its side with output
still pending, waited forever if its output was suspended, or if it was
in quiet mode with an empty buffer: nothing was left to arm POLLOUT, so
write_to_obj() never got to disconnect it.
---
 src/server-esc.c |  5 +++++
 src/server-obj.c | 30 +++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/server-esc.c b/src/server-esc.c
index bb5cd93..3621d02 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -580,6 +580,11 @@ static void perform_suspend(obj_t *client)
  */
     assert(is_client_obj(client));
 
+    /*  Do not suspend a client that is awaiting disconnection.
+     */
+    if (client->gotEOF)
+        return;
+
     client->aux.client.gotSuspend ^= 1;
 
     if (client->aux.client.gotSuspend) {
diff --git a/src/server-obj.c b/src/server-obj.c
index 9d489a0..fbc08aa 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -60,6 +60,7 @@ static char * find_trailing_int_str(char *str);
 static int validate_obj_links(obj_t *obj);
 #endif /* !NDEBUG */
 static int num_bytes_buffered(obj_t *obj);
+static void set_client_eof(obj_t *client);
 
 
 obj_t * create_obj(
@@ -724,12 +725,12 @@ void unlink_objs(obj_t *src, obj_t *dst)
     if (is_client_obj(src)
             && list_is_empty(src->readers) && list_is_empty(src->writers)) {
         assert(is_console_obj(dst));
-        src->gotEOF = 1;
+        set_client_eof(src);
     }
     else if (is_client_obj(dst)
             && list_is_empty(dst->readers) && list_is_empty(dst->writers)) {
         assert(is_console_obj(src));
-        dst->gotEOF = 1;
+        set_client_eof(dst);
     }
 
     DPRINTF((10, "Unlinked [%s] reads from [%s] writes.\n",
@@ -740,6 +741,24 @@ void unlink_objs(obj_t *src, obj_t *dst)
 }
 
 
+static void set_client_eof(obj_t *client)
+{
+/*  Marks the (client) as having no more data to be written to its buffer.
+ *  The client is disconnected by write_to_obj() once its buffer is empty.
+ *    Since this has to happen even if its buffer is already empty or its
+ *    output is suspended, resume its output and notify tpoll accordingly.
+ */
+    assert(is_client_obj(client));
+
+    client->gotEOF = 1;
+    client->aux.client.gotSuspend = 0;
+    if (client->fd >= 0) {
+        tpoll_set(tp_global, client->fd, POLLOUT);
+    }
+    return;
+}
+
+
 void unlink_obj(obj_t *obj)
 {
 /*  Destroys all links between (obj) and its readers & writers.
@@ -916,7 +935,12 @@ again:
         if (obj->gotEOF) {
             log_msg(LOG_WARNING, "Read EOF from [%s] after gotEOF", obj->name);
         }
-        obj->gotEOF = 1;
+        if (is_client_obj(obj)) {
+            set_client_eof(obj);
+        }
+        else {
+            obj->gotEOF = 1;
+        }
         tpoll_clear(tp_global, obj->fd, POLLIN);
         isEmpty = (obj->bufInPtr == obj->bufOutPtr);
         return(isEmpty ? shutdown_obj(obj) : 0);
-- 
2.43.0


From 9394147cba8eecfd56b1da640ee5b916393f6f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:03 +0000
Subject: [PATCH 08/19] fix: order console names consistently

The order was not transitive (eg, a10 < a1b < a2 < a10), and it compared
trailing integers via atoi() which is undefined for those that do not fit
in an int, so the result of a sort depended on the initial order.
---
 src/server-obj.c | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index fbc08aa..f29121c 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -451,15 +451,17 @@ static char * sanitize_file_string(char *str)
 int compare_objs(obj_t *obj1, obj_t *obj2)
 {
 /*  Used by list_sort() to compare the name of (obj1) to that of (obj2).
- *  Objects are sorted by their name in ascending ASCII order, with the
- *    exception that if both objects match up to the point of a trailing
- *    integer string then they will be sorted numerically according to
- *    this integer (eg, foo1 < foo2 < foo10).
+ *  Objects are sorted in ascending ASCII order by the part of their name
+ *    preceding its trailing integer string; if both objects match up to the
+ *    point of a trailing integer string then they will be sorted numerically
+ *    according to this integer (eg, foo1 < foo2 < foo10).
  *  Returns less-than-zero if (obj1 < obj2), zero if (obj1 == obj2),
  *    and greater-than-zero if (obj1 > obj2).
  */
     char *str1, *str2;
     char *int1, *int2;
+    size_t len1, len2;
+    int n;
 
     assert(obj1 != NULL);
     assert(obj2 != NULL);
@@ -468,18 +470,31 @@ int compare_objs(obj_t *obj1, obj_t *obj2)
 
     str1 = obj1->name;
     str2 = obj2->name;
-    int1 = find_trailing_int_str(str1);
-    int2 = find_trailing_int_str(str2);
-
-    while (*str1) {
-        if ((str1 == int1) && (str2 == int2))
-            return(atoi(int1) - atoi(int2));
-        else if (*str1 == *str2)
-            str1++, str2++;
-        else
-            break;
-    }
-    return(*str1 - *str2);
+    if (!(int1 = find_trailing_int_str(str1)))
+        int1 = str1 + strlen(str1);
+    if (!(int2 = find_trailing_int_str(str2)))
+        int2 = str2 + strlen(str2);
+
+    len1 = int1 - str1;
+    len2 = int2 - str2;
+    if ((n = memcmp(str1, str2, MIN(len1, len2))) != 0)
+        return(n);
+    if (len1 != len2)
+        return((len1 < len2) ? -1 : 1);
+
+    /*  Compare the integers as strings since they can be of any length.
+     */
+    while (*int1 == '0')
+        int1++;
+    while (*int2 == '0')
+        int2++;
+    len1 = strlen(int1);
+    len2 = strlen(int2);
+    if (len1 != len2)
+        return((len1 < len2) ? -1 : 1);
+    if ((n = strcmp(int1, int2)) != 0)
+        return(n);
+    return(strcmp(str1, str2));
 }
 
 
-- 
2.43.0


From a51729df2ab147ef8e4177527f2d38526b0da4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 09/19] fix: do not read past the end of a format string ending
 with '%'

---
 src/server-obj.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index f29121c..09e5cb8 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -330,12 +330,13 @@ int format_obj_string(char *buf, int buflen, obj_t *obj, const char *fmt)
     get_localtime(&t, &tm);
 
     while (((c = *psrc++) != '\0') && (n > 0)) {
-        if ((c != '%') || ((*pspec = *psrc++) == '\0')) {
+        if ((c != '%') || (*psrc == '\0')) {
             if (--n > 0) {
                 *pdst++ = c;
             }
         }
         else {
+            *pspec = *psrc++;
             switch (*pspec) {
             case 'N':                   /* console name */
                 if (!obj)
-- 
2.43.0


From 6d2f195c7baa89f23f615bbc297d9f0ed7e617f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:24 +0000
Subject: [PATCH 10/19] fix: check the address before copying it in
 host_name_to_cname()

---
 src/util-net.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util-net.c b/src/util-net.c
index f6a9da4..ac7bdf1 100644
--- a/src/util-net.c
+++ b/src/util-net.c
@@ -136,7 +136,7 @@ int host_name_to_addr4(const char *name, struct in_addr *addr)
 
     if (!(hptr = get_host_by_name(name, buf, sizeof(buf), NULL)))
         return(-1);
-    if (hptr->h_length > 4) {
+    if ((hptr->h_length > 4) || (!hptr->h_addr_list[0])) {
         errno = ERANGE;
         return(-1);
     }
@@ -183,6 +183,10 @@ char * host_name_to_cname(const char *src, char *dst, int dstlen)
      *    in order to obtain the canonical name of the host.
      *  Besides, this additional query helps protect against DNS spoofing.
      */
+    if ((hptr->h_length > (int) sizeof(addr)) || (!hptr->h_addr_list[0])) {
+        errno = ERANGE;
+        return(NULL);
+    }
     memcpy(&addr, hptr->h_addr_list[0], hptr->h_length);
     if (!(hptr = get_host_by_addr((char *) &addr, 4, AF_INET,
       buf, sizeof(buf), NULL)))
-- 
2.43.0


From f13115dc24d802a4fd2ac9cda9419cd0fb7c4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:25 +0000
Subject: [PATCH 11/19] fix: terminate a truncated log message whose format
 ends with a newline

---
 src/log.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/log.c b/src/log.c
index 586af3d..1f572aa 100644
--- a/src/log.c
+++ b/src/log.c
@@ -236,6 +236,8 @@ static void log_aux(int errnum, int priority, char *msgbuf, int msgbuflen,
             p += n;
             len -= n;
         }
+    }
+    if ((p == buf) || (p[-1] != '\n')) {
         strcat(p, "\n");        /* space was reserved above for this newline */
     }
 
-- 
2.43.0


From cdd5bbe4ef7905667083d3fed0cdf0991b3d045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:01 +0000
Subject: [PATCH 12/19] fix: open any closed standard descriptor before the
 daemon opens its own

---
 src/server.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/server.c b/src/server.c
index 6b91370..376c99e 100644
--- a/src/server.c
+++ b/src/server.c
@@ -53,6 +53,7 @@
 #include "util.h"
 
 
+static void open_std_fds(void);
 static void begin_daemonize(int *fd_ptr, pid_t *pgid_ptr);
 static void end_daemonize(int fd);
 static void setup_coredump(server_conf_t *conf);
@@ -101,6 +102,8 @@ int main(int argc, char *argv[])
 #endif /* NDEBUG */
     log_set_file(stderr, log_priority, 0);
 
+    open_std_fds();
+
     conf = create_server_conf();
     tp_global = conf->tp;
 
@@ -177,6 +180,27 @@ int main(int argc, char *argv[])
 }
 
 
+static void open_std_fds(void)
+{
+/*  Ensures stdin, stdout, and stderr are open (on "/dev/null" if need be) so
+ *    their descriptors are not assigned to anything else that would then be
+ *    clobbered by end_daemonize() or inherited by a child process.
+ */
+    int fd;
+
+    do {
+        if ((fd = open("/dev/null", O_RDWR)) < 0) {
+            log_err(errno, "Unable to open \"/dev/null\"");
+        }
+    } while (fd <= STDERR_FILENO);
+
+    if (close(fd) < 0) {
+        log_err(errno, "Unable to close \"/dev/null\"");
+    }
+    return;
+}
+
+
 static void begin_daemonize(int *fd_ptr, pid_t *pgid_ptr)
 {
 /*  Begins the daemonization of the process.
-- 
2.43.0


From 38cc7b08f98b4cabc97b7282812288fc761c08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:14 +0000
Subject: [PATCH 13/19] fix: clear every input translation flag and enable the
 receiver in raw mode

---
 src/common.c        | 18 +++++++++++++-----
 src/server-serial.c |  3 +++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/common.c b/src/common.c
index 2ab3899..fe0162c 100644
--- a/src/common.c
+++ b/src/common.c
@@ -183,10 +183,17 @@ void get_tty_raw(struct termios *tty, int fd)
 
     get_tty_mode(tty, fd);
 
-    /*  Disable SIGINT on BREAK, CR-to-NL, input parity check,
-     *    stripping 8th bit on input, and output flow control.
+    /*  Disable SIGINT on BREAK, CR-to-NL, NL-to-CR, ignoring CR, marking
+     *    parity errors, input parity check, stripping 8th bit on input,
+     *    and output flow control.
      */
-    tty->c_iflag &= ~(BRKINT | ICRNL | INPCK | ISTRIP | IXON);
+    tty->c_iflag &= ~(BRKINT | ICRNL | INLCR | IGNCR | PARMRK | INPCK |
+        ISTRIP | IXON);
+#ifdef IUCLC
+    /*  Disable mapping uppercase characters to lowercase on input.
+     */
+    tty->c_iflag &= ~IUCLC;
+#endif /* IUCLC */
 
     /*  Disable output processing.
      */
@@ -201,9 +208,10 @@ void get_tty_raw(struct termios *tty, int fd)
      */
     tty->c_cflag &= ~PARENB;
 
-    /*  Ignore modem status lines for locally attached device.
+    /*  Ignore modem status lines for locally attached device,
+     *    and enable the receiver.
      */
-    tty->c_cflag |= CLOCAL;
+    tty->c_cflag |= (CLOCAL | CREAD);
 
     /*  Disable echo, canonical mode, extended input processing, signal chars.
      */
diff --git a/src/server-serial.c b/src/server-serial.c
index 56e11ae..aa5d77c 100644
--- a/src/server-serial.c
+++ b/src/server-serial.c
@@ -294,6 +294,9 @@ void set_serial_opts(struct termios *tty, obj_t *serial, seropt_t *opts)
         tty->c_cflag |= CS8;
     }
 
+#ifdef CMSPAR
+    tty->c_cflag &= ~CMSPAR;            /* no "mark" or "space" parity */
+#endif /* CMSPAR */
     if (opts->parity == 1) {
         tty->c_cflag |= (PARENB | PARODD);
     }
-- 
2.43.0


From aa71f5dd9afb77965c099277c3e3cbd233d5c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 14/19] fix: reject malformed and out-of-range serial, IPMI and
 test-console options

---
 src/server-ipmi.c   | 16 ++++++++++------
 src/server-serial.c | 15 +++++++++++++--
 src/server-test.c   |  4 +++-
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/server-ipmi.c b/src/server-ipmi.c
index 5e51aa7..9053bed 100644
--- a/src/server-ipmi.c
+++ b/src/server-ipmi.c
@@ -35,6 +35,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -490,7 +491,8 @@ static int process_ipmi_opt_privilege(
         errno = 0;
         n = strtol(str, &p, 0);
 
-        if ((*p != '\0') || (errno == ERANGE)) {
+        if ((p == str) || (*p != '\0') || (errno == ERANGE)
+                || (n < INT_MIN) || (n > INT_MAX)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
                     "invalid IPMI privilege level \"%s\"", str);
@@ -531,7 +533,8 @@ static int process_ipmi_opt_cipher(
         errno = 0;
         n = strtol(str, &p, 0);
 
-        if ((*p != '\0') || (errno == ERANGE)) {
+        if ((p == str) || (*p != '\0') || (errno == ERANGE)
+                || (n < INT_MIN) || (n > INT_MAX)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
                     "invalid IPMI cipher suite \"%s\"", str);
@@ -618,13 +621,14 @@ static int process_ipmi_opt_workaround(
         flag = 0;
     }
     else {
-        unsigned int  u;
-        char         *p;
+        unsigned long int  u;
+        char              *p;
 
         errno = 0;
         u = strtoul(str, &p, 0);
 
-        if ((*p != '\0') || (errno == ERANGE)) {
+        if ((p == str) || (*p != '\0') || (errno == ERANGE)
+                || (u > UINT_MAX)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
                     "invalid IPMI workaround flag \"%s\"", str);
@@ -634,7 +638,7 @@ static int process_ipmi_opt_workaround(
         else if (!ipmiconsole_workaround_flags_is_valid(u)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
-                    "invalid IPMI workaround flag 0x%X", u);
+                    "invalid IPMI workaround flag 0x%lX", u);
             }
             return(-1);
         }
diff --git a/src/server-serial.c b/src/server-serial.c
index aa5d77c..e0f48c3 100644
--- a/src/server-serial.c
+++ b/src/server-serial.c
@@ -133,6 +133,7 @@ int parse_serial_opts(
     seropt_t optsTmp;
     int bpsTmp;
     char parityTmp;
+    int len[4];
 
     assert(opts != NULL);
 
@@ -148,9 +149,19 @@ int parse_serial_opts(
         return(-1);
     }
 
-    n = sscanf(str, "%d,%d%c%d", &bpsTmp, &optsTmp.databits,
-        &parityTmp, &optsTmp.stopbits);
+    /*  The field widths prevent integer overflow; excess digits are caught
+     *    by the check for trailing characters.
+     */
+    n = sscanf(str, "%9d%n,%9d%n%c%n%9d%n", &bpsTmp, &len[0],
+        &optsTmp.databits, &len[1], &parityTmp, &len[2],
+        &optsTmp.stopbits, &len[3]);
 
+    if ((n < 1) || (str[len[n-1]] != '\0')) {
+        if ((errbuf != NULL) && (errlen > 0))
+            snprintf(errbuf, errlen,
+                "expected \"BPS[,DATABITS[PARITY[STOPBITS]]]\"");
+        return(-1);
+    }
     if (n >= 1) {
         optsTmp.bps = int_to_bps(bpsTmp);
         if (optsTmp.bps <= 0) {
diff --git a/src/server-test.c b/src/server-test.c
index 56b2812..56fe9bc 100644
--- a/src/server-test.c
+++ b/src/server-test.c
@@ -150,8 +150,10 @@ static int process_test_opt(
     }
     c = toupper((int) str[0]);
     p = str + 2;
+    errno = 0;
     l = strtol(p, &endp, 0);
-    if ((*endp != '\0') || (errno == ERANGE) || (l < 0) || (l > INT_MAX)) {
+    if ((endp == p) || (*endp != '\0') || (errno == ERANGE)
+            || (l < 0) || (l > INT_MAX)) {
         if ((errbuf != NULL) && (errlen > 0)) {
             snprintf(errbuf, errlen, "invalid testopts value \"%s\"", str);
         }
-- 
2.43.0


From fd33ed16bc376628a3b86e81b2e60dc618a28431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:00 +0000
Subject: [PATCH 15/19] Restore server-test.c: its option parsing stays as
 upstream

---
 src/server-test.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/server-test.c b/src/server-test.c
index 56fe9bc..56b2812 100644
--- a/src/server-test.c
+++ b/src/server-test.c
@@ -150,10 +150,8 @@ static int process_test_opt(
     }
     c = toupper((int) str[0]);
     p = str + 2;
-    errno = 0;
     l = strtol(p, &endp, 0);
-    if ((endp == p) || (*endp != '\0') || (errno == ERANGE)
-            || (l < 0) || (l > INT_MAX)) {
+    if ((*endp != '\0') || (errno == ERANGE) || (l < 0) || (l > INT_MAX)) {
         if ((errbuf != NULL) && (errlen > 0)) {
             snprintf(errbuf, errlen, "invalid testopts value \"%s\"", str);
         }
-- 
2.43.0


From 8236ab72c54407c73142b70ca554b42935d80d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:48 +0000
Subject: [PATCH 16/19] fix: tpoll spun when the next timer was more than 24.8
 days away

---
 src/tpoll.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tpoll.c b/src/tpoll.c
index 084074c..0eaecd6 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -29,6 +29,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <poll.h>
 #include <pthread.h>
 #include <stdlib.h>
@@ -910,6 +911,14 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
             tvp1 = &tv;
         }
     }
+    /*  Prevent integer overflow.
+     */
+    if (tvp1->tv_sec - tvp0->tv_sec >= INT_MAX / 1000) {
+        return ((INT_MAX / 1000 - 1) * 1000);
+    }
+    if (tvp0->tv_sec - tvp1->tv_sec >= INT_MAX / 1000) {
+        return ((INT_MAX / 1000 - 1) * -1000);
+    }
     ms = ( (tvp1->tv_sec  - tvp0->tv_sec)  * 1000 ) +
          ( (tvp1->tv_usec - tvp0->tv_usec) / 1000 ) ;
     /*
-- 
2.43.0


From 19475ca529ffe89cfbad37937e6424ed4a66bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:50 +0000
Subject: [PATCH 17/19] fix: 8-bit escape character was not recognised and
 doubled command letters acted as commands

---
 src/client-tty.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 037e841..af69e15 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -162,7 +162,7 @@ static int read_from_stdin(client_conf_t *conf)
     static enum { CHR, EOL, ESC } mode = EOL;
     int n;
     unsigned char c;
-    char esc = conf->escapeChar;
+    unsigned char esc = conf->escapeChar;
     unsigned char buf[4];
     unsigned char *p = buf;
     unsigned char *q, *r;
@@ -180,7 +180,11 @@ static int read_from_stdin(client_conf_t *conf)
     }
     if (mode == ESC) {
         mode = EOL;
-        switch(c) {
+        /*
+         *  A doubled escape character always denotes itself, even if it is
+         *    also the character of an escape sequence.
+         */
+        if (c != esc) switch(c) {
         case ESC_CHAR_BREAK:
             return(perform_break_esc(conf, c));
         case ESC_CHAR_CLOSE:
-- 
2.43.0


From 0740d1e00b00ae75d92419d6d565e2ee575fbe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:51 +0000
Subject: [PATCH 18/19] fix: log replay showed stale bytes after the logfile
 was shut down

---
 src/server-obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 09e5cb8..43497a3 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -870,6 +870,7 @@ int shutdown_obj(obj_t *obj)
     x_pthread_mutex_lock(&obj->bufLock);
     n = num_bytes_buffered(obj);
     obj->bufInPtr = obj->bufOutPtr = obj->buf;
+    obj->gotBufWrap = 0;
     obj->gotEOF = 0;
     x_pthread_mutex_unlock(&obj->bufLock);
     if (n > 0) {
-- 
2.43.0


From 8ce03df5b44517c4e545622b53d9ef59260548a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:30 +0000
Subject: [PATCH 19/19] fix: refuse a greeting, request or response that is cut
 short before its newline

---
 src/client-sock.c |  6 ++++++
 src/server-sock.c | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/client-sock.c b/src/client-sock.c
index 1d66111..2b787c4 100644
--- a/src/client-sock.c
+++ b/src/client-sock.c
@@ -267,6 +267,12 @@ int recv_rsp(client_conf_t *conf)
             conf->req->host, conf->req->port);
         return(-1);
     }
+    else if (buf[n - 1] != '\n') {
+        conf->errnum = CONMAN_ERR_LOCAL;
+        conf->errmsg = create_format_string("Received incomplete response"
+            " from <%s:%d>", conf->req->host, conf->req->port);
+        return(-1);
+    }
 
     l = lex_create(buf, proto_strs);
     while (!done) {
diff --git a/src/server-sock.c b/src/server-sock.c
index a5a9c6c..be613f8 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -241,6 +241,11 @@ static int recv_greeting(req_t *req)
             req->fqdn, req->port);
         return(-1);
     }
+    else if (buf[n - 1] != '\n') {
+        log_msg(LOG_NOTICE, "Received incomplete greeting from <%s:%d>",
+            req->fqdn, req->port);
+        return(-1);
+    }
 
     DPRINTF((5, "Received greeting: %s", buf));
 
@@ -338,6 +343,11 @@ static int recv_req(req_t *req)
             req->fqdn, req->port);
         return(-1);
     }
+    else if (buf[n - 1] != '\n') {
+        log_msg(LOG_NOTICE, "Received incomplete request from <%s:%d>",
+            req->fqdn, req->port);
+        return(-1);
+    }
 
     DPRINTF((5, "Received request: %s", buf));
 
-- 
2.43.0

