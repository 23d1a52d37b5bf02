From 30b5b04b153c2179ed9772bd36482d4cd07e0e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 01/50] fix: Anchor authorization patterns as a whole

Without parentheses, an alternation such as hosts = "foo|bar" was not
confined to the host name field and not anchored: the pattern permitted
any command ending in "bar;...".
---
 src/server/conf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 6bed98f..9e4c6f8 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -241,7 +241,7 @@ host_to_command(const char *host_pattern)
 {
 	char *command_pattern;
 
-	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;%s;.+",
+	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s);.+",
 	    host_pattern);
 
 	return command_pattern;
@@ -262,7 +262,7 @@ service_to_command(const char *service_pattern)
 	service_part = pattern;
 
 	xasprintf(&command_pattern,
-	    "PROCESS_SERVICE_CHECK_RESULT;%s;%s;.+;.+",
+	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
 	    host_part, service_part);
 
 	free(pattern);
@@ -302,7 +302,7 @@ parse_command_pattern_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt,
 	char errbuf[128];
 	int success;
 
-	xasprintf(&pattern, "^%s\n?$", value);
+	xasprintf(&pattern, "^(%s)\n?$", value);
 	*re = xmalloc(sizeof(regex_t));
 	if ((success = regcomp(*re, pattern, REG_EXTENDED | REG_NOSUB)) != 0) {
 		(void)regerror(success, *re, errbuf, sizeof(errbuf));
-- 
2.43.0


From 7fde114ebd19bc21b3eedc23e72536b2cb051391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 02/50] fix: Refuse commands with text in front of the
 timestamp

The text preceding the first closing bracket wasn't matched against the
authorization patterns, but passed on to Nagios.
---
 src/server/auth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/auth.c b/src/server/auth.c
index f76124c..bbd0c9c 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -104,7 +104,7 @@ is_authorized(const char * restrict identity, const char * restrict command)
 		return false;
 	}
 	/* Match against the command without the leading bracketed timestamp. */
-	if ((command = strchr(command, ']')) == NULL) {
+	if (command[0] != '[' || (command = strchr(command, ']')) == NULL) {
 		warning("Timestamp missing from command submitted by %s",
 		    identity);
 		return false;
-- 
2.43.0


From 5e870da8e27bdbf58506893c919aec1c2254c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 03/50] fix: Confine host/service patterns to their fields

A pattern such as ".*foo" was matched across the semicolons delimiting the
host name or service description, so it also permitted check results for
other hosts and services with ";foo;" somewhere in the plugin output.
---
 src/server/auth.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/server/auth.c b/src/server/auth.c
index bbd0c9c..1892c90 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -31,6 +31,7 @@
 
 #include <sys/types.h>
 #include <regex.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include <confuse.h>
@@ -43,6 +44,7 @@
 #include "util.h"
 #include "wrappers.h"
 
+static char *mask_semicolons(const char *, int);
 static bool match(regex_t * restrict, const char * restrict);
 
 /*
@@ -83,8 +85,10 @@ bool
 is_authorized(const char * restrict identity, const char * restrict command)
 {
 	const char *settings[] = { "hosts", "services", "commands" };
+	const int n_semicolons[] = { 2, 4, -1 };
 	cfg_t *auth;
 	char *newline;
+	bool authorized = false;
 	size_t i;
 
 	if ((auth = hash_lookup(identity)) == NULL
@@ -111,24 +115,43 @@ is_authorized(const char * restrict identity, const char * restrict command)
 	}
 	command = skip_whitespace(command + 1);
 
-	for (i = 0; i < sizeof(settings) / sizeof(*settings); i++) {
+	for (i = 0; i < sizeof(settings) / sizeof(*settings)
+	    && !authorized; i++) {
 		cfg_opt_t *opt = cfg_getopt(auth, settings[i]);
+		char *masked = mask_semicolons(command, n_semicolons[i]);
 		unsigned int j;
 
-		for (j = 0; j < cfg_opt_size(opt); j++) {
+		for (j = 0; j < cfg_opt_size(opt) && !authorized; j++) {
 			regex_t *pattern = cfg_opt_getnptr(opt, j);
 
-			if (match(pattern, command))
-				return true;
+			authorized = match(pattern, masked);
 		}
+		free(masked);
 	}
-	return false;
+	return authorized;
 }
 
 /*
  * Static functions.
  */
 
+/*
+ * Create a copy of the command with all but the first `n' semicolons replaced,
+ * so that a pattern for a field cannot match beyond the end of that field.
+ */
+static char *
+mask_semicolons(const char *command, int n)
+{
+	char *p, *masked = xstrdup(command);
+
+	if (n >= 0)
+		for (p = masked; *p != '\0'; p++)
+			if (*p == ';' && n-- <= 0)
+				*p = ',';
+
+	return masked;
+}
+
 static bool
 match(regex_t * restrict pattern, const char * restrict command)
 {
-- 
2.43.0


From bd839e84697b3e27b57f1822b9243727d730c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 04/50] fix: Refuse commands which contain NUL bytes

Only the part preceding the NUL byte was checked for authorization and for
embedded newlines, but all data was written to the command file.
---
 src/server/server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/server.c b/src/server/server.c
index 0fcd193..8b36dae 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -233,7 +233,8 @@ handle_push(tls_state * restrict tls, char * restrict data)
 
 	info("%s C: %.*s", tls->peer, width, data);
 
-	if (is_authorized(tls->id, data)) {
+	if (strlen(data) == connection->input_length
+	    && is_authorized(tls->id, data)) {
 		notice("Queuing data from %s: %.*s", tls->peer, width, data);
 		fifo_write(connection->ctx->fifo, data,
 		    connection->input_length, free);
-- 
2.43.0


From a0285708c6943c92af00a2849b4250b8e5ba19ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 05/50] fix: Wait for the next request after NOOP

The server didn't respond to any further requests.
---
 src/server/server.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index 8b36dae..69b320f 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -194,9 +194,10 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 
 	info("%s C: %s", tls->peer, line);
 
-	if (strncasecmp("NOOP", line, 4) == 0)
+	if (strncasecmp("NOOP", line, 4) == 0) {
 		send_response(tls, "OKAY");
-	else if (strncasecmp("PUSH", line, 4) == 0) {
+		tls_read_line(tls, handle_connection);
+	} else if (strncasecmp("PUSH", line, 4) == 0) {
 		if (!parse_line(line, args, 2)) {
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
-- 
2.43.0


From 75c28db2fe1233a46c0def9d2a3c07471b72103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 06/50] fix: Refuse PUSH sizes which are out of range or not a
 number

The size was parsed with atoi(3), so an announced size such as 4294967306
was taken for 10 (bypassing max_command_size) instead of being refused.
---
 src/server/server.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/server/server.c b/src/server/server.c
index 69b320f..c44071b 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -32,6 +32,8 @@
 #if HAVE_AIO_INIT
 # include <aio.h>
 #endif
+#include <errno.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -72,6 +74,7 @@ static void send_response(tls_state * restrict, const char * restrict);
 static void bail(tls_state * restrict, const char * restrict, ...)
                  __attribute__((__format__(__printf__, 2, 3)));
 static bool client_exited(tls_state * restrict, const char * restrict);
+static int parse_size(const char *);
 static void connection_stop(tls_state *);
 
 /*
@@ -202,7 +205,7 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
 			tls_read_line(tls, handle_connection);
-		} else if ((data_size = atoi(args[1])) <= 0) {
+		} else if ((data_size = parse_size(args[1])) <= 0) {
 			warning("Expected number of bytes from %s", tls->peer);
 			send_response(tls, "FAIL Expected number of bytes");
 			tls_read_line(tls, handle_connection);
@@ -311,6 +314,19 @@ client_exited(tls_state * restrict tls, const char * restrict line)
 	return false;
 }
 
+static int
+parse_size(const char *string)
+{
+	char *end;
+	long size;
+
+	errno = 0;
+	size = strtol(string, &end, 10);
+
+	return errno != 0 || *end != '\0' || size < 0 || size > INT_MAX
+	    ? -1 : (int)size;
+}
+
 static void
 connection_stop(tls_state *tls)
 {
-- 
2.43.0


From a55cf070ef2c198849e8f69781fc8383c17d9eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 07/50] fix: Close the spool file if asynchronous output fails

---
 src/server/fifo.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index df044ec..de8f1aa 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -402,14 +402,16 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 	fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
 	fifo->async_cb.aio_buf = NULL;
 
-	if ((result = aio_error(&fifo->async_cb)) != 0)
+	if ((result = aio_error(&fifo->async_cb)) != 0) {
 		error("Cannot write to %s: %s", fifo->dump_file,
 		    strerror(result));
-	else if ((n = aio_return(&fifo->async_cb))
-	    != (ssize_t)fifo->async_cb.aio_nbytes) /* Presumably an error. */
+		(void)close_dump_file(fifo);
+	} else if ((n = aio_return(&fifo->async_cb))
+	    != (ssize_t)fifo->async_cb.aio_nbytes) { /* Presumably an error. */
 		error("Wrote %zd instead of %zu bytes to %s", n,
 		    fifo->async_cb.aio_nbytes, fifo->dump_file);
-	else {
+		(void)close_dump_file(fifo);
+	} else {
 		char *command = make_process_file_command(fifo);
 
 		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
-- 
2.43.0


From f81c3229a7d0b8d37c26fece76d721192f9c7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 08/50] fix: Close the socket if the peer's address is
 unavailable

---
 src/common/tls.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 9b89bce..8dc946e 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -535,7 +535,9 @@ tls_free(tls_state *tls)
 	if (tls->peer != NULL)
 		free(tls->peer);
 	if (tls->ssl != NULL)
-		SSL_free(tls->ssl);
+		SSL_free(tls->ssl); /* This also frees the BIO object. */
+	else if (tls->bio != NULL)
+		BIO_free_all(tls->bio);
 
 	free(tls);
 }
-- 
2.43.0


From d011ec5e82d251b21a3e1fdc181238d731764972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 09/50] fix: Don't let blocked input and output trigger each
 other

If a peer neither sent data nor read ours, read_cb() and write_cb() fed
events to each other forever, so the process would spin without serving
anyone else and without ever noticing the timeout.
---
 src/common/tls.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 8dc946e..46755bd 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -60,10 +60,11 @@
  *   stream and vice versa (i.e., there's only a single state of an SSL
  *   connection), such a call has to be followed by a check whether the `ev_io'
  *   watcher for the opposite I/O direction is currently active.  If so, we use
- *   ev_feed_event() to feed the event that watcher is waiting for into the
- *   event loop (we check the `events' member of the `ev_io' struct to find out
- *   whether it's EV_READ or EV_WRITE).  This forces an SSL_read()/SSL_write()
- *   call, which updates the state of that stream.
+ *   ev_feed_event() to feed an EV_CUSTOM event for that watcher into the event
+ *   loop.  This forces an SSL_read()/SSL_write() call, which updates the state
+ *   of that stream.  We don't feed the event that watcher is waiting for, as
+ *   the callbacks of the two watchers would then trigger each other forever if
+ *   neither direction makes progress.
  *
  * For additional explanations, see the relevant OpenSSL man pages and the
  * following thread:
@@ -649,13 +650,15 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 }
 
 static void
-read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
+read_cb(EV_P_ ev_io *w, int revents)
 {
 	tls_state *tls = w->data;
 	char *data;
 
-	reset_watcher_state(EV_A_ &tls->write_watcher);
-	tls->last_activity = ev_now(EV_A);
+	if (revents & (EV_READ | EV_WRITE)) {
+		reset_watcher_state(EV_A_ &tls->write_watcher);
+		tls->last_activity = ev_now(EV_A);
+	}
 
 	data = tls->read_mode == READ_LINE ? read_line(tls) : read_bytes(tls);
 
@@ -666,13 +669,15 @@ read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 }
 
 static void
-write_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
+write_cb(EV_P_ ev_io *w, int revents)
 {
 	tls_state *tls = w->data;
 	int n;
 
-	reset_watcher_state(EV_A_ &tls->read_watcher);
-	tls->last_activity = ev_now(EV_A);
+	if (revents & (EV_READ | EV_WRITE)) {
+		reset_watcher_state(EV_A_ &tls->read_watcher);
+		tls->last_activity = ev_now(EV_A);
+	}
 
 	do {
 		int n_todo;
@@ -887,7 +892,7 @@ reset_watcher_state(EV_P_ ev_io *w)
 	if (ev_is_active(w)) {
 		debug("Resetting %s watcher state for %s",
 		    w == &tls->read_watcher ? "input" : "output", tls->peer);
-		ev_feed_event(EV_A_ w, w->events);
+		ev_feed_event(EV_A_ w, EV_CUSTOM);
 	}
 }
 
-- 
2.43.0


From 85a1020ed12e7de44e573b40052ecc2dbee8f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 10/50] fix: Free the client-supplied ID if the handshake fails

Every unsuccessful TLS handshake leaked the ID, so unauthenticated clients
could make the server's memory grow without bound.
---
 src/common/tls.c  | 6 ++++--
 src/server/auth.c | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 46755bd..cdfa996 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -535,9 +535,10 @@ tls_free(tls_state *tls)
 		free(tls->id);
 	if (tls->peer != NULL)
 		free(tls->peer);
-	if (tls->ssl != NULL)
+	if (tls->ssl != NULL) {
+		free(SSL_get_app_data(tls->ssl)); /* An unauthenticated ID. */
 		SSL_free(tls->ssl); /* This also frees the BIO object. */
-	else if (tls->bio != NULL)
+	} else if (tls->bio != NULL)
 		BIO_free_all(tls->bio);
 
 	free(tls);
@@ -641,6 +642,7 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 			error("Cannot retrieve client identity");
 			tls_free(tls);
 		} else {
+			(void)SSL_set_app_data(tls->ssl, NULL);
 			xasprintf(&tls->peer, "%s@%s", tls->id, tls->addr);
 			debug("TLS handshake with %s successful", tls->peer);
 			ev_io_stop(EV_A_ w);
diff --git a/src/server/auth.c b/src/server/auth.c
index 1892c90..b9d46c5 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -70,6 +70,7 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 	 * With (at least) OpenSSL 1.1.1b, SSL_get_psk_identity(3) returns NULL
 	 * when TLSv1.3 is used.  As a workaround, we store the ID ourselves:
 	 */
+	free(SSL_get_app_data(ssl)); /* We might be called more than once. */
 	if (SSL_set_app_data(ssl, xstrdup(identity)) != 1) {
 		error("Cannot store client-supplied ID (`%s')", identity);
 		return 0;
-- 
2.43.0


From fc3897a927bd8f1bb0e87d3f6282384d647eb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:02 +0000
Subject: [PATCH 11/50] fix: Don't split check results at escape sequences

With -d n, the `n' of an escaped newline was taken for a delimiter.
---
 src/client/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/parse.c b/src/client/parse.c
index b37be8e..a552367 100644
--- a/src/client/parse.c
+++ b/src/client/parse.c
@@ -82,7 +82,9 @@ parse_check_result(const char *input, char delimiter)
 	n = 1;
 
 	for (pos = 0; n < 4 && input[pos] != '\0'; pos++)
-		if (input[pos] == delimiter) {
+		if (escaped != NULL && input[pos] == '\\')
+			pos++; /* The next character is part of the escape. */
+		else if (input[pos] == delimiter) {
 			lengths[n - 1] = pos - start_pos;
 			debug("Check result field %d has %d characters (%d-%d)",
 			    n, lengths[n - 1], start_pos, pos - 1);
-- 
2.43.0


From 0c4b8477450c925cbbf9abd5b95739e89b7dd0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 12/50] fix: Don't recurse when skipping empty input

A large number of successive empty lines (or records) made send_nsca
exhaust its stack.
---
 src/client/input.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/input.c b/src/client/input.c
index 5b350c7..6265081 100644
--- a/src/client/input.c
+++ b/src/client/input.c
@@ -82,7 +82,8 @@ input_read_chunk(input_state *input, void handle_read(input_state *, char *))
 	if (!input->eof) {
 		input->read_handler = handle_read;
 		ev_io_start(EV_DEFAULT_UC_ &input->watcher);
-		ev_invoke(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM);
+		/* We may be called by the read handler, so we won't recurse. */
+		ev_feed_event(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM);
 	} else {
 		debug("There's no (more) data available");
 		if (input->eof_handler != NULL)
-- 
2.43.0


From b12e0ae9a75851f3e90bba09d46e15ccbe27d0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 13/50] fix: Accept comments right behind unquoted values

The character which terminated an unquoted value was skipped, so that
the text of a comment was taken for unexpected stuff.
---
 src/client/conf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index deb53f7..2aaaaf0 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -241,8 +241,10 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 				escape = false;
 				continue;
 			}
-			if (*in == quote_sign || (quote_sign == 0 &&
-			    (*in == '#' || *in == ' ' || *in == '\t')))
+			if (quote_sign == 0 &&
+			    (*in == '#' || *in == ' ' || *in == '\t'))
+				break;
+			if (*in == quote_sign)
 				done = true;
 			else if (*in == '\\')
 				escape = true;
-- 
2.43.0


From 1c1d7060a4a0c8430b3b32b209de48b50fee19d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 14/50] fix: Don't look for line ends in front of a line's last
 character

The code in charge of stripping CRLFs and of line continuations assumed
that each line ends with a newline.  It clobbered a final line without
newline whose last but one character was a backslash or carriage return,
and didn't recognize continuation lines in CRLF files.
---
 src/client/conf.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index 2aaaaf0..e07786c 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -295,34 +295,34 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 static char *
 read_conf_line(FILE *f)
 {
-	size_t len, pos = 0, size = 512;
+	size_t len, pos = 0, start = 0, size = 512;
 	char *line = xmalloc(size);
+	bool eof = true;
 
 	while ((len = xfgets(line + pos, (int)(size - pos), f)) > 0) {
+		eof = false;
 		pos += len;
-		if (line[pos - 1] != '\n' && pos == size - 1)
+		if (line[pos - 1] != '\n' && pos == size - 1) {
 			line = xrealloc(line, size *= 2);
-		else {
-			line_number++;
-			if (pos >= 2) {
-				if (line[pos - 2] == '\\') {
-					pos -= 2;
-					continue;
-				}
-				if (line[pos - 2] == '\r') {
-					line[pos - 2] = '\n';
-					line[pos - 1] = '\0';
-					pos--;
-				}
+			continue;
+		}
+		line_number++;
+		if (line[pos - 1] == '\n') {
+			pos--;
+			if (pos > start && line[pos - 1] == '\r')
+				pos--;
+			if (pos > start && line[pos - 1] == '\\') {
+				start = --pos;
+				continue;
 			}
-			break;
 		}
+		break;
 	}
-	if (pos == 0) { /* EOF */
+	if (eof) {
 		free(line);
 		return NULL;
 	}
-	chomp(line);
+	line[pos] = '\0';
 	return xrealloc(line, pos + 1);
 }
 
-- 
2.43.0


From f8db46bb2fa328b6a553d8160a17cdb04819cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 15/50] fix: Accept the escape sequences \\, \', \", and \?
 with -d and -e

According to the documentation, C-style backslash escape sequences can be
specified.
---
 src/client/send_nsca.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/send_nsca.c b/src/client/send_nsca.c
index 2754150..af5a51e 100644
--- a/src/client/send_nsca.c
+++ b/src/client/send_nsca.c
@@ -279,6 +279,11 @@ parse_backslash_escape(const char *sequence)
 				return '\t';
 			case 'v':
 				return '\v';
+			case '\\': /* FALLTHROUGH */
+			case '\'': /* FALLTHROUGH */
+			case '"': /* FALLTHROUGH */
+			case '?':
+				return sequence[1];
 			case 'x': /* FALLTHROUGH */
 			case '0':
 				break;
-- 
2.43.0


From 38365a456fe35a4e5a72e57f06c0b6b1f7ca176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 16/50] fix: Don't call SSL_connect(3) until the socket is
 writable

While a TCP connection attempt is pending, OpenSSL 3.x spins in
SSL_connect(3) if it's called again before the socket becomes writable,
so the connection timeout was ignored during that time.
---
 src/common/tls.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index cdfa996..f2b48ba 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -567,7 +567,6 @@ connect_cb(EV_P_ ev_io *w, int revents)
 		if (revents & EV_CUSTOM) {
 			ev_io_set(w, tls->fd, EV_WRITE);
 			ev_io_start(EV_A_ &tls->init_watcher);
-			ev_feed_event(EV_A_ &tls->init_watcher, EV_WRITE);
 		}
 		check_tls_error(EV_A_ w, result);
 	} else {
-- 
2.43.0


From 4947a2b9962c597bb419a2f22383a87f68f861fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:29 +0000
Subject: [PATCH 17/50] fix: Don't count the startup delay as part of the
 timeout

The time cached by libev wasn't updated after sleeping, so that the
connection timed out immediately if the delay exceeded the timeout.
---
 src/common/tls.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index f2b48ba..e26048d 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -558,9 +558,14 @@ connect_cb(EV_P_ ev_io *w, int revents)
 	 * with `revents' set to EV_CUSTOM.  The above SSL_connect() call then
 	 * creates the socket descriptor (`tls->fd') we can watch.
 	 */
-	if (revents & EV_CUSTOM
-	    && (tls->fd = (int)BIO_get_fd(tls->bio, NULL)) == -1)
-		log_tls_message(die, "Cannot create socket");
+	if (revents & EV_CUSTOM) {
+		if ((tls->fd = (int)BIO_get_fd(tls->bio, NULL)) == -1)
+			log_tls_message(die, "Cannot create socket");
+
+		/* We might have been asleep or resolving the host name. */
+		ev_now_update(EV_A);
+		tls->last_activity = ev_now(EV_A);
+	}
 
 	if (result <= 0) {
 		debug("TLS connection not (yet) established");
-- 
2.43.0


From ff6728e87f87c742bcfc1abca965b4f7f7600b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 18/50] fix: Don't leave the expired timer of a freed
 connection pending

If a connection was closed in the same event loop iteration in which its
(inactive, but pending) timeout watcher expired, libev accessed and
invoked the watcher after it had been freed.
---
 src/common/tls.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index e26048d..2726eb5 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -511,16 +511,12 @@ tls_free(tls_state *tls)
 {
 	debug("Destroying connection context");
 
-	if (ev_is_active(&tls->init_watcher))
-		ev_io_stop(EV_DEFAULT_UC_ &tls->init_watcher);
-	if (ev_is_active(&tls->read_watcher))
-		ev_io_stop(EV_DEFAULT_UC_ &tls->read_watcher);
-	if (ev_is_active(&tls->write_watcher))
-		ev_io_stop(EV_DEFAULT_UC_ &tls->write_watcher);
-	if (ev_is_active(&tls->shutdown_watcher))
-		ev_io_stop(EV_DEFAULT_UC_ &tls->shutdown_watcher);
-	if (ev_is_active(&tls->timeout_watcher))
-		ev_timer_stop(EV_DEFAULT_UC_ &tls->timeout_watcher);
+	/* An inactive watcher might still be pending, so we stop them all. */
+	ev_io_stop(EV_DEFAULT_UC_ &tls->init_watcher);
+	ev_io_stop(EV_DEFAULT_UC_ &tls->read_watcher);
+	ev_io_stop(EV_DEFAULT_UC_ &tls->write_watcher);
+	ev_io_stop(EV_DEFAULT_UC_ &tls->shutdown_watcher);
+	ev_timer_stop(EV_DEFAULT_UC_ &tls->timeout_watcher);
 
 	buffer_free(tls->input_buffer);
 	buffer_free(tls->output_buffer);
-- 
2.43.0


From dc47e8bbb5cdc81022ba595800159e7c02af0cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 19/50] fix: Accept lists as global authorization settings

The documentation says that any authorization setting may also be specified as a
global setting, and that the pattern settings take lists of strings.
---
 src/server/conf.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 9e4c6f8..b67eaff 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -90,10 +90,10 @@ conf_parse(const char *path)
 
 	/*
 	 * To let the user specify a global default value for an "authorize"
-	 * setting, also add the setting as a CFG_STR to the list of global
-	 * options, and add the setting's name to the "settings" array in the
-	 * fallback_to_defaults() function.  This should be done for all
-	 * authorization settings.
+	 * setting, also add the setting as a CFG_STR (or as a CFG_STR_LIST, if
+	 * it takes multiple values) to the list of global options, and add the
+	 * setting's name to the "settings" array in the fallback_to_defaults()
+	 * function.  This should be done for all authorization settings.
 	 */
 	cfg_opt_t auth_opts[] = {
 		CFG_STR("password", NULL, CFGF_NODEFAULT),
@@ -109,15 +109,15 @@ conf_parse(const char *path)
 		CFG_FUNC("include", include_cb),
 		CFG_STR("chroot", NULL, CFGF_NODEFAULT),
 		CFG_STR("command_file", DEFAULT_COMMAND_FILE, CFGF_NONE),
-		CFG_STR("commands", NULL, CFGF_NODEFAULT),
-		CFG_STR("hosts", NULL, CFGF_NODEFAULT),
+		CFG_STR_LIST("commands", NULL, CFGF_NODEFAULT),
+		CFG_STR_LIST("hosts", NULL, CFGF_NODEFAULT),
 		CFG_STR("listen", DEFAULT_LISTEN, CFGF_NONE),
 		CFG_INT("log_level", DEFAULT_LOG_LEVEL, CFGF_NONE),
 		CFG_INT("max_command_size", DEFAULT_MAX_COMMAND_SIZE, CFGF_NONE),
 		CFG_INT("max_queue_size", DEFAULT_MAX_QUEUE_SIZE, CFGF_NONE),
 		CFG_STR("password", NULL, CFGF_NODEFAULT),
 		CFG_STR("pid_file", NULL, CFGF_NODEFAULT),
-		CFG_STR("services", NULL, CFGF_NODEFAULT),
+		CFG_STR_LIST("services", NULL, CFGF_NODEFAULT),
 		CFG_STR("temp_directory", DEFAULT_TEMP_DIRECTORY, CFGF_NONE),
 		CFG_STR("tls_ciphers", DEFAULT_TLS_CIPHERS, CFGF_NONE),
 		CFG_FLOAT("timeout", DEFAULT_TIMEOUT, CFGF_NONE),
-- 
2.43.0


From c7f0c147b44ded55dc3592cabc8efc256d2901f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 20/50] fix: Include configuration files with quotes or
 backslashes in their names

nsca-ng refused to start if such a .cfg/.conf file resided below an included
directory.
---
 src/server/conf.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index b67eaff..c20272f 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -157,12 +157,23 @@ conf_parse(const char *path)
 static int
 parse_include(cfg_t * restrict cfg, const char * restrict path)
 {
-	char *include_statement;
+	char *include_statement, *out, *quoted_path;
+	const char *in;
 	int status;
 
-	xasprintf(&include_statement, "include('%s')", path);
+	/* Within single quotes, these characters must be escaped. */
+	quoted_path = out = xmalloc(2 * strlen(path) + 1);
+	for (in = path; *in != '\0'; in++) {
+		if (*in == '\'' || *in == '\\')
+			*out++ = '\\';
+		*out++ = *in;
+	}
+	*out = '\0';
+
+	xasprintf(&include_statement, "include('%s')", quoted_path);
 	status = cfg_parse_buf(cfg, include_statement);
 	free(include_statement);
+	free(quoted_path);
 	return status;
 }
 
-- 
2.43.0


From 866443c40e28573685b3afe12f90c0a32396bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 21/50] fix: Don't exit on SIGHUP if the `user' setting is used

After the restart, the server isn't privileged to set up the group list, but it's
running as the specified user (and with that user's groups) already.
---
 src/server/nsca-ng.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index b14a1cf..32bb092 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -359,7 +359,12 @@ drop_privileges(const char *user, const char *new_root)
 			else
 				die("Cannot lookup user %s: %m", user);
 		}
-		if (initgroups(user, pw->pw_gid) == -1)
+		/* After a restart, we're running as that user already. */
+		if (geteuid() != 0 && getuid() == pw->pw_uid
+		    && geteuid() == pw->pw_uid && getgid() == pw->pw_gid
+		    && getegid() == pw->pw_gid)
+			user = NULL;
+		else if (initgroups(user, pw->pw_gid) == -1)
 			die("Cannot set up group list for user %s: %m", user);
 	}
 	if (new_root != NULL && (chroot(new_root) == -1 || chdir("/") == -1))
-- 
2.43.0


From 8c661f798d51100d2dcd05c09e3e66b780cc278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 22/50] fix: Don't use freed memory if restarting on SIGHUP
 fails

If execvp(3) failed, the functions registered with atexit(3) accessed and freed
the PID file handle and the configuration again.
---
 src/server/nsca-ng.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 32bb092..12ff13b 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -377,8 +377,9 @@ drop_privileges(const char *user, const char *new_root)
 static void
 remove_pidfile(void)
 {
-	if (pid_file != NULL && pidfile_remove(pfh) == -1) {
-		error("Cannot remove %s: %m", pid_file);
+	if (pid_file != NULL) {
+		if (pidfile_remove(pfh) == -1)
+			error("Cannot remove %s: %m", pid_file);
 		pid_file = NULL; /* Don't retry removing the PID file. */
 	}
 }
@@ -399,6 +400,7 @@ forget_config(void)
 			}
 		}
 		cfg_free(cfg);
+		cfg = NULL;
 	}
 }
 
-- 
2.43.0


From 896c85583efce9edc8a34238d850e3744ba1b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 23/50] fix: Keep the socket passed by the init system on
 SIGHUP

sd_listen_fds(3) sets the close-on-exec flag, so restarting ourselves on
SIGHUP failed when socket activated.
---
 src/server/nsca-ng.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 12ff13b..4eca9d0 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -230,6 +230,10 @@ main(int argc, char **argv)
 		remove_pidfile();
 		forget_config();
 		stop_keep_alive();
+		/* The flag was set by sd_listen_fds(3). */
+		if (socket_activated
+		    && fcntl(SD_LISTEN_FDS_START, F_SETFD, 0) == -1)
+			warning("Cannot pass on socket from init system: %m");
 		execvp(argv[0], argv);
 		die("Cannot restart myself: %m");
 	}
-- 
2.43.0


From ddc259f1ae9a5fd791a1cd88243b33bd07f73598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 24/50] fix: Don't reveal the password in an error message

If the value of a variable in send_nsca's configuration file was followed
by unexpected text, the value was printed.
---
 src/client/conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index e07786c..35d6fcb 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -261,8 +261,8 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 		token = skip_whitespace(in);
 
 		if (*token != '\0' && *token != '#')
-			die("%s:%lu: Unexpected stuff after `%s'", path,
-			    line_number, value);
+			die("%s:%lu: Unexpected stuff after value of `%s'",
+			    path, line_number, c->key);
 
 		debug("%s:%lu: %s = %s", path, line_number, c->key, value);
 
-- 
2.43.0


From be28d2e937dd2f2f7ba839ae40d5533e6af8dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 25/50] fix: Don't truncate long commands in the Perl and
 Python modules

Commands which didn't fit into 1024 bytes were silently truncated.  The
Perl module could also write a byte beyond the buffer, and the Python
module wrote a newline to a location beyond the buffer and sent memory
contents along.
---
 perl/client.c   | 98 +++++++++++++++++++++++++++++++------------------
 python/client.c | 51 +++++++++++++++++--------
 2 files changed, 98 insertions(+), 51 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 18f0ef4..85306ed 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -343,38 +343,12 @@ has_timestamp_prefix(const char *s)
    return -1;
 }
 
-int
-nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
+static int
+nscang_client_push_command(nscang_client_t *c, char *command, int len,
+                           int timeout)
 {
-   const int command_len = strlen(command);
-	char command_buf[1024];
 	char cmd[32];
-	int rc, len;
-
-   switch( has_timestamp_prefix(command) ) {
-      case 0 :
-         // There was no timestamp. Add one.
-         snprintf(command_buf, sizeof(command_buf)-1, "[%u] %s", (unsigned int)time(NULL), command);
-         break;
-      case 1 :
-         // Timestamp found, just copy everything
-         strncpy(command_buf, command, sizeof(command_buf)-1);
-         command_buf[sizeof(command_buf)-1] = '\0';
-         break;
-      default :
-         // Malformed timestamp
-         c->_errno = NSCANG_ERROR_FAIL;
-         snprintf(c->errstr, sizeof(c->errstr), "invalid time stamp format in command `%s'", command);
-         return 0;
-   }
-
-   /* make sure command_buf is newline-terminated */
-   len = strlen(command_buf);
-   if(command_buf[len-1] != '\n') {
-      command_buf[len] = '\n';
-      len++;
-      command_buf[len] = '\0';
-   }
+	int rc;
 
 	if (!nscang_client_send_moin(c, timeout))
       return 0;
@@ -393,7 +367,7 @@ nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
       return 0;
 	}
 
-	if (!nscang_client_write(c, command_buf, len, timeout))
+	if (!nscang_client_write(c, command, len, timeout))
       return 0;
 
 	rc = nscang_client_response(c, timeout);
@@ -409,22 +383,76 @@ nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
    return 1;
 }
 
+int
+nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
+{
+   /* Leave room for a timestamp, a newline, and nul-termination. */
+   const size_t size = strlen(command) + sizeof("[4294967295] \n");
+   char *command_buf;
+   int rc, len;
+
+   if((command_buf = malloc(size)) == NULL) {
+      c->_errno = NSCANG_ERROR_MALLOC;
+      return 0;
+   }
+
+   switch( has_timestamp_prefix(command) ) {
+      case 0 :
+         // There was no timestamp. Add one.
+         snprintf(command_buf, size, "[%u] %s", (unsigned int)time(NULL), command);
+         break;
+      case 1 :
+         // Timestamp found, just copy everything
+         strcpy(command_buf, command);
+         break;
+      default :
+         // Malformed timestamp
+         free(command_buf);
+         c->_errno = NSCANG_ERROR_FAIL;
+         snprintf(c->errstr, sizeof(c->errstr), "invalid time stamp format in command `%s'", command);
+         return 0;
+   }
+
+   /* make sure command_buf is newline-terminated */
+   len = strlen(command_buf);
+   if(command_buf[len-1] != '\n') {
+      command_buf[len] = '\n';
+      len++;
+      command_buf[len] = '\0';
+   }
+
+   rc = nscang_client_push_command(c, command_buf, len, timeout);
+   free(command_buf);
+   return rc;
+}
+
 int
 nscang_client_send_push(nscang_client_t *c, char *host, char *service,
                         int status, char *message, int timeout)
 {
-	char command[1024];
+	const size_t size = sizeof("PROCESS_SERVICE_CHECK_RESULT;;;-2147483648;")
+	    + strlen(host) + (service != NULL ? strlen(service) : 0)
+	    + strlen(message);
+	char *command;
+	int rc;
+
+	if ((command = malloc(size)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
 
 	if (service == NULL)
-      snprintf(command, sizeof(command) - 1,
+      snprintf(command, size,
             "PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
             host, status, message);
 	else
-      snprintf(command, sizeof(command) - 1,
+      snprintf(command, size,
             "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
             host, service, status, message);
 
-   return nscang_client_send_command(c, command, timeout);
+	rc = nscang_client_send_command(c, command, timeout);
+	free(command);
+	return rc;
 }
 
 int
diff --git a/python/client.c b/python/client.c
index 12747b9..439c5c2 100644
--- a/python/client.c
+++ b/python/client.c
@@ -365,27 +365,16 @@ nscang_client_send_moin(nscang_client_t *c, int timeout)
 	return 1;
 }
 
-int
-nscang_client_send_push(nscang_client_t *c, char *host, char *service,
-                        int status, char *message, int timeout)
+static int
+nscang_client_push_command(nscang_client_t *c, char *command, int len,
+                           int timeout)
 {
-	char cmd[64], command[1024];
-	int len, rc;
+	char cmd[64];
+	int rc;
 
 	if (!nscang_client_send_moin(c, timeout))
 		return 0;
 
-	if (service == NULL)
-		len = snprintf(command, sizeof(command) - 1,
-		    "[%u] PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
-		    (unsigned int)time(NULL), host, status, message);
-	else
-		len = snprintf(command, sizeof(command) - 1,
-		    "[%u] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
-		    (unsigned int)time(NULL), host, service, status, message);
-
-	command[len++] = '\n';
-
 	snprintf(cmd, sizeof(cmd), "PUSH %d\n", len);
 	if (!nscang_client_write(c, cmd, strlen(cmd), timeout))
 		return 0;
@@ -416,6 +405,36 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
 	return 1;
 }
 
+int
+nscang_client_send_push(nscang_client_t *c, char *host, char *service,
+                        int status, char *message, int timeout)
+{
+	const size_t size =
+	    sizeof("[4294967295] PROCESS_SERVICE_CHECK_RESULT;;;-2147483648;\n")
+	    + strlen(host) + (service != NULL ? strlen(service) : 0)
+	    + strlen(message);
+	char *command;
+	int len, rc;
+
+	if ((command = malloc(size)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
+
+	if (service == NULL)
+		len = snprintf(command, size,
+		    "[%u] PROCESS_HOST_CHECK_RESULT;%s;%d;%s\n",
+		    (unsigned int)time(NULL), host, status, message);
+	else
+		len = snprintf(command, size,
+		    "[%u] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s\n",
+		    (unsigned int)time(NULL), host, service, status, message);
+
+	rc = nscang_client_push_command(c, command, len, timeout);
+	free(command);
+	return rc;
+}
+
 int
 nscang_client_send_quit(nscang_client_t *c)
 {
-- 
2.43.0


From 098963a1d2235a95ce2d0316bb7b74a6b2ea2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 26/50] fix: Don't read outside of the response in the language
 modules

If the server sent nothing but a newline character, the Perl and Python
modules looked at the byte before the response buffer, and if a FAIL,
BAIL, or MOIN response came without a message, the bytes behind the
response were used as the message.
---
 perl/client.c   | 11 +++++++----
 python/client.c | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 85306ed..633787f 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -191,6 +191,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
+	const char *message;
 	struct timeval tv;
 
 	tv.tv_sec = 0;
@@ -206,7 +207,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if ((was_read > 1) && (buf[was_read - 2] == '\r'))
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
@@ -233,12 +234,14 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		select(1, &fdset, NULL, NULL, &tv);
 	}
 
+	message = (strlen(buf) > 5) ? buf + 5 : "";
+
 	if (strncmp(buf, "MOIN", 4) == 0) {
 		if (strcmp(buf, "MOIN 1") == 0) {
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, message, sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -246,13 +249,13 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, message, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, message, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
diff --git a/python/client.c b/python/client.c
index 439c5c2..7434638 100644
--- a/python/client.c
+++ b/python/client.c
@@ -229,6 +229,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
+	const char *message;
 	struct timeval tv;
 
 	tv.tv_sec = 0;
@@ -244,7 +245,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if ((was_read > 1) && (buf[was_read - 2] == '\r'))
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
@@ -271,12 +272,14 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		select(1, &fdset, NULL, NULL, &tv);
 	}
 
+	message = (strlen(buf) > 5) ? buf + 5 : "";
+
 	if (strncmp(buf, "MOIN", 4) == 0) {
 		if (strcmp(buf, "MOIN 1") == 0) {
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, message, sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -284,13 +287,13 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, message, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, message, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-- 
2.43.0


From e61f47617997fe30e36af449f62efc5737b528e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 27/50] fix: Use poll(2) instead of select(2) in the language
 modules

The modules called FD_SET(3) even if the file descriptor was -1 or larger
than FD_SETSIZE, and as they specified an nfds value of 1, they actually
waited for standard input.
---
 perl/client.c   | 40 +++++++++++++++-------------------------
 python/client.c | 40 +++++++++++++++-------------------------
 2 files changed, 30 insertions(+), 50 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 633787f..91800f5 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 
@@ -149,16 +150,22 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* Wait (for at most 100 milliseconds) until the connection becomes ready. */
+static void
+nscang_client_wait(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
+	poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -176,9 +183,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 	}
 }
 
@@ -187,15 +192,10 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
 	const char *message;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -229,9 +229,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		nscang_client_wait(c);
 	}
 
 	message = (strlen(buf) > 5) ? buf + 5 : "";
@@ -273,19 +271,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 		SSL_shutdown(c->ssl);
 	}
 
diff --git a/python/client.c b/python/client.c
index 7434638..c8c3e99 100644
--- a/python/client.c
+++ b/python/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 #include <pthread.h>
@@ -187,16 +188,22 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* Wait (for at most 100 milliseconds) until the connection becomes ready. */
+static void
+nscang_client_wait(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
+	poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -214,9 +221,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 	}
 }
 
@@ -225,15 +230,10 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
 	const char *message;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -267,9 +267,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		nscang_client_wait(c);
 	}
 
 	message = (strlen(buf) > 5) ? buf + 5 : "";
@@ -311,19 +309,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 		SSL_shutdown(c->ssl);
 	}
 
-- 
2.43.0


From afadd946c5c27cfeae47c152d4cb55351cf56519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 28/50] fix: Don't resume TLS sessions in the language modules

After a connection was lost, the modules attempted to resume the TLS
session, which the server refuses, so that it took two attempts to submit
the next result.
---
 perl/client.c   | 1 +
 python/client.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index 91800f5..2b8a0b5 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -280,6 +280,7 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	SSL_set_session(c->ssl, NULL); /* The server won't resume it. */
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
diff --git a/python/client.c b/python/client.c
index c8c3e99..92f19cb 100644
--- a/python/client.c
+++ b/python/client.c
@@ -318,6 +318,7 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	SSL_set_session(c->ssl, NULL); /* The server won't resume it. */
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
-- 
2.43.0


From c6984c0a62028876067e9e0c2f66fb827df57676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 29/50] fix: Don't use error messages as format strings in the
 Perl module

---
 perl/Client.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 0af06a2..2d992d3 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -218,4 +218,4 @@ command(self, command)
    self->client_initialized = 0;
    nscang_client_free(&(self->client));
 
-   croak(errstr);
+   croak("%s", errstr);
-- 
2.43.0


From 43149806b8cdfd9d9368392f895b5a2632056b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 30/50] fix: Reset errno before checking a time stamp in the
 Perl module

---
 perl/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index 2b8a0b5..b5466fe 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <errno.h>
 #include <poll.h>
 #include <string.h>
 #include <time.h>
@@ -331,6 +332,7 @@ has_timestamp_prefix(const char *s)
 
    if(*s++ != '[') return 0;
    if((*s < '0') || (*s > '9')) return -1; // counter strtol's skip-whitespace and sign permissiveness
+   errno = 0;
    (void)strtol(s, &end, 10); // discard result
    if(errno) return -1;
    if(*end == ']') return 1;
-- 
2.43.0


From 6ecda2592c93ff7a2f1400b4d0436897891a8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 31/50] fix: Ignore SIGPIPE in the Perl module

If the server closed the connection (e.g., due to its idle timeout) or was
restarted, the next submission killed the interpreter.
---
 perl/Client.xs | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 2d992d3..bd76965 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -1,5 +1,6 @@
 // vim:set cindent:
 #include <openssl/ssl.h>
+#include <signal.h>
 #include <string.h>
 #define PERL_NO_GET_CONTEXT
 #include "EXTERN.h"
@@ -13,6 +14,14 @@
 #define SV_OR_DIE(var) { if(!SvOK(var)) croak("%s must not be undef", #var); }
 #define SV_OR_NULL(var) (SvOK(var) ? SvPV_nolen(var) : NULL)
 #define SVdup_OR_NULL(var) (SvOK(var) ? strdup(SvPV_nolen(var)) : NULL)
+#define SIGPIPE_OFF(old) { \
+   struct sigaction ign; \
+   memset(&ign, 0, sizeof(ign)); \
+   ign.sa_handler = SIG_IGN; \
+   sigemptyset(&ign.sa_mask); \
+   sigaction(SIGPIPE, &ign, &old); \
+}
+#define SIGPIPE_ON(old) sigaction(SIGPIPE, &old, NULL)
 #define FREE_IF_SET(ptr) { if(ptr) free(ptr); }
 
 struct nscang_object {
@@ -126,7 +135,11 @@ DESTROY(self)
    Net::NSCAng::Client self
    CODE:
       if(self) {
+         struct sigaction old;
+
+         SIGPIPE_OFF(old);
 	      nscang_client_free(&(self->client));
+         SIGPIPE_ON(old);
          free_object(self);
          Safefree(self);
       }
@@ -145,6 +158,8 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    char *csvc_description = self->svc_description;
    char errstr[1024];
    nscang_client_t *client = &self->client;
+   struct sigaction old;
+   int sent;
 
    if(!self->client_initialized)
       init_client(self);
@@ -165,23 +180,28 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    if(!cnode_name)
       croak("node_name missing");
 
-	if(nscang_client_send_push(client,
-      cnode_name, csvc_description, return_code, plugin_output, self->timeout))
-      XSRETURN_UNDEF;
+   SIGPIPE_OFF(old);
+	sent = nscang_client_send_push(client,
+      cnode_name, csvc_description, return_code, plugin_output, self->timeout);
 
-   if(client->_errno == NSCANG_ERROR_TIMEOUT) {
+   if(!sent && client->_errno == NSCANG_ERROR_TIMEOUT) {
 	   nscang_client_disconnect(client);
 
-      if(nscang_client_send_push(client,
-               cnode_name, csvc_description, return_code, plugin_output, self->timeout))
-         XSRETURN_UNDEF;
+      sent = nscang_client_send_push(client,
+               cnode_name, csvc_description, return_code, plugin_output, self->timeout);
    }
+   SIGPIPE_ON(old);
+
+   if(sent)
+      XSRETURN_UNDEF;
 
    // Retrieve the error description
    nscang_client_errstr(client, errstr, sizeof(errstr));
    // Remember to reinitialize the client text time through
    self->client_initialized = 0;
+   SIGPIPE_OFF(old);
    nscang_client_free(&(self->client));
+   SIGPIPE_ON(old);
 
    RETVAL = newSVpv(errstr, 0);
    OUTPUT:
@@ -196,6 +216,8 @@ command(self, command)
    char errstr[1024];
    char *ccommand;
    nscang_client_t *client = &self->client;
+   struct sigaction old;
+   int sent;
 
    if(!self->client_initialized)
       init_client(self);
@@ -206,16 +228,22 @@ command(self, command)
       croak("command missing");
    }
 
-	if(nscang_client_send_command(client, ccommand, self->timeout))
-      XSRETURN_UNDEF;
+   SIGPIPE_OFF(old);
+	sent = nscang_client_send_command(client, ccommand, self->timeout);
 
-   if(client->_errno == NSCANG_ERROR_TIMEOUT)
+   if(!sent && client->_errno == NSCANG_ERROR_TIMEOUT)
 	   nscang_client_disconnect(client);
+   SIGPIPE_ON(old);
+
+   if(sent)
+      XSRETURN_UNDEF;
 
    // Retrieve the error description
    nscang_client_errstr(client, errstr, sizeof(errstr));
    // Remember to reinitialize the client text time through
    self->client_initialized = 0;
+   SIGPIPE_OFF(old);
    nscang_client_free(&(self->client));
+   SIGPIPE_ON(old);
 
    croak("%s", errstr);
-- 
2.43.0


From c565ba980ad76299c23e05265d354ea97bd02a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 32/50] fix: Refuse strings with NUL bytes in the Perl module

The module silently submitted only the part before the NUL byte.
---
 perl/Client.xs | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index bd76965..9735e19 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -12,8 +12,7 @@
 #include "client.h"
 
 #define SV_OR_DIE(var) { if(!SvOK(var)) croak("%s must not be undef", #var); }
-#define SV_OR_NULL(var) (SvOK(var) ? SvPV_nolen(var) : NULL)
-#define SVdup_OR_NULL(var) (SvOK(var) ? strdup(SvPV_nolen(var)) : NULL)
+#define SV_OR_NULL(var) (SvOK(var) ? sv_string(aTHX_ var, #var) : NULL)
 #define SIGPIPE_OFF(old) { \
    struct sigaction ign; \
    memset(&ign, 0, sizeof(ign)); \
@@ -40,6 +39,18 @@ typedef struct nscang_object nscang_object_t;
 
 typedef nscang_object_t * Net__NSCAng__Client;
 
+/* Convert to a C string. Dies rather than silently dropping what follows a NUL
+ * byte.
+ */
+static char *sv_string(pTHX_ SV *sv, const char *name) {
+   STRLEN len;
+   char *s = SvPV(sv, len);
+
+   if(strlen(s) != len)
+      croak("%s must not contain NUL bytes", name);
+   return s;
+}
+
 static char *strdupnull(const char *s) {
    return NULL == s ? NULL : strdup(s);
 }
@@ -101,16 +112,23 @@ BOOT:
 Net::NSCAng::Client
 _new(class, host, port, identity, psk, ciphers, node_name, svc_description, timeout)
    char * class
-   char * host
+   SV * host
    int port
-   char * identity
-   char * psk
+   SV * identity
+   SV * psk
    SV * ciphers
    SV * node_name
    SV * svc_description
    int timeout
 
    CODE:
+      char *chost = sv_string(aTHX_ host, "host");
+      char *cidentity = sv_string(aTHX_ identity, "identity");
+      char *cpsk = sv_string(aTHX_ psk, "psk");
+      char *cciphers = SV_OR_NULL(ciphers);
+      char *cnode_name = SV_OR_NULL(node_name);
+      char *csvc_description = SV_OR_NULL(svc_description);
+
       // Alloc new object
       Newxz(RETVAL, 1, nscang_object_t);
       if(!RETVAL)
@@ -118,9 +136,8 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
 
       // Copy/duplicate values to object attributes
       if(init_object(RETVAL,
-               host, port,  identity, psk,
-               SV_OR_NULL(ciphers), SV_OR_NULL(node_name),
-               SV_OR_NULL(svc_description), timeout)
+               chost, port, cidentity, cpsk, cciphers,
+               cnode_name, csvc_description, timeout)
         ) {
          free_object(RETVAL);
          croak("no memory for object");
@@ -151,11 +168,12 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    SV * node_name
    SV * svc_description
    int return_code
-   char * plugin_output
+   SV * plugin_output
 
    CODE:
    char *cnode_name = self->node_name;
    char *csvc_description = self->svc_description;
+   char *cplugin_output = sv_string(aTHX_ plugin_output, "plugin_output");
    char errstr[1024];
    nscang_client_t *client = &self->client;
    struct sigaction old;
@@ -165,13 +183,13 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
       init_client(self);
 
    if(SvOK(node_name))
-      cnode_name = SvPV_nolen(node_name);
+      cnode_name = sv_string(aTHX_ node_name, "node_name");
 
    if(is_host_result) {
       csvc_description = NULL;
    } else {
       if(SvOK(svc_description))
-         csvc_description = SvPV_nolen(svc_description);
+         csvc_description = sv_string(aTHX_ svc_description, "svc_description");
    }
 
    if(!(is_host_result || csvc_description))
@@ -182,13 +200,13 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
 
    SIGPIPE_OFF(old);
 	sent = nscang_client_send_push(client,
-      cnode_name, csvc_description, return_code, plugin_output, self->timeout);
+      cnode_name, csvc_description, return_code, cplugin_output, self->timeout);
 
    if(!sent && client->_errno == NSCANG_ERROR_TIMEOUT) {
 	   nscang_client_disconnect(client);
 
       sent = nscang_client_send_push(client,
-               cnode_name, csvc_description, return_code, plugin_output, self->timeout);
+               cnode_name, csvc_description, return_code, cplugin_output, self->timeout);
    }
    SIGPIPE_ON(old);
 
@@ -223,7 +241,7 @@ command(self, command)
       init_client(self);
 
    if(SvOK(command)) {
-      ccommand = SvPV_nolen(command);
+      ccommand = sv_string(aTHX_ command, "command");
    } else {
       croak("command missing");
    }
-- 
2.43.0


From 7ddfda40479af15938450a23300952b59873187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 33/50] fix: Refuse large return codes in the language modules

The modules submitted the return code modulo 2^32, so that, e.g., 2^32 was
turned into OK.
---
 perl/Client.xs  | 6 +++++-
 python/nscang.c | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 9735e19..4b6bcdf 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -1,5 +1,6 @@
 // vim:set cindent:
 #include <openssl/ssl.h>
+#include <limits.h>
 #include <signal.h>
 #include <string.h>
 #define PERL_NO_GET_CONTEXT
@@ -167,7 +168,7 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    int is_host_result
    SV * node_name
    SV * svc_description
-   int return_code
+   IV return_code
    SV * plugin_output
 
    CODE:
@@ -198,6 +199,9 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    if(!cnode_name)
       croak("node_name missing");
 
+   if(return_code < INT_MIN || return_code > INT_MAX)
+      croak("return_code out of range");
+
    SIGPIPE_OFF(old);
 	sent = nscang_client_send_push(client,
       cnode_name, csvc_description, return_code, cplugin_output, self->timeout);
diff --git a/python/nscang.c b/python/nscang.c
index 1fd59d9..f01fc79 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -56,7 +56,7 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 	int timeout = 5;
 	nscang_client_t *client = ((NSCAngNotifyer *)self)->client;
 
-	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sI|sI:host_result",
+	if (!PyArg_ParseTupleAndKeywords(args, kwds, "si|si:host_result",
 	    kwlist, &host, &rc, &output, &timeout))
 		return NULL;
 
@@ -90,7 +90,7 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 	int timeout = 5;
 	nscang_client_t *client = ((NSCAngNotifyer *)self)->client;
 
-	if (!PyArg_ParseTupleAndKeywords(args, kwds, "ssI|sI:svc_result",
+	if (!PyArg_ParseTupleAndKeywords(args, kwds, "ssi|si:svc_result",
 	    kwlist, &host, &service, &rc, &output, &timeout))
 		return NULL;
 
-- 
2.43.0


From 1c194be0c28db03a83b38d041358187fddc9a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 34/50] fix: Don't crash on uninitialized objects in the Python
 module

If the constructor failed (or wasn't called), using or deallocating the
object dereferenced a null pointer.  Also, the host attribute referred to
a string not owned by the object, and calling the constructor again leaked
the connection, or left the object unusable if that failed.
---
 python/nscang.c | 61 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/python/nscang.c b/python/nscang.c
index f01fc79..e676c4e 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -37,9 +37,6 @@ typedef struct {
 	PyObject_HEAD
 	char *host;
 	unsigned int port;
-	char *identity;
-	char *psk;
-	char *ciphers;
 	nscang_client_t *client;
 	/* Type-specific fields go here. */
 } NSCAngNotifyer;
@@ -60,6 +57,12 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 	    kwlist, &host, &rc, &output, &timeout))
 		return NULL;
 
+	if (client == NULL) {
+		PyErr_SetString(PyExc_RuntimeError,
+		    "NSCAngNotifyer object isn't initialized");
+		return NULL;
+	}
+
 	if (nscang_client_send_push(client, host, NULL, rc, output, timeout)) {
 		Py_INCREF(Py_None);
 		return Py_None;
@@ -94,6 +97,12 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 	    kwlist, &host, &service, &rc, &output, &timeout))
 		return NULL;
 
+	if (client == NULL) {
+		PyErr_SetString(PyExc_RuntimeError,
+		    "NSCAngNotifyer object isn't initialized");
+		return NULL;
+	}
+
 	if (nscang_client_send_push(client, host, service, rc, output, timeout)) {
 		Py_INCREF(Py_None);
 		return Py_None;
@@ -111,45 +120,63 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 	return NULL;
 }
 
+static void
+NSCAngNotifyer_clear(NSCAngNotifyer *self)
+{
+	if (self->client != NULL) {
+		nscang_client_free(self->client);
+		free(self->client);
+		self->client = NULL;
+	}
+	free(self->host);
+	self->host = NULL;
+}
+
 static int
 NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 {
 	char errstr[1024];
 	static char *kwlist[] = { "host", "port", "identity", "psk", "ciphers",
 	    NULL };
-
-	self->host = NULL;
-	self->port = 5668;
-	self->identity = NULL;
-	self->psk = NULL;
-	self->ciphers = NULL;
+	char *host, *identity, *psk, *ciphers = NULL;
+	unsigned int port;
+	nscang_client_t *client;
 
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sIss|s:__init__", kwlist,
-	    &self->host, &self->port, &self->identity,
-	    &self->psk, &self->ciphers))
+	    &host, &port, &identity, &psk, &ciphers))
 		return -1;
 
-	self->client = malloc(sizeof(nscang_client_t));
-	if (self->client == NULL) {
+	host = strdup(host);
+	client = calloc(1, sizeof(nscang_client_t));
+	if (host == NULL || client == NULL) {
+		free(host);
+		free(client);
 		PyErr_Format(PyExc_MemoryError,
 		    "Can't allocate memory for NSCAng connection state");
 		return -1;
 	}
 
-	if (!nscang_client_init(self->client, self->host, self->port,
-		self->ciphers, self->identity, self->psk)) {
+	if (!nscang_client_init(client, host, port, ciphers, identity, psk)) {
 		PyErr_Format(PyExc_RuntimeError, "nscang_client_init: %s",
-		    nscang_client_errstr(self->client, errstr, sizeof(errstr)));
+		    nscang_client_errstr(client, errstr, sizeof(errstr)));
+		nscang_client_free(client);
+		free(client);
+		free(host);
 		return -1;
 	}
 
+	NSCAngNotifyer_clear(self);
+	self->host = host;
+	self->port = port;
+	self->client = client;
+
 	return 0;
 }
 
 static void
 NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 {
-	nscang_client_free(self->client);
+	NSCAngNotifyer_clear(self);
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0


From 74f64e40930ad684bfc0ab5e6762966175bb0117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 35/50] fix: Refuse invalid port numbers in the language
 modules

The modules connected to some other port instead, as the number was
truncated to five digits or to 16 bits.
---
 perl/Client.xs  |  5 ++++-
 python/nscang.c | 11 ++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 4b6bcdf..9c75208 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -114,7 +114,7 @@ Net::NSCAng::Client
 _new(class, host, port, identity, psk, ciphers, node_name, svc_description, timeout)
    char * class
    SV * host
-   int port
+   IV port
    SV * identity
    SV * psk
    SV * ciphers
@@ -130,6 +130,9 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
       char *cnode_name = SV_OR_NULL(node_name);
       char *csvc_description = SV_OR_NULL(svc_description);
 
+      if(port < 0 || port > 65535)
+         croak("port out of range");
+
       // Alloc new object
       Newxz(RETVAL, 1, nscang_object_t);
       if(!RETVAL)
diff --git a/python/nscang.c b/python/nscang.c
index e676c4e..5d9d71a 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -36,7 +36,7 @@
 typedef struct {
 	PyObject_HEAD
 	char *host;
-	unsigned int port;
+	int port;
 	nscang_client_t *client;
 	/* Type-specific fields go here. */
 } NSCAngNotifyer;
@@ -139,13 +139,18 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 	static char *kwlist[] = { "host", "port", "identity", "psk", "ciphers",
 	    NULL };
 	char *host, *identity, *psk, *ciphers = NULL;
-	unsigned int port;
+	int port;
 	nscang_client_t *client;
 
-	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sIss|s:__init__", kwlist,
+	if (!PyArg_ParseTupleAndKeywords(args, kwds, "siss|s:__init__", kwlist,
 	    &host, &port, &identity, &psk, &ciphers))
 		return -1;
 
+	if (port < 0 || port > 65535) {
+		PyErr_SetString(PyExc_ValueError, "port out of range");
+		return -1;
+	}
+
 	host = strdup(host);
 	client = calloc(1, sizeof(nscang_client_t));
 	if (host == NULL || client == NULL) {
-- 
2.43.0


From 5c44dfab9a26d11a55800d412e5d3284ac68a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 36/50] fix: Honour the timeout while connecting in the
 language modules

Don't call OpenSSL again before the socket is ready.  At least OpenSSL 3.0
loops until the connection is established if its non-blocking connect BIO
is used before that.
---
 perl/client.c   | 32 +++++++++++++++++---------------
 python/client.c | 32 +++++++++++++++++---------------
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index b5466fe..aa2eb97 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -151,15 +151,17 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
-/* Wait (for at most 100 milliseconds) until the connection becomes ready. */
-static void
+/* Wait (for at most 100 milliseconds) until the connection becomes ready.
+ * Returns 0 if it didn't.
+ */
+static int
 nscang_client_wait(nscang_client_t *c)
 {
 	struct pollfd pfd;
 
 	pfd.fd = BIO_get_fd(c->bio, NULL);
 	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
-	poll(&pfd, 1, 100);
+	return poll(&pfd, 1, 100) != 0;
 }
 
 int
@@ -179,12 +181,12 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		if (time(NULL) > endtime) {
-			c->_errno = NSCANG_ERROR_TIMEOUT;
-			return 0;
-		}
-
-		nscang_client_wait(c);
+		do {
+			if (time(NULL) > endtime) {
+				c->_errno = NSCANG_ERROR_TIMEOUT;
+				return 0;
+			}
+		} while (!nscang_client_wait(c));
 	}
 }
 
@@ -225,12 +227,12 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		if (time(NULL) > endtime) {
-			c->_errno = NSCANG_ERROR_TIMEOUT;
-			return 0;
-		}
-
-		nscang_client_wait(c);
+		do {
+			if (time(NULL) > endtime) {
+				c->_errno = NSCANG_ERROR_TIMEOUT;
+				return 0;
+			}
+		} while (!nscang_client_wait(c));
 	}
 
 	message = (strlen(buf) > 5) ? buf + 5 : "";
diff --git a/python/client.c b/python/client.c
index 92f19cb..e6c84e2 100644
--- a/python/client.c
+++ b/python/client.c
@@ -188,15 +188,17 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
-/* Wait (for at most 100 milliseconds) until the connection becomes ready. */
-static void
+/* Wait (for at most 100 milliseconds) until the connection becomes ready.
+ * Returns 0 if it didn't.
+ */
+static int
 nscang_client_wait(nscang_client_t *c)
 {
 	struct pollfd pfd;
 
 	pfd.fd = BIO_get_fd(c->bio, NULL);
 	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
-	poll(&pfd, 1, 100);
+	return poll(&pfd, 1, 100) != 0;
 }
 
 int
@@ -216,12 +218,12 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		if (time(NULL) > endtime) {
-			c->_errno = NSCANG_ERROR_TIMEOUT;
-			return 0;
-		}
-
-		nscang_client_wait(c);
+		do {
+			if (time(NULL) > endtime) {
+				c->_errno = NSCANG_ERROR_TIMEOUT;
+				return 0;
+			}
+		} while (!nscang_client_wait(c));
 	}
 }
 
@@ -262,12 +264,12 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		if (time(NULL) > endtime) {
-			c->_errno = NSCANG_ERROR_TIMEOUT;
-			return 0;
-		}
-
-		nscang_client_wait(c);
+		do {
+			if (time(NULL) > endtime) {
+				c->_errno = NSCANG_ERROR_TIMEOUT;
+				return 0;
+			}
+		} while (!nscang_client_wait(c));
 	}
 
 	message = (strlen(buf) > 5) ? buf + 5 : "";
-- 
2.43.0


From ce8972d5508635fef5eb1f5c41b3aa3fc3d9de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 37/50] fix: Disconnect after failed submissions in the Python
 module

Otherwise, a late response to the failed submission was taken for the
response to the next one, which was then reported as successful even if
the server refused it.
---
 python/nscang.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/nscang.c b/python/nscang.c
index 5d9d71a..43ea866 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -77,6 +77,7 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 
 	PyErr_Format(PyExc_RuntimeError, "host_result: %s",
 	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_disconnect(client);
 	return NULL;
 }
 
@@ -117,6 +118,7 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 
 	PyErr_Format(PyExc_RuntimeError, "svc_result: %s",
 	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_disconnect(client);
 	return NULL;
 }
 
-- 
2.43.0


From 1e0e0d6aecfdfce3d6b6c4b95886405ebe3ead5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 38/50] fix: Don't interpret backslashes in the contributed
 scripts

E.g., a "\n" within the output of a plugin or within a comment was turned
into a newline character, so that (parts of) the text were lost, or
submitted as another command.
---
 contrib/acknowledge  | 4 ++--
 contrib/downtime     | 4 ++--
 contrib/invoke_check | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/contrib/acknowledge b/contrib/acknowledge
index 31debb5..a23cc43 100755
--- a/contrib/acknowledge
+++ b/contrib/acknowledge
@@ -57,10 +57,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
 if [ -z "$service" ]
 then	# Host acknowledgement.
-	printf '%b' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment\n" \
+	printf '%s\n' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 else	# Service acknowledgement.
-	printf '%b' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment\n" \
+	printf '%s\n' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 fi
 
diff --git a/contrib/downtime b/contrib/downtime
index fa173b2..a61e00c 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -73,10 +73,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
 if [ -z "$service" ]
 then	# Host check.
-	printf '%b' "SCHEDULE_HOST_DOWNTIME;$host;$start;$end;1;0;0;$author;$comment\n" \
+	printf '%s\n' "SCHEDULE_HOST_DOWNTIME;$host;$start;$end;1;0;0;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 else	# Service check.
-	printf '%b' "SCHEDULE_SVC_DOWNTIME;$host;$service;$start;$end;1;0;0;$author;$comment\n" \
+	printf '%s\n' "SCHEDULE_SVC_DOWNTIME;$host;$service;$start;$end;1;0;0;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 fi
 
diff --git a/contrib/invoke_check b/contrib/invoke_check
index abe6341..8c26d13 100755
--- a/contrib/invoke_check
+++ b/contrib/invoke_check
@@ -57,6 +57,7 @@ state=$?
 
 test $state -le 3 || die "$0: '$@' yields invalid plugin return code $state"
 
-printf '%b' "$host\t$service\t$state\t$output\n" | send_nsca $send_nsca_args
+printf '%s\t%s\t%s\t%s\n' "$host" "$service" "$state" "$output" \
+    | send_nsca $send_nsca_args
 
 # vim:set joinspaces noexpandtab textwidth=80:
-- 
2.43.0


From dcdb533dfb36e8e9d616a3005faa757af153f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 39/50] fix: Support date strings with blanks in the downtime
 script

---
 contrib/downtime | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contrib/downtime b/contrib/downtime
index a61e00c..d49031f 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -66,8 +66,8 @@ test $# -eq 0 || usage
 
 host=${host:-`hostname -s`}
 service=${service:+$service}
-start=`date -d ${start:-'now'} '+%s'`
-end=`date -d ${end:-'+2 hours'} '+%s'`
+start=`date -d "${start:-now}" '+%s'`
+end=`date -d "${end:-+2 hours}" '+%s'`
 author=`getent passwd "$USER" | cut -d: -f5`
 comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
-- 
2.43.0


From 39841e0cd3cc50afdb6cef07ad9f9be7c8b27d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 40/50] fix: Support configuration paths with blanks in the
 contributed scripts

---
 contrib/acknowledge           | 6 +++---
 contrib/disable_notifications | 4 ++--
 contrib/downtime              | 6 +++---
 contrib/enable_notifications  | 4 ++--
 contrib/invoke_check          | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/contrib/acknowledge b/contrib/acknowledge
index a23cc43..e457ac9 100755
--- a/contrib/acknowledge
+++ b/contrib/acknowledge
@@ -33,7 +33,7 @@ do
 		comment=$OPTARG
 		;;
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	H)
 		host=$OPTARG
@@ -58,10 +58,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 if [ -z "$service" ]
 then	# Host acknowledgement.
 	printf '%s\n' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file:+-c "$config_file"}
 else	# Service acknowledgement.
 	printf '%s\n' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file:+-c "$config_file"}
 fi
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/disable_notifications b/contrib/disable_notifications
index f773843..f2815bb 100755
--- a/contrib/disable_notifications
+++ b/contrib/disable_notifications
@@ -30,7 +30,7 @@ while getopts c:h option
 do
 	case $option in
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	h|\?)
 		usage
@@ -41,6 +41,6 @@ done
 shift `expr $OPTIND - 1`
 test $# -eq 0 || usage
 
-printf '%b' 'DISABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args
+printf '%b' 'DISABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args ${config_file:+-c "$config_file"}
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/downtime b/contrib/downtime
index d49031f..15abd3b 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -41,7 +41,7 @@ do
 		comment=$OPTARG
 		;;
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	e)
 		end=$OPTARG
@@ -74,10 +74,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 if [ -z "$service" ]
 then	# Host check.
 	printf '%s\n' "SCHEDULE_HOST_DOWNTIME;$host;$start;$end;1;0;0;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file:+-c "$config_file"}
 else	# Service check.
 	printf '%s\n' "SCHEDULE_SVC_DOWNTIME;$host;$service;$start;$end;1;0;0;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file:+-c "$config_file"}
 fi
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/enable_notifications b/contrib/enable_notifications
index bb122fe..40d17d6 100755
--- a/contrib/enable_notifications
+++ b/contrib/enable_notifications
@@ -30,7 +30,7 @@ while getopts c:h option
 do
 	case $option in
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	h|\?)
 		usage
@@ -41,6 +41,6 @@ done
 shift `expr $OPTIND - 1`
 test $# -eq 0 || usage
 
-printf '%b' 'ENABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args
+printf '%b' 'ENABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args ${config_file:+-c "$config_file"}
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/invoke_check b/contrib/invoke_check
index 8c26d13..8d23778 100755
--- a/contrib/invoke_check
+++ b/contrib/invoke_check
@@ -33,7 +33,7 @@ while getopts c:H:hS: option
 do
 	case $option in
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	H)
 		host=$OPTARG
@@ -58,6 +58,6 @@ state=$?
 test $state -le 3 || die "$0: '$@' yields invalid plugin return code $state"
 
 printf '%s\t%s\t%s\t%s\n' "$host" "$service" "$state" "$output" \
-    | send_nsca $send_nsca_args
+    | send_nsca $send_nsca_args ${config_file:+-c "$config_file"}
 
 # vim:set joinspaces noexpandtab textwidth=80:
-- 
2.43.0


From 05c67715320b7527a1a3aa4b0c1030abc3c16664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 41/50] fix: Insist on the PSK when connecting to servers

With TLS 1.3 (or a cipher list which includes other key exchange methods),
send_nsca and the language modules accepted servers that presented any
certificate instead of proving that they know the shared secret.
---
 perl/client.c    | 3 +++
 python/client.c  | 3 +++
 src/common/tls.c | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index aa2eb97..39628e4 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -83,6 +83,9 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 
 	SSL_CTX_set_options(c->ssl_ctx, SSL_OP_NO_SSLv2 | SSL_OP_NO_SSLv3);
 
+	/* Servers must use the PSK, so never accept a certificate instead. */
+	SSL_CTX_set_verify(c->ssl_ctx, SSL_VERIFY_PEER, NULL);
+
 	c->bio = BIO_new(BIO_s_connect());
 	if (c->bio == NULL) {
 		c->_errno = NSCANG_ERROR_SSL_BIO_CREATE;
diff --git a/python/client.c b/python/client.c
index e6c84e2..14ab5f8 100644
--- a/python/client.c
+++ b/python/client.c
@@ -96,6 +96,9 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 
 	SSL_CTX_set_options(c->ssl_ctx, SSL_OP_NO_SSLv2 | SSL_OP_NO_SSLv3);
 
+	/* Servers must use the PSK, so never accept a certificate instead. */
+	SSL_CTX_set_verify(c->ssl_ctx, SSL_VERIFY_PEER, NULL);
+
 	c->bio = BIO_new(BIO_s_connect());
 	if (c->bio == NULL) {
 		c->_errno = NSCANG_ERROR_SSL_BIO_CREATE;
diff --git a/src/common/tls.c b/src/common/tls.c
index 2726eb5..d62f3c9 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -269,6 +269,13 @@ tls_connect(tls_client_state *ctx,
 	SSL_set_bio(tls->ssl, tls->bio, tls->bio);
 	SSL_set_psk_client_callback(tls->ssl, set_psk);
 
+	/*
+	 * The server must prove that it knows the shared secret.  Especially
+	 * with TLS 1.3, it could alternatively present a certificate, so make
+	 * sure the handshake fails in this case (we don't trust any CA).
+	 */
+	SSL_set_verify(tls->ssl, SSL_VERIFY_PEER, NULL);
+
 	ev_invoke(EV_DEFAULT_UC_ &tls->init_watcher, EV_CUSTOM);
 }
 
-- 
2.43.0


From 3fcab3a0b7b9adc987038b4a4f2b52934ac0d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 42/50] fix: Try all addresses of a server

If a connection attempt failed while further addresses were left,
SSL_connect() created a new socket, which wasn't watched.  So send_nsca
hung until the timeout (e.g., if "localhost" resolves to ::1 and 127.0.0.1
while the server listens on the latter only).
---
 src/common/tls.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index d62f3c9..7d1c326 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -555,6 +555,7 @@ connect_cb(EV_P_ ev_io *w, int revents)
 
 	tls->last_activity = ev_now(EV_A);
 	result = SSL_connect(tls->ssl);
+	tls->fd = (int)BIO_get_fd(tls->bio, NULL);
 
 	/*
 	 * Initially, connect_cb() is called by ev_invoke() from tls_connect()
@@ -562,7 +563,7 @@ connect_cb(EV_P_ ev_io *w, int revents)
 	 * creates the socket descriptor (`tls->fd') we can watch.
 	 */
 	if (revents & EV_CUSTOM) {
-		if ((tls->fd = (int)BIO_get_fd(tls->bio, NULL)) == -1)
+		if (tls->fd == -1)
 			log_tls_message(die, "Cannot create socket");
 
 		/* We might have been asleep or resolving the host name. */
@@ -572,9 +573,15 @@ connect_cb(EV_P_ ev_io *w, int revents)
 
 	if (result <= 0) {
 		debug("TLS connection not (yet) established");
-		if (revents & EV_CUSTOM) {
+		/*
+		 * If the server name resolves to multiple addresses and the
+		 * connection to one of them fails, SSL_connect() creates a new
+		 * socket for the next one, usually with the same descriptor.
+		 */
+		ev_io_stop(EV_A_ w);
+		if (tls->fd != -1) {
 			ev_io_set(w, tls->fd, EV_WRITE);
-			ev_io_start(EV_A_ &tls->init_watcher);
+			ev_io_start(EV_A_ w);
 		}
 		check_tls_error(EV_A_ w, result);
 	} else {
-- 
2.43.0


From 875da6b4f8ebe2751404fa4f806f127bb9105a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 43/50] fix: Accept IPv6 addresses as the server

As a port is appended, they must be enclosed in brackets.
---
 src/client/send_nsca.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/send_nsca.c b/src/client/send_nsca.c
index af5a51e..860f323 100644
--- a/src/client/send_nsca.c
+++ b/src/client/send_nsca.c
@@ -81,6 +81,7 @@ int
 main(int argc, char **argv)
 {
 	options *opt;
+	const char *server;
 	char *host_port;
 
 	setprogname(argv[0]);
@@ -113,8 +114,9 @@ main(int argc, char **argv)
 	if (conf_getint(cfg, "delay") != 0)
 		delay_execution((unsigned int)conf_getint(cfg, "delay"));
 
-	xasprintf(&host_port, "%s:%s", conf_getstr(cfg, "server"),
-	    conf_getstr(cfg, "port"));
+	server = conf_getstr(cfg, "server");
+	xasprintf(&host_port, strchr(server, ':') != NULL && server[0] != '[' ?
+	    "[%s]:%s" : "%s:%s", server, conf_getstr(cfg, "port"));
 
 	(void)client_start(host_port,
 	    conf_getstr(cfg, "tls_ciphers"),
-- 
2.43.0


From 08620bd81211071c454ebc135b4fbeb19b65ee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 44/50] fix: Append the default port to IPv6 addresses

With "listen = [::1]" the server used an arbitrary port.
---
 src/server/nsca-ng.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 4eca9d0..d6da800 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -82,6 +82,7 @@ static ev_signal sighup_watcher, sigint_watcher, sigterm_watcher;
 
 static options *get_options(int, char **);
 static void free_options(options *);
+static bool has_port(const char *);
 static void close_descriptors(void);
 static void drop_privileges(const char *, const char *);
 static void remove_pidfile(void);
@@ -168,7 +169,7 @@ main(int argc, char **argv)
 		xasprintf(&descriptor, "descriptor=%d", SD_LISTEN_FDS_START);
 		cfg_setstr(cfg, "listen", descriptor);
 		free(descriptor);
-	} else if (strchr(cfg_getstr(cfg, "listen"), ':') == NULL) {
+	} else if (!has_port(cfg_getstr(cfg, "listen"))) {
 		char *host_port;
 
 		xasprintf(&host_port, "%s:%s", cfg_getstr(cfg, "listen"),
@@ -332,6 +333,14 @@ free_options(options *opt)
 	free(opt);
 }
 
+static bool
+has_port(const char *listen)
+{
+	const char *end = listen[0] == '[' ? strchr(listen, ']') : NULL;
+
+	return strchr(end != NULL ? end : listen, ':') != NULL;
+}
+
 static void
 close_descriptors(void)
 {
-- 
2.43.0


From 324964739bc7b13f3aef87969c8b347ed2e26342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 45/50] fix: Print the reason of system errors

With OpenSSL 3, ERR_reason_error_string() returns NULL for system errors,
so (null) was printed instead of, e.g., "Connection refused" or "Address
already in use".
---
 src/common/tls.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 7d1c326..a4d2271 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -991,15 +991,20 @@ log_tls_message(void log(const char *, ...), const char *format, ...)
 {
 	unsigned long e;
 	va_list ap;
+	const char *reason;
 	char *message;
 
 	va_start(ap, format);
 	xvasprintf(&message, format, ap);
 	va_end(ap);
 
-	if ((e = ERR_get_error()) != 0)
-		log("%s: %s", message, ERR_reason_error_string(e));
-	else
+	if ((e = ERR_get_error()) != 0) {
+		/* OpenSSL 3 has no reason strings for system errors. */
+		if ((reason = ERR_reason_error_string(e)) == NULL)
+			reason = ERR_GET_LIB(e) == ERR_LIB_SYS ?
+			    strerror(ERR_GET_REASON(e)) : "Unknown reason";
+		log("%s: %s", message, reason);
+	} else
 		log("%s", message);
 
 	free(message);
-- 
2.43.0


From aaea9dface1556eee0e08aef052f26786786079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 46/50] fix: Print the reason of system errors in the modules

---
 perl/client.c   |  6 +++++-
 python/client.c | 18 ++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 39628e4..cdb7253 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -473,12 +473,16 @@ nscang_client_send_quit(nscang_client_t *c)
 void
 nscang_client_ssl_error(char *buf, int buf_size, const char *msg)
 {
+	unsigned long err = ERR_peek_error();
 	const char *ssl_err;
 
 	strncpy(buf, msg, buf_size);
 	buf_size--;
 
-	ssl_err = ERR_reason_error_string(ERR_peek_error());
+	ssl_err = ERR_reason_error_string(err);
+	/* OpenSSL 3 has no reason strings for system errors. */
+	if (ssl_err == NULL && ERR_GET_LIB(err) == ERR_LIB_SYS)
+		ssl_err = strerror(ERR_GET_REASON(err));
 	if (ssl_err != NULL) {
 		strncat(buf, ":", buf_size);
 		strncat(buf, ssl_err, buf_size);
diff --git a/python/client.c b/python/client.c
index 14ab5f8..c49c53e 100644
--- a/python/client.c
+++ b/python/client.c
@@ -448,6 +448,20 @@ nscang_client_send_quit(nscang_client_t *c)
 	return 1;
 }
 
+static const char *
+nscang_client_ssl_error(unsigned long err)
+{
+	const char *reason;
+
+	if (err == 0)
+		return "Connection closed";
+	/* OpenSSL 3 has no reason strings for system errors. */
+	if ((reason = ERR_reason_error_string(err)) == NULL)
+		reason = ERR_GET_LIB(err) == ERR_LIB_SYS ?
+		    strerror(ERR_GET_REASON(err)) : "Unknown reason";
+	return reason;
+}
+
 char *
 nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 {
@@ -466,8 +480,8 @@ nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 		break;
 	case NSCANG_ERROR_SSL:
 		snprintf(buf, buf_size, "SSL error - %s - %s",
-		    ERR_reason_error_string(ERR_peek_last_error()),
-		    ERR_reason_error_string(ERR_peek_error()));
+		    nscang_client_ssl_error(ERR_peek_last_error()),
+		    nscang_client_ssl_error(ERR_peek_error()));
 		break;
 	case NSCANG_ERROR_MALLOC:
 		strncpy(buf, "Can't allocate memory", buf_size);
-- 
2.43.0


From a4028c914e4422749861dcf147f5cd8f64c77837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 47/50] fix: Support IPv6 addresses in the Perl and Python
 modules

Any host containing two or more colons, such as "2001:db8::1", is
ambiguous to BIO_set_conn_hostname(), the failure of which was ignored,
so the modules connected to localhost instead.
---
 perl/client.c   | 26 +++++++++++++++++++++++++-
 python/client.c | 26 +++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index cdb7253..8f0511a 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -59,6 +59,25 @@ set_psk(SSL *ssl, const char *hint, char *identity,
 	return 0;
 }
 
+/* BIO_set_conn_hostname() expects IPv6 addresses in brackets. */
+static int
+nscang_client_set_host(BIO *bio, const char *host)
+{
+	const char *colon = strchr(host, ':');
+	char *address;
+	int rc;
+
+	if (host[0] == '[' || colon == NULL || strchr(colon + 1, ':') == NULL)
+		return BIO_set_conn_hostname(bio, host) > 0;
+
+	if ((address = malloc(strlen(host) + sizeof("[]"))) == NULL)
+		return 0;
+	sprintf(address, "[%s]", host);
+	rc = BIO_set_conn_hostname(bio, address) > 0;
+	free(address);
+	return rc;
+}
+
 int
 nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
                    char *identity, char *psk)
@@ -91,7 +110,12 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 		c->_errno = NSCANG_ERROR_SSL_BIO_CREATE;
 		return 0;
 	}
-	BIO_set_conn_hostname(c->bio, host);
+	if (!nscang_client_set_host(c->bio, host)) {
+		BIO_free(c->bio);
+		c->bio = NULL;
+		c->_errno = NSCANG_ERROR_SSL_BIO_CREATE;
+		return 0;
+	}
 	BIO_set_conn_port(c->bio, port_str);
 	BIO_set_nbio(c->bio, 1);
 
diff --git a/python/client.c b/python/client.c
index c49c53e..38b0cb5 100644
--- a/python/client.c
+++ b/python/client.c
@@ -71,6 +71,25 @@ set_psk(SSL *ssl, const char *hint, char *identity,
 	return 0;
 }
 
+/* BIO_set_conn_hostname() expects IPv6 addresses in brackets. */
+static int
+nscang_client_set_host(BIO *bio, const char *host)
+{
+	const char *colon = strchr(host, ':');
+	char *address;
+	int rc;
+
+	if (host[0] == '[' || colon == NULL || strchr(colon + 1, ':') == NULL)
+		return BIO_set_conn_hostname(bio, host) > 0;
+
+	if ((address = malloc(strlen(host) + sizeof("[]"))) == NULL)
+		return 0;
+	sprintf(address, "[%s]", host);
+	rc = BIO_set_conn_hostname(bio, address) > 0;
+	free(address);
+	return rc;
+}
+
 int
 nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
                    char *identity, char *psk)
@@ -104,7 +123,12 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 		c->_errno = NSCANG_ERROR_SSL_BIO_CREATE;
 		return 0;
 	}
-	BIO_set_conn_hostname(c->bio, host);
+	if (!nscang_client_set_host(c->bio, host)) {
+		BIO_free(c->bio);
+		c->bio = NULL;
+		c->_errno = NSCANG_ERROR_SSL_BIO_CREATE;
+		return 0;
+	}
 	BIO_set_conn_port(c->bio, port_str);
 	BIO_set_nbio(c->bio, 1);
 
-- 
2.43.0


From a1c8de4e6867e80c73d093946a82084221b606ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 48/50] fix: Remove incomplete temporary files

Nagios isn't told about files which couldn't be written completely, so
they would stay in the temp_directory (/dev/shm by default) forever.
---
 src/server/fifo.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index de8f1aa..624f988 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -107,6 +107,7 @@ static void dispatch_data(fifo_state *);
 static char *make_process_file_command(fifo_state *);
 static bool open_dump_file(fifo_state *);
 static bool close_dump_file(fifo_state *);
+static void remove_dump_file(fifo_state *);
 static bool buffers_are_empty(fifo_state *);
 static bool buffers_exceed_pipe_size(fifo_state *);
 static void join_buffers(fifo_state *);
@@ -366,7 +367,7 @@ async_dump_data(fifo_state *fifo)
 	if (aio_write(&fifo->async_cb) == -1) {
 		error("Cannot queue asynchrous write request: %m");
 		ev_async_stop(EV_DEFAULT_UC_ &fifo->async_watcher);
-		(void)close_dump_file(fifo);
+		remove_dump_file(fifo);
 		free_output(fifo);
 		return;
 	}
@@ -405,12 +406,12 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 	if ((result = aio_error(&fifo->async_cb)) != 0) {
 		error("Cannot write to %s: %s", fifo->dump_file,
 		    strerror(result));
-		(void)close_dump_file(fifo);
+		remove_dump_file(fifo);
 	} else if ((n = aio_return(&fifo->async_cb))
 	    != (ssize_t)fifo->async_cb.aio_nbytes) { /* Presumably an error. */
 		error("Wrote %zd instead of %zu bytes to %s", n,
 		    fifo->async_cb.aio_nbytes, fifo->dump_file);
-		(void)close_dump_file(fifo);
+		remove_dump_file(fifo);
 	} else {
 		char *command = make_process_file_command(fifo);
 
@@ -467,7 +468,7 @@ sync_dump_data(fifo_state *fifo)
 		while (n == -1 && errno == EINTR);
 		if (n == -1) {
 			error("Cannot write to %s: %m", fifo->dump_file);
-			(void)close_dump_file(fifo);
+			remove_dump_file(fifo);
 			free_output(fifo);
 			return;
 		}
@@ -557,14 +558,25 @@ close_dump_file(fifo_state *fifo)
 	do
 		result = close(fifo->dump_fd);
 	while (result == -1 && errno == EINTR);
-	if (result == -1)
+	if (result == -1) {
 		error("Cannot close %s: %m", fifo->dump_file);
-
+		(void)unlink(fifo->dump_file);
+	}
 	free(fifo->dump_file);
 	fifo->dump_file = NULL;
 	return (bool)(result == 0);
 }
 
+/*
+ * Nagios won't be told about this file, so nobody else would remove it.
+ */
+static void
+remove_dump_file(fifo_state *fifo)
+{
+	(void)unlink(fifo->dump_file);
+	(void)close_dump_file(fifo);
+}
+
 static bool
 buffers_are_empty(fifo_state *fifo)
 {
-- 
2.43.0


From 8506d2146fedb0a63d8df64f52583fa233121595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 49/50] fix: Don't spin while out of file descriptors

---
 src/common/tls.c | 31 +++++++++++++++++++++++++++++++
 src/common/tls.h |  1 +
 2 files changed, 32 insertions(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index a4d2271..2cc384c 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -122,6 +122,7 @@
 # define INET6_ADDRSTRLEN 46
 #endif
 
+#define ACCEPT_RETRY_INTERVAL 1.0 /* If we're out of file descriptors. */
 #define LINE_MAX_SIZE 2048
 #define LINE_BUFFER_SIZE 128
 #define LINE_TERMINATOR "\r\n"
@@ -144,6 +145,7 @@ static tls_state *tls_new(int, int);
 static void tls_free(tls_state *);
 static void connect_cb(EV_P_ ev_io *, int);
 static void accept_tcp_cb(EV_P_ ev_io *, int);
+static void accept_timer_cb(EV_P_ ev_timer *, int);
 static void accept_ssl_cb(EV_P_ ev_io *, int);
 static void read_cb(EV_P_ ev_io *, int);
 static void write_cb(EV_P_ ev_io *, int);
@@ -231,6 +233,10 @@ tls_server_start(const char * restrict host_port,
 	    (int)BIO_get_fd(ctx->bio, NULL), EV_READ);
 	ev_io_start(EV_DEFAULT_UC_ &ctx->accept_watcher);
 
+	ctx->accept_timer.data = ctx;
+	ev_timer_init(&ctx->accept_timer, accept_timer_cb,
+	    ACCEPT_RETRY_INTERVAL, 0.0);
+
 	return ctx;
 }
 
@@ -365,6 +371,8 @@ tls_server_stop(tls_server_state *ctx)
 {
 	debug("Stopping TLS server");
 
+	ev_timer_stop(EV_DEFAULT_UC_ &ctx->accept_timer);
+
 	SSL_CTX_free(ctx->ssl);
 	BIO_free_all(ctx->bio);
 	free(ctx);
@@ -600,12 +608,27 @@ accept_tcp_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	while (1) { /* Accept all available TCP connections. */
 		tls_state *tls;
 
+		errno = 0;
 		if (BIO_do_accept(ctx->bio) <= 0) {
+			int reason = errno;
+
 			if (BIO_should_retry(ctx->bio))
 				debug("Cannot accept connection right now");
 			else
 				log_tls_message(warning,
 				    "Cannot accept connection");
+
+			/*
+			 * If we're out of resources, the connection remains in
+			 * the queue.  We'd be called again immediately.
+			 */
+			if (reason == EMFILE || reason == ENFILE
+			    || reason == ENOBUFS || reason == ENOMEM) {
+				ev_io_stop(EV_A_ w);
+				ev_timer_set(&ctx->accept_timer,
+				    ACCEPT_RETRY_INTERVAL, 0.0);
+				ev_timer_start(EV_A_ &ctx->accept_timer);
+			}
 			return; /* Let's do something else. */
 		}
 
@@ -640,6 +663,14 @@ accept_tcp_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	}
 }
 
+static void
+accept_timer_cb(EV_P_ ev_timer *w, int revents __attribute__((__unused__)))
+{
+	tls_server_state *ctx = w->data;
+
+	ev_io_start(EV_A_ &ctx->accept_watcher);
+}
+
 static void
 accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 {
diff --git a/src/common/tls.h b/src/common/tls.h
index b111f79..705a54c 100644
--- a/src/common/tls.h
+++ b/src/common/tls.h
@@ -111,6 +111,7 @@ typedef struct {
 /* private: */
 	void (*connect_handler)(tls_state *);
 	ev_io accept_watcher;
+	ev_timer accept_timer;
 	SSL_CTX *ssl;
 	BIO *bio;
 	ev_tstamp timeout;
-- 
2.43.0


From 40492798b2342f13e64e24610b50c5ba916cee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:23 +0000
Subject: [PATCH 50/50] fix: Don't stop while data is being spooled

If the server was stopped or restarted before an asynchronous write
request completed, the request and the signal handler accessed memory
which had been freed, and the incomplete temporary file was left behind.
---
 src/server/fifo.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index 624f988..2a6b38b 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -202,8 +202,19 @@ fifo_stop(fifo_state *fifo)
 	debug("Stopping command file writer");
 
 #if HAVE_POSIX_AIO
-	if (ev_is_active(&fifo->async_watcher))
+	if (ev_is_active(&fifo->async_watcher)) {
+		const struct aiocb *requests[1];
+
+		/* The pending request and the signal handler use our memory. */
+		requests[0] = &fifo->async_cb;
+		while (aio_error(&fifo->async_cb) == EINPROGRESS)
+			(void)aio_suspend(requests, 1, NULL);
+		(void)signal(SIG_AIO, SIG_IGN);
+
 		ev_async_stop(EV_DEFAULT_UC_ &fifo->async_watcher);
+		fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
+		remove_dump_file(fifo);
+	}
 #else
 	if (ev_is_active(&fifo->idle_watcher))
 		ev_idle_stop(EV_DEFAULT_UC_ &fifo->idle_watcher);
-- 
2.43.0

