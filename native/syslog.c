/*
 * Writes what is handed to syslog(3) into the file $SYSLOG_FILE: a line with
 * priority and length, the message, and a newline.
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <syslog.h>
#include <unistd.h>

static void
record(int pri, const char *fmt, va_list ap)
{
	static char text[1 << 16], out[(1 << 16) + 64];
	const char *path = getenv("SYSLOG_FILE");
	int fd, n, len = vsnprintf(text, sizeof(text), fmt, ap);

	if (path == NULL || len < 0)
		return;
	if (len >= (int)sizeof(text))
		len = sizeof(text) - 1;
	n = sprintf(out, "%d %d\n", pri, len);
	memcpy(out + n, text, (size_t)len);
	out[n + len] = '\n';
	if ((fd = open(path, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666)) != -1) {
		(void)!write(fd, out, (size_t)(n + len + 1));
		close(fd);
	}
}

void
openlog(const char *ident, int option, int facility)
{
	(void)ident, (void)option, (void)facility;
}

void
closelog(void)
{
}

void
syslog(int pri, const char *fmt, ...)
{
	va_list ap;

	va_start(ap, fmt);
	record(pri, fmt, ap);
	va_end(ap);
}

void
vsyslog(int pri, const char *fmt, va_list ap)
{
	record(pri, fmt, ap);
}

void
__syslog_chk(int pri, int flag, const char *fmt, ...)
{
	va_list ap;

	(void)flag;
	va_start(ap, fmt);
	record(pri, fmt, ap);
	va_end(ap);
}

void
__vsyslog_chk(int pri, int flag, const char *fmt, va_list ap)
{
	(void)flag;
	record(pri, fmt, ap);
}
