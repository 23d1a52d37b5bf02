/*
 * LD_PRELOAD shim: records every write(2)/writev(2)/pwrite(2) that goes to the
 * command file (identified by VF_FIFO), and for each PROCESS_FILE command in
 * it the state of the file named there at that very moment.  One text line per
 * record in VF_LOG:
 *   W <requested> <returned> <errno> <hex of data>
 *   P <path> <exists> <size> <mode octal> <uid>
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int is_target(int fd)
{
	struct stat a, b;
	const char *p = getenv("VF_FIFO");
	if (!p || fd < 3 || fstat(fd, &a) || stat(p, &b))
		return 0;
	return a.st_dev == b.st_dev && a.st_ino == b.st_ino;
}

static void emit(const char *s, size_t n)
{
	const char *p = getenv("VF_LOG");
	int fd;
	if (!p || (fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0666)) == -1)
		return;
	(void)!syscall(SYS_write, fd, s, n);
	close(fd);
}

static void look(const char *b, size_t n)
{
	char *copy = malloc(n + 1), *q, line[4096];
	memcpy(copy, b, n);
	copy[n] = 0;
	for (q = copy; (q = strstr(q, "PROCESS_FILE;")) != NULL;) {
		char *e;
		struct stat st;
		int ok;
		q += 13;
		if ((e = strchr(q, ';')) == NULL)
			break;
		*e = 0;
		ok = stat(q, &st) == 0;
		snprintf(line, sizeof(line), "P %s %d %lld %o %u\n", q, ok, ok ? (long long)st.st_size : -1LL,
		    ok ? (unsigned)(st.st_mode & 07777) : 0, ok ? (unsigned)st.st_uid : 0);
		emit(line, strlen(line));
		q = e + 1;
	}
	free(copy);
}

static void note(const void *buf, size_t n, ssize_t r, int err)
{
	static const char hex[] = "0123456789abcdef";
	char *s = malloc(2 * n + 80);
	int k = sprintf(s, "W %zu %zd %d ", n, r, r < 0 ? err : 0);
	size_t i;
	for (i = 0; i < n; i++) {
		s[k++] = hex[((const unsigned char *)buf)[i] >> 4];
		s[k++] = hex[((const unsigned char *)buf)[i] & 15];
	}
	s[k++] = '\n';
	emit(s, (size_t)k);
	free(s);
}

ssize_t write(int fd, const void *b, size_t n)
{
	int t = is_target(fd), e;
	ssize_t r;
	if (t)
		look(b, n);
	r = syscall(SYS_write, fd, b, n);
	e = errno;
	if (t)
		note(b, n, r, e);
	errno = e;
	return r;
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
	size_t n = 0, o = 0;
	int i;
	char *b;
	ssize_t r;
	if (!is_target(fd))
		return syscall(SYS_writev, fd, v, c);
	for (i = 0; i < c; i++)
		n += v[i].iov_len;
	b = malloc(n + 1);
	for (i = 0; i < c; i++) {
		memcpy(b + o, v[i].iov_base, v[i].iov_len);
		o += v[i].iov_len;
	}
	r = write(fd, b, n);
	i = errno;
	free(b);
	errno = i;
	return r;
}
