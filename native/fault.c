/*
 * LD_PRELOAD shim: fault injection by call number.  VF_PLAN is a list such as
 *   mkstemp@2=28;spool_write@1=short;fifo_open@3=13
 * (the second mkstemp fails with ENOSPC, ...).  Each injected fault is logged
 * to VF_FLOG as "<class> <call number> <what> <path or ->".
 * Classes: mkstemp, spool_write, spool_close, aio_write, aio_error, aio_return,
 * fifo_open, fifo_fstat, fifo_write, accept, getpeername.
 */
#define _GNU_SOURCE
#include <aio.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

enum { MKSTEMP, SPOOL_WRITE, SPOOL_CLOSE, AIO_WRITE, AIO_ERROR, AIO_RETURN, FIFO_OPEN, FIFO_FSTAT, FIFO_WRITE,
       ACCEPT, GETPEERNAME, N };
static const char *names[N] = { "mkstemp", "spool_write", "spool_close", "aio_write", "aio_error", "aio_return",
	"fifo_open", "fifo_fstat", "fifo_write", "accept", "getpeername" };
static int count[N];

static void path_of(int fd, char *buf, size_t n)
{
	char l[64];
	ssize_t k;
	snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
	k = readlink(l, buf, n - 1);
	buf[k > 0 ? k : 0] = 0;
}

static int is_spool(int fd, char *path, size_t n)
{
	const char *d = getenv("VF_SPOOL");
	if (!d || fd < 3)
		return 0;
	path_of(fd, path, n);
	return strncmp(path, d, strlen(d)) == 0 && path[strlen(d)] == '/';
}

static int is_fifo(int fd)
{
	struct stat st;
	return fd > 2 && syscall(SYS_fstat, fd, &st) == 0 && S_ISFIFO(st.st_mode) && ({
		char p[4096];
		const char *f = getenv("VF_FIFO");
		path_of(fd, p, sizeof(p));
		f && strcmp(p, f) == 0; });
}

/* NULL, or the planned fault of this call. */
static const char *due(int cls, const char *path)
{
	static char what[32];
	const char *p = getenv("VF_PLAN"), *q, *log = getenv("VF_FLOG");
	char key[64];
	int n = ++count[cls], fd;
	size_t k;
	if (!p)
		return NULL;
	snprintf(key, sizeof(key), "%s@%d=", names[cls], n);
	k = strlen(key);
	for (q = p; q; q = strchr(q, ';') ? strchr(q, ';') + 1 : NULL)
		if (strncmp(q, key, k) == 0) {
			size_t m = strcspn(q + k, ";");
			if (m >= sizeof(what))
				m = sizeof(what) - 1;
			memcpy(what, q + k, m);
			what[m] = 0;
			if (log && (fd = (int)syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND, 0666)) != -1) {
				char line[4300];
				int l = snprintf(line, sizeof(line), "%s %d %s %s\n", names[cls], n, what,
				    path && *path ? path : "-");
				(void)!syscall(SYS_write, fd, line, (size_t)l);
				syscall(SYS_close, fd);
			}
			return what;
		}
	return NULL;
}

int mkstemp(char *t)
{
	static int (*f)(char *);
	const char *w;
	if (!f)
		f = dlsym(RTLD_NEXT, "mkstemp");
	if ((w = due(MKSTEMP, NULL)) != NULL) {
		errno = atoi(w);
		return -1;
	}
	return f(t);
}

static int do_open(const char *p, int fl, int mode)
{
	const char *f = getenv("VF_FIFO"), *w;
	if (f && strcmp(p, f) == 0 && (w = due(FIFO_OPEN, p)) != NULL) {
		errno = atoi(w);
		return -1;
	}
	return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}

int open(const char *p, int fl, ...)
{
	int mode = 0;
	if (fl & O_CREAT) {
		va_list ap;
		va_start(ap, fl);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	return do_open(p, fl, mode);
}
int open64(const char *p, int fl, ...)
{
	int mode = 0;
	if (fl & O_CREAT) {
		va_list ap;
		va_start(ap, fl);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	return do_open(p, fl, mode);
}

int close(int fd)
{
	char p[4096];
	const char *w;
	if (is_spool(fd, p, sizeof(p)) && (w = due(SPOOL_CLOSE, p)) != NULL) {
		if (atoi(w) != EINTR)
			syscall(SYS_close, fd);
		errno = atoi(w);
		return -1;
	}
	return (int)syscall(SYS_close, fd);
}

int fstat(int fd, struct stat *st)
{
	const char *w;
	if (is_fifo(fd) && (w = due(FIFO_FSTAT, NULL)) != NULL) {
		errno = atoi(w);
		return -1;
	}
	return (int)syscall(SYS_fstat, fd, st);
}

ssize_t write(int fd, const void *b, size_t n)
{
	char p[4096];
	const char *w;
	if (fd > 2) {
		if (is_fifo(fd)) {
			if ((w = due(FIFO_WRITE, NULL)) != NULL) {
				errno = atoi(w);
				return -1;
			}
		} else if (is_spool(fd, p, sizeof(p)) && (w = due(SPOOL_WRITE, p)) != NULL) {
			if (strcmp(w, "short") == 0)
				return syscall(SYS_write, fd, b, n > 1 ? n / 2 : n);
			if (atoi(w) == ENOSPC && n > 1)
				(void)!syscall(SYS_write, fd, b, n / 2);
			errno = atoi(w);
			return -1;
		}
	}
	return syscall(SYS_write, fd, b, n);
}

int aio_write(struct aiocb *cb)
{
	static int (*f)(struct aiocb *);
	char p[4096];
	const char *w;
	if (!f)
		f = dlsym(RTLD_NEXT, "aio_write");
	path_of(cb->aio_fildes, p, sizeof(p));
	if ((w = due(AIO_WRITE, p)) != NULL) {
		errno = atoi(w);
		return -1;
	}
	return f(cb);
}

int aio_error(const struct aiocb *cb)
{
	static int (*f)(const struct aiocb *);
	char p[4096];
	const char *w;
	if (!f)
		f = dlsym(RTLD_NEXT, "aio_error");
	path_of(cb->aio_fildes, p, sizeof(p));
	if ((w = due(AIO_ERROR, p)) != NULL) {
		(void)!ftruncate(cb->aio_fildes, (off_t)(cb->aio_nbytes / 2));
		return atoi(w);
	}
	return f(cb);
}

ssize_t aio_return(struct aiocb *cb)
{
	static ssize_t (*f)(struct aiocb *);
	char p[4096];
	const char *w;
	ssize_t r;
	if (!f)
		f = dlsym(RTLD_NEXT, "aio_return");
	path_of(cb->aio_fildes, p, sizeof(p));
	w = due(AIO_RETURN, p);
	r = f(cb);
	if (w && r > 1) {
		(void)!ftruncate(cb->aio_fildes, (off_t)(r / 2));
		return r / 2;
	}
	return r;
}

static int acc(int fd, struct sockaddr *a, socklen_t *l, int flags)
{
	const char *w;
	struct sockaddr_storage s;
	socklen_t sl = sizeof(s);
	if (syscall(SYS_getsockname, fd, &s, &sl) == 0 && (s.ss_family == AF_INET || s.ss_family == AF_INET6)
	    && (w = due(ACCEPT, NULL)) != NULL) {
		errno = atoi(w);
		return -1;
	}
	return (int)syscall(SYS_accept4, fd, a, l, flags);
}
int accept(int fd, struct sockaddr *restrict a, socklen_t *restrict l) { return acc(fd, a, l, 0); }
int accept4(int fd, struct sockaddr *restrict a, socklen_t *restrict l, int fl) { return acc(fd, a, l, fl); }

int getpeername(int fd, struct sockaddr *restrict a, socklen_t *restrict l)
{
	const char *w;
	if (fd > 2 && (w = due(GETPEERNAME, NULL)) != NULL) {
		errno = atoi(w);
		return -1;
	}
	return (int)syscall(SYS_getpeername, fd, a, l);
}
