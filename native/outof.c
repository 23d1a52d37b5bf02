/*
 * While the file $VF_OUTOF contains a number, no connection can be accepted:
 * that's the errno of every attempt, as if the system had run out of something.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

static int
out(void)
{
	const char *path = getenv("VF_OUTOF");
	char s[16] = "";
	int fd, e = errno;

	if (path == NULL || (fd = open(path, O_RDONLY | O_CLOEXEC)) == -1) {
		errno = e;
		return 0;
	}
	if (read(fd, s, sizeof(s) - 1) < 0)
		s[0] = '\0';
	close(fd);
	errno = e;
	return atoi(s);
}

static int
acc(int fd, struct sockaddr *restrict a, socklen_t *restrict l, int flags)
{
	int e = out();

	if (e != 0) {
		errno = e;
		return -1;
	}
	return (int)syscall(SYS_accept4, fd, a, l, flags);
}

int accept(int fd, struct sockaddr *restrict a, socklen_t *restrict l) { return acc(fd, a, l, 0); }
int accept4(int fd, struct sockaddr *restrict a, socklen_t *restrict l, int fl) { return acc(fd, a, l, fl); }
