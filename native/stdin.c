/*
 * Reading standard input fails as planned in $VF_STDIN ("call:errno,...").
 * Lasting errors are noted by creating $VF_STDIN_FAILED.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

ssize_t
read(int fd, void *buf, size_t size)
{
	static int calls = 0, lasting = 0;
	const char *p;

	if (fd == 0 && (p = getenv("VF_STDIN")) != NULL) {
		calls++;
		for (; lasting == 0 && *p != '\0'; p += *p == ',') {
			char *end;
			int call = (int)strtol(p, &end, 10), e = (int)strtol(end + 1, &end, 10);

			p = end;
			if (call != calls)
				continue;
			if (e == EINTR || e == EAGAIN) {
				errno = e;
				return -1;
			}
			lasting = e;
		}
		if (lasting != 0) {
			const char *path = getenv("VF_STDIN_FAILED");

			if (path != NULL)
				(void)close(open(path, O_WRONLY | O_CREAT | O_CLOEXEC, 0600));
			errno = lasting;
			return -1;
		}
	}
	return syscall(SYS_read, fd, buf, size);
}
