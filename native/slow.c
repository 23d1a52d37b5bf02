/*
 * Makes listen(2) take its time (SLOW_MS), and keeps the process from opening
 * the PID file quickly.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <unistd.h>

static void
nap(void)
{
	const char *s = getenv("SLOW_MS");

	if (s != NULL)
		usleep((useconds_t)atoi(s) * 1000);
}

int
listen(int fd, int backlog)
{
	int (*real)(int, int) = (int (*)(int, int))dlsym(RTLD_NEXT, "listen");

	nap();
	return real(fd, backlog);
}

int
flock(int fd, int op)
{
	int (*real)(int, int) = (int (*)(int, int))dlsym(RTLD_NEXT, "flock");

	nap();
	return real(fd, op);
}
