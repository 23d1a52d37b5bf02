/*
 * Nobody sleeps: the durations (in nanoseconds) are appended to $VF_NAPS.
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static void
nap(long long sec, long long nsec)
{
	const char *path = getenv("VF_NAPS");
	char line[64];
	int fd;

	if (path == NULL || (fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0600)) == -1)
		return;
	snprintf(line, sizeof(line), "%lld\n", sec * 1000000000LL + nsec);
	if (write(fd, line, strlen(line)) == -1)
		abort();
	close(fd);
}

int
nanosleep(const struct timespec *t, struct timespec *rest)
{
	nap(t->tv_sec, t->tv_nsec);
	if (rest != NULL)
		rest->tv_sec = rest->tv_nsec = 0;
	return 0;
}

int
clock_nanosleep(clockid_t clock, int flags, const struct timespec *t, struct timespec *rest)
{
	struct timespec now = {0, 0};

	if (flags & TIMER_ABSTIME)
		clock_gettime(clock, &now);
	else if (rest != NULL)
		rest->tv_sec = rest->tv_nsec = 0;
	nap(t->tv_sec - now.tv_sec, t->tv_nsec - now.tv_nsec);
	return 0;
}

unsigned int
sleep(unsigned int sec)
{
	nap(sec, 0);
	return 0;
}

int
usleep(useconds_t usec)
{
	nap(0, usec * 1000LL);
	return 0;
}
