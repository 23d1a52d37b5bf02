/*
 * LD_PRELOAD shim: lets the clock of a process run WARP times faster than real
 * time, so that fixed long intervals (such as the 10 s after which the command
 * file is reopened) can be explored.  time(2) is left alone.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <poll.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static double factor = 1.0;
static int ready;
static struct timespec base_mono, base_real;

static int raw(clockid_t id, struct timespec *ts) { return (int)syscall(SYS_clock_gettime, id, ts); }

static void init(void)
{
	const char *s = getenv("WARP");
	if (ready)
		return;
	raw(CLOCK_MONOTONIC, &base_mono);
	raw(CLOCK_REALTIME, &base_real);
	if (s && atof(s) > 0)
		factor = atof(s);
	ready = 1;
}

static void warp(struct timespec *ts, const struct timespec *b)
{
	double d = (double)(ts->tv_sec - b->tv_sec) + (double)(ts->tv_nsec - b->tv_nsec) / 1e9;
	double s;
	long ns;
	d *= factor;
	s = (double)(long)d;
	ns = b->tv_nsec + (long)((d - s) * 1e9);
	ts->tv_sec = b->tv_sec + (long)s;
	while (ns >= 1000000000L) {
		ns -= 1000000000L;
		ts->tv_sec++;
	}
	while (ns < 0) {
		ns += 1000000000L;
		ts->tv_sec--;
	}
	ts->tv_nsec = ns;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
	int r;
	init();
	r = raw(id, ts);
	if (r == 0 && id == CLOCK_MONOTONIC)
		warp(ts, &base_mono);
	else if (r == 0 && id == CLOCK_REALTIME)
		warp(ts, &base_real);
	return r;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	struct timespec ts;
	(void)tz;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}

static int ms(int t)
{
	init();
	return t <= 0 ? t : (int)(t / factor) + 1;
}

int epoll_wait(int fd, struct epoll_event *ev, int n, int t)
{
	static int (*f)(int, struct epoll_event *, int, int);
	if (!f)
		f = dlsym(RTLD_NEXT, "epoll_wait");
	return f(fd, ev, n, ms(t));
}

int epoll_pwait(int fd, struct epoll_event *ev, int n, int t, const sigset_t *s)
{
	static int (*f)(int, struct epoll_event *, int, int, const sigset_t *);
	if (!f)
		f = dlsym(RTLD_NEXT, "epoll_pwait");
	return f(fd, ev, n, ms(t), s);
}

int poll(struct pollfd *p, nfds_t n, int t)
{
	static int (*f)(struct pollfd *, nfds_t, int);
	if (!f)
		f = dlsym(RTLD_NEXT, "poll");
	return f(p, n, ms(t));
}

int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	static int (*f)(int, fd_set *, fd_set *, fd_set *, struct timeval *);
	struct timeval t2;
	if (!f)
		f = dlsym(RTLD_NEXT, "select");
	init();
	if (tv) {
		double d = ((double)tv->tv_sec + (double)tv->tv_usec / 1e6) / factor;
		t2.tv_sec = (long)d;
		t2.tv_usec = (long)((d - (double)t2.tv_sec) * 1e6);
	}
	return f(n, r, w, e, tv ? &t2 : NULL);
}
