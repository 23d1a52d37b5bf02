/*
 * Asynchronous writes begin $VF_AIOMS milliseconds late.  If the process exits
 * earlier, the exit takes long enough for them to complete.
 */
#define _GNU_SOURCE
#include <aio.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <time.h>

static int (*real)(struct aiocb *);
static volatile int pending;

__attribute__((destructor))
static void
wait_for_them(void)
{
	struct timespec t = { 0, 10 * 1000000L };
	int late = 0, i;

	/* (A signal shortens a nap, so there are enough of them.) */
	for (i = 0; i < 100 && __atomic_load_n(&pending, __ATOMIC_SEQ_CST) > 0; i++, late = 1)
		nanosleep(&t, NULL);
	for (i = 0; late && i < 4; i++)
		nanosleep(&t, NULL);
}

static void *
later(void *cb)
{
	const char *s = getenv("VF_AIOMS");
	long ms = s != NULL ? atol(s) : 0;
	struct timespec t = { ms / 1000, ms % 1000 * 1000000L };

	nanosleep(&t, NULL);
	(void)real(cb);
	__atomic_sub_fetch(&pending, 1, __ATOMIC_SEQ_CST);
	return NULL;
}

int
aio_write(struct aiocb *cb)
{
	sigset_t all, old;
	pthread_t thread;
	int r;

	if (real == NULL)
		real = (int (*)(struct aiocb *))dlsym(RTLD_NEXT, "aio_write");
	cb->__error_code = EINPROGRESS;
	sigfillset(&all);
	pthread_sigmask(SIG_SETMASK, &all, &old);
	__atomic_add_fetch(&pending, 1, __ATOMIC_SEQ_CST);
	r = pthread_create(&thread, NULL, later, cb);
	pthread_sigmask(SIG_SETMASK, &old, NULL);
	if (r != 0) {
		__atomic_sub_fetch(&pending, 1, __ATOMIC_SEQ_CST);
		errno = EAGAIN;
		return -1;
	}
	pthread_detach(thread);
	return 0;
}
