/*
 * Calls which change the identity or the root directory fail as $VF_IDFAIL
 * ("user", "group", "groups", "chroot", "chdir"; then ":errno") says, and set the first byte of the file $VF_IDLOG.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <unistd.h>

static char *mark;

__attribute__((constructor)) static void
init(void)
{
	const char *log = getenv("VF_IDLOG");
	int fd;

	if (log == NULL || (fd = open(log, O_RDWR)) == -1)
		return;
	mark = mmap(NULL, 1, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	if (mark == MAP_FAILED)
		abort();
}

static int
due(const char *what)
{
	const char *plan = getenv("VF_IDFAIL");
	size_t n = strlen(what);

	if (plan == NULL || strncmp(plan, what, n) != 0 || plan[n] != ':')
		return 0;
	if (mark != NULL)
		*mark = 'x';
	errno = atoi(plan + n + 1);
	return 1;
}

#define WRAP(kind, name, params, args) \
int name params \
{ \
	static int (*f) params; \
	if (due(kind)) \
		return -1; \
	if (f == NULL) \
		f = (int (*) params)dlsym(RTLD_NEXT, #name); \
	return f args; \
}

WRAP("user", setuid, (uid_t a), (a))
WRAP("user", seteuid, (uid_t a), (a))
WRAP("user", setreuid, (uid_t a, uid_t b), (a, b))
WRAP("user", setresuid, (uid_t a, uid_t b, uid_t c), (a, b, c))
WRAP("group", setgid, (gid_t a), (a))
WRAP("group", setegid, (gid_t a), (a))
WRAP("group", setregid, (gid_t a, gid_t b), (a, b))
WRAP("group", setresgid, (gid_t a, gid_t b, gid_t c), (a, b, c))
WRAP("groups", setgroups, (size_t n, const gid_t *g), (n, g))
WRAP("groups", initgroups, (const char *u, gid_t g), (u, g))
WRAP("chroot", chroot, (const char *p), (p))
WRAP("chdir", chdir, (const char *p), (p))
