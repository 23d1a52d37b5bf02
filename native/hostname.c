/*
 * The machine's name is $VF_HOSTNAME, the way glibc reports it.
 */
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/utsname.h>
#include <unistd.h>

static const char *
name(void)
{
	const char *s = getenv("VF_HOSTNAME");

	return s != NULL ? s : "localhost";
}

int
gethostname(char *buf, size_t size)
{
	size_t n = strlen(name()) + 1;

	memcpy(buf, name(), n < size ? n : size);
	if (n > size) {
		errno = ENAMETOOLONG;
		return -1;
	}
	return 0;
}

int
__gethostname_chk(char *buf, size_t size, size_t room)
{
	if (size > room)
		abort();
	return gethostname(buf, size);
}

int
uname(struct utsname *u)
{
	memset(u, 0, sizeof(*u));
	strcpy(u->sysname, "Linux");
	strncpy(u->nodename, name(), sizeof(u->nodename) - 1);
	strcpy(u->release, "6.0.0");
	strcpy(u->version, "#1");
	strcpy(u->machine, "x86_64");
	return 0;
}
