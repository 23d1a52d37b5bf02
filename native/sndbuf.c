/* LD_PRELOAD shim: gives TCP sockets a small send buffer (SNDBUF bytes). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/socket.h>

int socket(int domain, int type, int proto)
{
	static int (*real)(int, int, int);
	const char *s = getenv("SNDBUF");
	int fd;
	if (!real)
		real = (int (*)(int, int, int))dlsym(RTLD_NEXT, "socket");
	fd = real(domain, type, proto);
	if (fd >= 0 && s && (domain == AF_INET || domain == AF_INET6)) {
		int n = atoi(s);
		setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof(n));
	}
	return fd;
}
