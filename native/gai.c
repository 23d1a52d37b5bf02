/* Name resolution under control: GAI="name=addr,addr name=addr" makes
 * getaddrinfo(3) resolve these names to the given addresses, in this order. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <netdb.h>
#include <stdlib.h>
#include <string.h>

int
getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
	int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **) = dlsym(RTLD_NEXT, "getaddrinfo");
	const char *env = getenv("GAI");
	struct addrinfo **tail = res, h;
	char *copy, *entry, *addr, *s1, *s2;
	int rc = EAI_NONAME, found = 0;

	if (node == NULL || env == NULL || (copy = strdup(env)) == NULL)
		return real(node, service, hints, res);
	*res = NULL;
	for (entry = strtok_r(copy, " ", &s1); entry != NULL; entry = strtok_r(NULL, " ", &s1)) {
		addr = strchr(entry, '=');
		if (addr == NULL)
			continue;
		*addr++ = '\0';
		if (strcasecmp(entry, node) != 0)
			continue;
		found = 1;
		for (addr = strtok_r(addr, ",", &s2); addr != NULL; addr = strtok_r(NULL, ",", &s2)) {
			if (hints != NULL)
				h = *hints;
			else
				memset(&h, 0, sizeof(h));
			h.ai_flags |= AI_NUMERICHOST;
			h.ai_flags &= ~AI_ADDRCONFIG;
			if ((h.ai_family == AF_INET6 && strchr(addr, ':') == NULL) || (h.ai_family == AF_INET && strchr(addr, ':') != NULL))
				continue;
			if ((rc = real(addr, service, &h, tail)) != 0)
				break;
			while (*tail != NULL)
				tail = &(*tail)->ai_next;
		}
	}
	free(copy);
	return found ? rc : real(node, service, hints, res);
}
