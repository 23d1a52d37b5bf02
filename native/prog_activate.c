/*
 * activate FD[,FD...] PID CMD ARGS...: hand listening sockets to a command the
 * way systemd does.  PID is "self", or what LISTEN_PID is to be set to.
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int
main(int argc, char **argv)
{
	int fds[16], n = 0, i;
	char *t, buf[32];

	if (argc < 4)
		return 125;
	for (t = strtok(argv[1], ","); t != NULL && n < 16; t = strtok(NULL, ","))
		fds[n++] = fcntl(atoi(t), F_DUPFD, 100);
	for (i = 0; i < n; i++) {
		if (dup2(fds[i], 3 + i) == -1)
			return 125;
		close(fds[i]);
	}
	closefrom(3 + n);
	snprintf(buf, sizeof(buf), "%d", (int)getpid());
	setenv("LISTEN_PID", strcmp(argv[2], "self") == 0 ? buf : argv[2], 1);
	snprintf(buf, sizeof(buf), "%d", n);
	setenv("LISTEN_FDS", buf, 1);
	execvp(argv[3], argv + 3);
	return 125;
}
