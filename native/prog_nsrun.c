/*
 * nsrun [-e DIR] [-g GID,...] CMD ARGS...: run a command as root of a user
 * namespace of its own, in which chroot(2) is permitted and all user IDs are
 * mapped to themselves.  With -e, DIR/passwd and DIR/group take the place of
 * the files in /etc (in a mount namespace of its own); -g sets the groups.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <grp.h>
#include <sys/mount.h>
#include <sys/wait.h>
#include <unistd.h>

static int
map(pid_t pid, const char *what)
{
	char path[64];
	const char text[] = "0 0 65536\n";
	int fd;

	snprintf(path, sizeof(path), "/proc/%d/%s", (int)pid, what);
	if ((fd = open(path, O_WRONLY)) == -1)
		return -1;
	if (write(fd, text, sizeof(text) - 1) != sizeof(text) - 1)
		return -1;
	return close(fd);
}

int
main(int argc, char **argv)
{
	int p[2], status;
	pid_t self = getpid(), child;
	char c, *etc = NULL, *groups = NULL;

	while (argc > 2 && (strcmp(argv[1], "-e") == 0 || strcmp(argv[1], "-g") == 0)) {
		if (argv[1][1] == 'e')
			etc = argv[2];
		else
			groups = argv[2];
		argv += 2;
		argc -= 2;
	}
	if (argc < 2 || pipe(p) == -1)
		return 125;
	if ((child = fork()) == 0) {
		close(p[1]);
		if (read(p[0], &c, 1) != 1)
			_exit(1);
		_exit(map(self, "gid_map") == 0 && map(self, "uid_map") == 0 ? 0 : 1);
	}
	close(p[0]);
	if (child == -1 || unshare(CLONE_NEWUSER | (etc != NULL ? CLONE_NEWNS : 0)) == -1) {
		perror("nsrun: unshare");
		return 125;
	}
	if (write(p[1], "x", 1) != 1)
		return 125;
	close(p[1]);
	if (waitpid(child, &status, 0) != child || status != 0) {
		fprintf(stderr, "nsrun: cannot map the user IDs\n");
		return 125;
	}
	if (setresgid(0, 0, 0) == -1 || setresuid(0, 0, 0) == -1)
		return 125;
	if (etc != NULL) {
		const char *names[] = { "passwd", "group" };
		char src[4096], dst[64];
		int i;

		if (mount("none", "/", NULL, MS_REC | MS_PRIVATE, NULL) == -1) {
			perror("nsrun: private");
			return 125;
		}
		for (i = 0; i < 2; i++) {
			snprintf(src, sizeof(src), "%s/%s", etc, names[i]);
			snprintf(dst, sizeof(dst), "/etc/%s", names[i]);
			if (mount(src, dst, NULL, MS_BIND, NULL) == -1) {
				perror("nsrun: bind");
				return 125;
			}
		}
	}
	if (groups != NULL) {
		gid_t g[64];
		size_t n = 0;
		char *t;

		for (t = strtok(groups, ","); t != NULL && n < 64; t = strtok(NULL, ","))
			g[n++] = (gid_t)atol(t);
		if (setgroups(n, g) == -1) {
			perror("nsrun: setgroups");
			return 125;
		}
	}
	execvp(argv[1], argv + 1);
	perror(argv[1]);
	return 125;
}
