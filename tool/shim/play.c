// Stands in for a child process: copies recorded output and ends as told.
// argv: program, file for stdout, file for stderr, exit status (1000+n: killed by signal n)
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <unistd.h>

static void copy(const char *name, int to) {
	char b[65536];
	int f = open(name, O_RDONLY);
	ssize_t n;
	if (f < 0) return;
	while ((n = read(f, b, sizeof b)) > 0) {
		char *p = b;
		while (n > 0) {
			ssize_t w = write(to, p, n);
			if (w < 0) _exit(1);
			p += w;
			n -= w;
		}
	}
	close(f);
}

int main(int argc, char **argv) {
	if (argc < 4) return 99;
	copy(argv[1], 1);
	copy(argv[2], 2);
	int code = atoi(argv[3]);
	if (code >= 1000) {
		kill(getpid(), code - 1000);
		for (;;) pause();
	}
	return code;
}
