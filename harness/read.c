// Reads every form of the file argv[1] and prints each, then prints them again after reading
// back what was printed (argv[2], a scratch file) when argv[3] is "again".
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "cora.h"
#include "reader.h"

static int all(Cora *co, char *path, FILE *out) {
	FILE *f = fopen(path, "r");
	if (f == NULL) return 97;
	int err = 0, n = 0;
	while (1) {
		Obj x = sexpRead(coraGetGC(co), f, &err);
		if (err != 0) break;
		fprintf(out, "=> ");
		sexpWrite(out, x);
		fprintf(out, "\n");
		fflush(out);
		n++;
		if (n > 100000) return 98;
	}
	fclose(f);
	return 0;
}

static void show(Cora *co, char *path, FILE *out) {
	FILE *f = fopen(path, "r");
	int err = 0;
	while (1) {
		Obj x = sexpRead(coraGetGC(co), f, &err);
		if (err != 0) break;
		sexpWrite(out, x);
		fprintf(out, "\n");
	}
	fclose(f);
	fflush(out);
}

int main(int argc, char **argv) {
	Cora *co = coraInit();
	// many files in one process: lines of "in again-file" on standard input
	char line[8192];
	while (fgets(line, sizeof line, stdin)) {
		line[strcspn(line, "\n")] = 0;
		char *again = strchr(line, '\t');
		if (again) *again++ = 0;
		pid_t pid = fork();
		if (pid == 0) {
			char o[8400];
			snprintf(o, sizeof o, "%s.out", line);
			FILE *out = fopen(o, "w");
			snprintf(o, sizeof o, "%s.err", line);
			freopen(o, "w", stderr);
			alarm(20);
			int rc = all(co, line, out);
			fclose(out);
			if (rc == 0 && again && *again) {
				FILE *t = fopen(again, "w");
				show(co, line, t);
				fclose(t);
				char o2[8400];
				snprintf(o2, sizeof o2, "%s.out", again);
				out = fopen(o2, "w");
				rc = all(co, again, out);
				fclose(out);
			}
			exit(rc);
		}
		int st;
		waitpid(pid, &st, 0);
		printf("%d\n", WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st));
		fflush(stdout);
	}
	return 0;
}
