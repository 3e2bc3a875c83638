// Zygote: loads the language runtime once, then forks one child per command.
//
// Command line (tab separated):  id mode timeout_s gc_interval gc_steps dir in out
//   mode E  read every form of the file <in>, macroexpand and evaluate it and
//           print "=> value"
//   mode L  compile the file <in> to C, run gcc, load the shared object and
//           print "=> value"
//   mode C  only compile the file <in> to the C file <in>.c
// Answer: "id status" with status = exit code, or 1000 + signal number.
//
// Uses what main.c uses: cora.h and reader.h.
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "cora.h"
#include "reader.h"

extern __attribute__((weak)) long gcVerifInterval;
extern __attribute__((weak)) int gcVerifSteps;
extern __attribute__((weak)) struct { unsigned long n[10]; } gcVerifStats;

static Cora *co;

static Obj global(char *name) { return coraSymbolGet(co, intern(name)); }

static Obj call1(char *name, Obj a) {
	Obj args[1] = {a};
	coraCall(co, global(name), 1, args);
	coraRun(co);
	return coraGetResult(co);
}

static Obj call2(char *name, Obj a, Obj b) {
	Obj args[2] = {a, b};
	coraCall(co, global(name), 2, args);
	coraRun(co);
	return coraGetResult(co);
}

static void import(char *lib) { call1("import", coraMakeCString(co, lib)); }

static void show(void) {
	printf("=> ");
	printObj(stdout, coraGetResult(co));
	printf("\n");
	fflush(stdout);
}

static int evalFile(char *path) {
	FILE *f = fopen(path, "r");
	if (f == NULL) return 97;
	int err = 0;
	while (1) {
		Obj exp = sexpRead(coraGetGC(co), f, &err);
		if (err != 0) break;
		exp = call1("macroexpand", exp);
		call2("cora/lib/eval#eval", exp, Nil);
		show();
	}
	fclose(f);
	return 0;
}

static int compileFile(char *path, int load) {
	char c[4200], so[4200], cmd[16000];
	snprintf(c, sizeof c, "%s.c", path);
	snprintf(so, sizeof so, "%s.so", path);
	Obj from = coraMakeCString(co, path);
	Obj to = coraMakeCString(co, c);
	call2("cora/lib/toc#compile-to-c", from, to);
	if (!load) return 0;
	const char *src = getenv("CORA_RUNNER_SRC");
	snprintf(cmd, sizeof cmd, "gcc -w -shared -I%s -g0 -O0 -fPIC '%s' -o '%s' -ldl -lm -L%s -lcora", src, c, so, src);
	fflush(stdout);
	if (system(cmd) != 0) {
		printf("CC-FAILED\n");
		fflush(stdout);
		return 96;
	}
	printf("=compiled\n");
	fflush(stdout);
	call2("load-so", coraMakeCString(co, so), coraMakeCString(co, ""));
	show();
	return 0;
}

int main(int argc, char **argv) {
	co = coraInit();
	import("cora/init");
	import("cora/lib/toc");
	import("cora/lib/eval");
	for (int i = 1; i < argc; i++) import(argv[i]);
	printf("ready\n");
	fflush(stdout);
	fflush(stderr);
	static char line[16384];
	size_t have = 0;
	int running = 0, eof = 0;
	struct { pid_t pid; char id[64]; } kids[512];
	int back = dup(1);
	fcntl(back, F_SETFD, FD_CLOEXEC);
	while (!eof || running > 0) {
		// reap
		int st;
		pid_t p;
		while (running > 0 && (p = waitpid(-1, &st, WNOHANG)) > 0) {
			for (int i = 0; i < running; i++) {
				if (kids[i].pid == p) {
					int code = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
					dprintf(back, "%s %d\n", kids[i].id, code);
					kids[i] = kids[--running];
					break;
				}
			}
		}
		if (eof) { usleep(500); continue; }
		// one command, polling
		fd_set fds;
		FD_ZERO(&fds);
		FD_SET(0, &fds);
		struct timeval tv = {0, running > 0 ? 1000 : 100000};
		int n = select(1, &fds, NULL, NULL, &tv);
		if (n <= 0) continue;
		ssize_t r = read(0, line + have, sizeof line - have - 1);
		if (r <= 0) { eof = 1; continue; }
		have += r;
		line[have] = 0;
		char *nl;
		while ((nl = strchr(line, '\n')) != NULL) {
			*nl = 0;
			char *f[8];
			int k = 0;
			for (char *q = line; k < 8; k++) {
				f[k] = q;
				q = strchr(q, '\t');
				if (q == NULL) { k++; break; }
				*q++ = 0;
			}
			if (k == 8) {
				pid_t pid = fork();
				if (pid == 0) {
					setpgid(0, 0);
					int fd = open(f[7], O_CREAT | O_TRUNC | O_WRONLY, 0644);
					int nul = open("/dev/null", O_RDONLY);
					dup2(nul, 0);
					dup2(fd, 1);
					dup2(fd, 2);
					setvbuf(stdout, NULL, _IOLBF, 1 << 16);
					struct rlimit z = {0, 0};
					setrlimit(RLIMIT_CORE, &z);
					int sec = atoi(f[2]);
					struct rlimit cpu = {sec + 1, sec + 2};
					setrlimit(RLIMIT_CPU, &cpu);
					alarm(sec);
					if (chdir(f[5]) != 0) _exit(98);
					if (&gcVerifStats) memset(&gcVerifStats, 0, sizeof gcVerifStats);
					if (&gcVerifInterval) gcVerifInterval = atol(f[3]);
					if (&gcVerifSteps) gcVerifSteps = atoi(f[4]);
					int rc;
					if (f[1][0] == 'E') rc = evalFile(f[6]);
					else rc = compileFile(f[6], f[1][0] == 'L');
					struct rusage ru;
					getrusage(RUSAGE_SELF, &ru);
					printf("=rss %ld\n", ru.ru_maxrss);
					fflush(stdout);
					exit(rc);
				}
				snprintf(kids[running].id, sizeof kids[running].id, "%s", f[0]);
				kids[running++].pid = pid;
			}
			have -= nl + 1 - line;
			memmove(line, nl + 1, have + 1);
		}
	}
	return 0;
}
