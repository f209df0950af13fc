/* Executes LLVM 14 textual IR in process.
 *
 * Protocol: one request per line on stdin, "IR-FILE OUT-FILE IN-FILE"; one reply per line on stdout:
 *   "ok CODE" (main returned CODE), "exit CODE" (the program called exit), "signal N", "timeout",
 *   "bad parse|verify|jit MESSAGE".
 * Every program runs in a forked child with its stdout in OUT-FILE.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef void *P;
static struct { unsigned OptLevel; int CodeModel; int NoFramePointerElim; int EnableFastISel; P MCJMM; } opt;

#define F(ret, name, ...) static ret (*name)(__VA_ARGS__)
F(void, LLVMLinkInMCJIT, void);
F(void, LLVMInitializeX86TargetInfo, void);
F(void, LLVMInitializeX86Target, void);
F(void, LLVMInitializeX86TargetMC, void);
F(void, LLVMInitializeX86AsmPrinter, void);
F(P, LLVMContextCreate, void);
F(int, LLVMCreateMemoryBufferWithContentsOfFile, const char *, P *, char **);
F(int, LLVMParseIRInContext, P, P, P *, char **);
F(int, LLVMVerifyModule, P, int, char **);
F(void, LLVMInitializeMCJITCompilerOptions, P, size_t);
F(int, LLVMCreateMCJITCompilerForModule, P *, P, P, size_t, char **);
F(uint64_t, LLVMGetFunctionAddress, P, const char *);

struct shared { int reached; int code; };
static struct shared *sh;

static void load(void)
{
	P h = dlopen("libLLVM-14.so.1", RTLD_NOW | RTLD_GLOBAL);
	if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(9); }
#define L(n) if (!(n = dlsym(h, #n))) { fprintf(stderr, "no " #n "\n"); exit(9); }
	L(LLVMLinkInMCJIT) L(LLVMInitializeX86TargetInfo) L(LLVMInitializeX86Target) L(LLVMInitializeX86TargetMC)
	L(LLVMInitializeX86AsmPrinter) L(LLVMContextCreate) L(LLVMCreateMemoryBufferWithContentsOfFile)
	L(LLVMParseIRInContext) L(LLVMVerifyModule) L(LLVMInitializeMCJITCompilerOptions)
	L(LLVMCreateMCJITCompilerForModule) L(LLVMGetFunctionAddress)
}

static void bad(int fd, const char *k, char *m)
{
	char b[600];
	for (char *c = m; c && *c; c++) if (*c == '\n') *c = '|';
	int n = snprintf(b, sizeof b, "bad %s %.500s", k, m ? m : "");
	write(fd, b, n);
	_exit(7);
}

static void child(int fd, const char *ir, const char *out, const char *in, int o)
{
	P mb, mod, ee;
	char *msg = 0;
	P ctx = LLVMContextCreate();
	if (LLVMCreateMemoryBufferWithContentsOfFile(ir, &mb, &msg)) bad(fd, "read", msg);
	int save = dup(2), nul = open("/dev/null", O_WRONLY);
	dup2(nul, 2);
	if (LLVMParseIRInContext(ctx, mb, &mod, &msg)) bad(fd, "parse", msg);
	if (LLVMVerifyModule(mod, 2, &msg)) bad(fd, "verify", msg);
	LLVMInitializeMCJITCompilerOptions(&opt, sizeof opt);
	opt.OptLevel = o;
	if (LLVMCreateMCJITCompilerForModule(&ee, mod, &opt, sizeof opt, &msg)) bad(fd, "jit", msg);
	int (*m)(void) = (int (*)(void))LLVMGetFunctionAddress(ee, "main");
	if (!m) bad(fd, "jit", "no main");
	freopen(out, "wb", stdout);
	freopen(in, "rb", stdin);
	int r = m();
	sh->reached = 1;
	sh->code = r;
	fflush(stdout);
	_exit(0);
}

int main(int argc, char **argv)
{
	load();
	LLVMLinkInMCJIT();
	LLVMInitializeX86TargetInfo();
	LLVMInitializeX86Target();
	LLVMInitializeX86TargetMC();
	LLVMInitializeX86AsmPrinter();
	sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	static char line[4096], a[1024], b[1024], c[1024];
	int o;
	while (fgets(line, sizeof line, stdin))
	{
		if (sscanf(line, "%1000s %1000s %1000s %d", a, b, c, &o) != 4) { puts("bad request"); fflush(stdout); continue; }
		int p[2];
		pipe(p);
		sh->reached = 0;
		pid_t pid = fork();
		if (!pid)
		{
			close(p[0]);
			struct rlimit rl = { 10, 10 };
			setrlimit(RLIMIT_CPU, &rl);
			struct rlimit rc = { 0, 0 };
			setrlimit(RLIMIT_CORE, &rc);
			struct rlimit rf = { 32 << 20, 32 << 20 };
			setrlimit(RLIMIT_FSIZE, &rf);
			alarm(30);
			child(p[1], a, b, c, o);
		}
		close(p[1]);
		char m[700];
		int n, k = 0;
		while (k < 690 && (n = read(p[0], m + k, 690 - k)) > 0) k += n;
		m[k] = 0;
		close(p[0]);
		int st;
		waitpid(pid, &st, 0);
		if (k) puts(m);
		else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM)) puts("timeout");
		else if (WIFSIGNALED(st)) printf("signal %d\n", WTERMSIG(st));
		else if (sh->reached) printf("ok %d\n", sh->code);
		else printf("exit %d\n", WEXITSTATUS(st));
		fflush(stdout);
	}
	return 0;
}
