// Compiles many small inputs in forked children: one request per line on stdin,
//   N \t SECONDS, followed by N lines  DIR \t ARG \t ARG ...
// answered by N lines "exit C" / "signal C" / "timeout 0".  Output and diagnostics of a run go to DIR/.out and DIR/.err.
// A child goes on with the next input as long as it lives; after a crash the rest is left to a new child.
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
extern "C" {
#include "compiler.h"
#include "workspace.h"
}

typedef std::vector<std::string> strs;
static volatile int *code;      // per input: exit code, -1 while it runs, -2 before
static const int MAX = 256;

static strs split(const std::string &line)
{
	strs f(1);
	for (char c : line) if (c == '\t') f.emplace_back(); else f.back() += c;
	return f;
}

static void one(const strs &f, int secs)
{
	if (chdir(f[0].c_str())) _exit(120);
	const int o = open(".out", O_CREAT | O_TRUNC | O_WRONLY, 0644), e = open(".err", O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (o < 0 || e < 0) _exit(121);
	dup2(o, 1); dup2(e, 2);
	close(o); close(e);
	struct rusage u;
	getrusage(RUSAGE_SELF, &u);
	struct rlimit r = {(rlim_t)(u.ru_utime.tv_sec + u.ru_stime.tv_sec + 1 + secs), RLIM_INFINITY};
	setrlimit(RLIMIT_CPU, &r);
}

static int run(const strs &f)
{
	std::vector<const char *> argv = {"ruc"};
	for (size_t i = 1; i < f.size(); i++) argv.push_back(f[i].c_str());
	workspace ws = ws_parse_args((int)argv.size(), argv.data());
	const int ret = compile(&ws);
	ws_clear(&ws);
	fflush(nullptr);
	return ret;
}

int main()
{
	code = (volatile int *)mmap(nullptr, MAX * sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sigset_t chld;
	sigemptyset(&chld);
	sigaddset(&chld, SIGCHLD);
	sigprocmask(SIG_BLOCK, &chld, nullptr);
	std::string line;
	while (std::getline(std::cin, line))
	{
		const strs h = split(line);
		const int n = atoi(h[0].c_str()), secs = atoi(h[1].c_str());
		if (n > MAX) return 1;
		std::vector<strs> in;
		std::vector<std::string> res(n);
		for (int i = 0; i < n && std::getline(std::cin, line); i++) in.push_back(split(line));
		for (int first = 0; first < n;)
		{
			for (int i = first; i < n; i++) code[i] = -2;
			const pid_t p = fork();
			if (p == 0)
			{
				sigset_t none;
				sigemptyset(&none);
				sigprocmask(SIG_SETMASK, &none, nullptr);
				struct rlimit fs = {64u << 20, 64u << 20}, co = {0, 0};
				setrlimit(RLIMIT_FSIZE, &fs);
				setrlimit(RLIMIT_CORE, &co);
				dup2(open("/dev/null", O_RDONLY), 0);
				for (int i = first; i < n; i++)
				{
					one(in[i], secs);
					code[i] = -1;
					const int ret = run(in[i]);
					code[i] = ret & 255;
				}
				_exit(0);
			}
			int st = 0;
			bool late = false;
			for (int last = -1;;)
			{
				if (waitpid(p, &st, WNOHANG) == p) break;
				timespec left = {4 * secs + 10, 0};
				if (sigtimedwait(&chld, nullptr, &left) < 0 && errno == EAGAIN)
				{
					int now = first;
					while (now < n && code[now] >= 0) now++;
					if (now == last) { kill(p, SIGKILL); waitpid(p, &st, 0); late = true; break; }
					last = now;
				}
			}
			int i = first;
			for (; i < n && code[i] >= 0; i++) res[i] = "exit " + std::to_string(code[i]);
			if (i < n)
			{
				if (late || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) res[i] = "timeout 0";
				else if (WIFSIGNALED(st)) res[i] = "signal " + std::to_string(WTERMSIG(st));
				else res[i] = "exit " + std::to_string(WEXITSTATUS(st));
				i++;
			}
			first = i;
		}
		for (const auto &s : res) puts(s.c_str());
		fflush(stdout);
	}
	return 0;
}
