// Processes which stand for simulated far machines: started, spoken to and ended synchronously.
#include <node_api.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <time.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <string>
#include <vector>

static napi_value mknum(napi_env env, double d) { napi_value v; napi_create_double(env, d, &v); return v; }
static double getnum(napi_env env, napi_value v) { double d = 0; napi_get_value_double(env, v, &d); return d; }

// farSpawn([path, args...]) -> [fd, pid]
static napi_value FarSpawn(napi_env env, napi_callback_info info) {
	size_t argc = 1; napi_value av[1]; napi_get_cb_info(env, info, &argc, av, NULL, NULL);
	uint32_t n = 0; napi_get_array_length(env, av[0], &n);
	std::vector<std::string> s(n);
	std::vector<char*> p;
	for(uint32_t i = 0; i < n; i++) {
		napi_value e; napi_get_element(env, av[0], i, &e);
		char b[4096]; size_t l = 0; napi_get_value_string_utf8(env, e, b, sizeof(b), &l);
		s[i].assign(b, l);
	}
	for(auto& x : s) p.push_back((char*)x.c_str());
	p.push_back(NULL);
	static char* noenv[] = { (char*)"PATH=/usr/bin:/bin", NULL };
	int sp[2];
	if(socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sp)) return mknum(env, -1);
	int sz = 1 << 20; setsockopt(sp[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz)); setsockopt(sp[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
	int nul = open("/dev/null", O_WRONLY | O_CLOEXEC);
	pid_t parent = getpid();
	struct rlimit core = { 0, 0 }, cpu = { 120, 125 };
	pid_t pid = vfork();
	if(pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if(getppid() != parent) _exit(120);
		setrlimit(RLIMIT_CORE, &core); setrlimit(RLIMIT_CPU, &cpu);
		dup2(sp[1], 0); dup2(sp[1], 1); dup2(nul, 2);
		execve(p[0], p.data(), noenv);
		_exit(121);
	}
	close(sp[1]); close(nul);
	napi_value o; napi_create_array_with_length(env, 2, &o);
	napi_set_element(env, o, 0, mknum(env, sp[0])); napi_set_element(env, o, 1, mknum(env, pid));
	return o;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e3 + t.tv_nsec / 1e6; }
// reads/writes exactly n bytes; 0 ok, -1 the machine is gone, -2 no answer in time
static int transfer(int fd, char* b, size_t n, bool out, double until) {
	while(n) {
		struct pollfd pf = { fd, (short)(out ? POLLOUT : POLLIN), 0 };
		double left = until - now();
		if(left <= 0) return -2;
		int r = poll(&pf, 1, left > 1000 ? 1000 : (int)left + 1);
		if(r < 0 && errno != EINTR) return -1;
		if(r <= 0) continue;
		ssize_t k = out ? send(fd, b, n, MSG_NOSIGNAL | MSG_DONTWAIT) : recv(fd, b, n, MSG_DONTWAIT);
		if(k == 0 && !out) return -1;
		if(k < 0) { if(errno == EINTR || errno == EAGAIN) continue; return -1; }
		b += k; n -= k;
	}
	return 0;
}
// farCall(fd, request, timeout ms) -> Buffer, or -1 (gone), -2 (no answer)
static napi_value FarCall(napi_env env, napi_callback_info info) {
	size_t argc = 3; napi_value av[3]; napi_get_cb_info(env, info, &argc, av, NULL, NULL);
	int fd = (int)getnum(env, av[0]);
	void* d; size_t n; napi_get_buffer_info(env, av[1], &d, &n);
	double until = now() + getnum(env, av[2]);
	unsigned char h[4] = { (unsigned char)n, (unsigned char)(n >> 8), (unsigned char)(n >> 16), (unsigned char)(n >> 24) };
	int r = transfer(fd, (char*)h, 4, true, until);
	if(!r) r = transfer(fd, (char*)d, n, true, until);
	if(!r) r = transfer(fd, (char*)h, 4, false, until);
	if(r) return mknum(env, r);
	size_t m = h[0] | h[1] << 8 | h[2] << 16 | (size_t)h[3] << 24;
	if(m > (16u << 20)) return mknum(env, -1);
	napi_value o; void* q; napi_create_buffer(env, m, &q, &o);
	r = transfer(fd, (char*)q, m, false, until);
	return r ? mknum(env, r) : o;
}
// farEnd(fd, pid) -> how it ended: exit code, or 1000 + signal; -1: it was still running and has been ended
static napi_value FarEnd(napi_env env, napi_callback_info info) {
	size_t argc = 3; napi_value av[3]; napi_get_cb_info(env, info, &argc, av, NULL, NULL);
	int fd = (int)getnum(env, av[0]); pid_t pid = (pid_t)getnum(env, av[1]);
	int wait = argc > 2 ? (int)getnum(env, av[2]) : 0, st = 0, r = -1;
	close(fd);
	double until = now() + wait;
	for(;;) {
		pid_t w = waitpid(pid, &st, WNOHANG);
		if(w == pid) { r = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st); break; }
		if(w < 0) break;
		if(now() >= until) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
		usleep(1000);
	}
	return mknum(env, r);
}
void far_exports(napi_env env, napi_value exports) {
	struct { const char* n; napi_callback f; } t[] = { { "farSpawn", FarSpawn }, { "farCall", FarCall }, { "farEnd", FarEnd } };
	for(auto& x : t) { napi_value v; napi_create_function(env, x.n, NAPI_AUTO_LENGTH, x.f, NULL, &v); napi_set_named_property(env, exports, x.n, v); }
}
