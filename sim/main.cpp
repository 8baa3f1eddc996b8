// mdsim: runs seeds of one property, one forked child per run; or replays one choice stream.
#include "host.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string jesc(const std::string& s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
		else o += (char)c;
	}
	return o;
}
static PropFn find_prop(const std::string& id) { for (auto& p : registry()) if (id == p.id) return p.fn; return nullptr; }

static int g_pipe = -1;
static Sim* g_sim = nullptr;
static void emit(const std::string& s)
{
	size_t o = 0;
	while (o < s.size()) { ssize_t k = ::write(g_pipe, s.data() + o, s.size() - o); if (k <= 0) break; o += (size_t)k; }
}
double cpu_seconds()
{
	struct rusage u;
	getrusage(RUSAGE_SELF, &u);
	return u.ru_utime.tv_sec + u.ru_stime.tv_sec + 1e-6 * (u.ru_utime.tv_usec + u.ru_stime.tv_usec);
}
static std::string result_json(Sim& S, uint64_t seed, const std::string& verdict, const std::string& cls, const std::string& msg, bool full)
{
	std::string o = fmt("{\"seed\":%llu,\"verdict\":\"%s\",\"cls\":\"%s\",\"msg\":\"", (unsigned long long)seed, verdict.c_str(), jesc(cls).c_str());
	o += jesc(msg) + fmt("\",\"hash\":\"%016llx\",\"sig\":\"%016llx\",\"nontrivial\":%d,\"simtime\":%.6g,\"cpu\":%.2f,\"fsops\":%ld", (unsigned long long)S.hash, (unsigned long long)S.sig, (int)S.nontrivial, S.simtime, cpu_seconds(), fs().nops);
	o += ",\"faults\":{";
	bool c = false;
	for (auto& kv : S.faults) { o += fmt("%s\"%s\":%ld", c ? "," : "", jesc(kv.first).c_str(), kv.second); c = true; }
	o += "},\"probes\":{";
	c = false;
	for (auto& kv : S.probes) { o += fmt("%s\"%s\":%ld", c ? "," : "", jesc(kv.first).c_str(), kv.second); c = true; }
	o += "}";
	if (full) {
		o += ",\"choices\":[";
		for (size_t i = 0; i < S.rec.size(); i++) o += fmt("%s%u", i ? "," : "", S.rec[i]);
		o += "],\"events\":[";
		for (size_t i = 0; i < S.events.size(); i++) o += fmt("%s\"", i ? "," : "") + jesc(S.events[i]) + "\"";
		o += "]";
	}
	o += "}\n";
	return o;
}
void (*g_before_runs)(const std::string& prop) = nullptr; // what a property prepares once, before its runs are forked
static uint32_t* g_shm = nullptr; // choices and last event of the running child
static void child_run(PropFn fn, uint64_t seed, const std::vector<uint32_t>* choices, bool full, const std::string& tier, bool verbose)
{
	static Sim S;
	g_sim = &S;
	S.rng = Rng(seed);
	S.tier = tier;
	S.verbose = verbose;
	S.shm = g_shm;
	S.shm_ev = (char*)(g_shm + 200001);
	if (choices) { S.replay = true; S.in = *choices; }
	mute_terminal();
	fs().reset();
	mem_reset();
	std::string verdict = "ok", cls, msg;
	try { fn(S); }
	catch (const Violation& v) { verdict = "violation"; cls = v.cls; msg = v.msg; }
	catch (const Discard& d) { verdict = "discard"; msg = d.why; }
	catch (const std::exception& e) { verdict = "harness-error"; msg = e.what(); }
	g_mem.poison = -1; g_mem.fail_at = -1; g_mem.track = false;
	emit(result_json(S, seed, verdict, cls, msg, full || verdict == "violation"));
	_exit(0);
}
static std::string run_one(PropFn fn, uint64_t seed, const std::vector<uint32_t>* choices, bool full, const std::string& tier, int cpu, bool verbose)
{
	if (!g_shm) g_shm = (uint32_t*)mmap(nullptr, 200001 * 4 + 1024, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	g_shm[0] = 0;
	((char*)(g_shm + 200001))[0] = 0;
	int p[2];
	if (pipe(p)) { perror("pipe"); exit(3); }
	fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (pid == 0) {
		::close(p[0]);
		g_pipe = p[1];
		struct rlimit rl = { (rlim_t)cpu, (rlim_t)cpu + 2 };
		setrlimit(RLIMIT_CPU, &rl);
		struct rlimit z = { 0, 0 };
		setrlimit(RLIMIT_CORE, &z);
		if (!verbose) { int n = open("/dev/null", O_WRONLY); if (!getenv("SIM_STDERR")) dup2(n, 2); dup2(n, 1); }
		child_run(fn, seed, choices, full, tier, verbose);
	}
	::close(p[1]);
	std::string out;
	char b[65536];
	auto t0 = std::chrono::steady_clock::now();
	bool killed = false;
	for (;;) {
		struct pollfd pf = { p[0], POLLIN, 0 };
		int pr = poll(&pf, 1, 1000);
		if (pr > 0) {
			ssize_t k = ::read(p[0], b, sizeof b);
			if (k <= 0) break;
			out.append(b, (size_t)k);
		} else if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > cpu * 6 + 30) { kill(pid, SIGKILL); killed = true; break; }
	}
	::close(p[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	if (out.empty() || out.back() != '\n') {
		std::string cls = "crash", msg;
		if (killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) { cls = "hang"; msg = "did not finish"; }
		else if (WIFSIGNALED(st)) msg = fmt("process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
		else if (WIFEXITED(st)) msg = fmt("process terminated with status %d%s", WEXITSTATUS(st), WEXITSTATUS(st) == 77 ? " (memory error detected)" : "");
		out = fmt("{\"seed\":%llu,\"verdict\":\"violation\",\"cls\":\"%s\",\"msg\":\"%s\",\"hash\":\"0\",\"sig\":\"0\",\"nontrivial\":1,\"simtime\":0,\"fsops\":0,\"faults\":{},\"probes\":{},\"died\":1",
			(unsigned long long)seed, cls.c_str(), jesc(msg + std::string("; last event: ") + (char*)(g_shm + 200001)).c_str());
		out += ",\"choices\":[";
		for (uint32_t i = 0; i < g_shm[0]; i++) out += fmt("%s%u", i ? "," : "", g_shm[i + 1]);
		out += "],\"events\":[]}\n";
	}
	return out;
}
static uint64_t mix(uint64_t base, uint64_t i) { Rng r(base * 0x9E3779B97F4A7C15ull + 0x1234567); uint64_t a = r.next(); Rng q(a ^ (i * 0xD1B54A32D192ED03ull)); return q.next() >> 1; }

int main(int argc, char** argv)
{
	// fixed address space, when the kernel lets us
	if (!getenv("MDSIM_NOASLR")) {
		setenv("MDSIM_NOASLR", "1", 1);
		if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	std::string prop, tier = "quick", chfile;
	uint64_t base = 1, seed = 0;
	long start = 0, stride = 1, count = 1;
	double budget = 1e9;
	int cpu = 20;
	bool have_seed = false, full = false, verbose = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") prop = nx();
		else if (a == "--tier") tier = nx();
		else if (a == "--base") base = strtoull(nx().c_str(), 0, 10);
		else if (a == "--start") start = atol(nx().c_str());
		else if (a == "--stride") stride = atol(nx().c_str());
		else if (a == "--count") count = atol(nx().c_str());
		else if (a == "--budget") budget = atof(nx().c_str());
		else if (a == "--cpu") cpu = atoi(nx().c_str());
		else if (a == "--seed") { seed = strtoull(nx().c_str(), 0, 10); have_seed = true; }
		else if (a == "--choices") chfile = nx();
		else if (a == "--full") full = true;
		else if (a == "--verbose") verbose = full = true;
		else if (a == "--list") { for (auto& p : registry()) printf("%s\n", p.id); return 0; }
	}
	PropFn fn = find_prop(prop);
	if (!fn) { fprintf(stderr, "unknown property '%s'\n", prop.c_str()); return 2; }
	if (g_before_runs) g_before_runs(prop);
	if (!chfile.empty()) {
		// one line per choice stream
		FILE* f = fopen(chfile.c_str(), "r");
		if (!f) { perror(chfile.c_str()); return 2; }
		char* line = nullptr; size_t cap = 0;
		while (getline(&line, &cap, f) > 0) {
			std::vector<uint32_t> ch;
			for (char* p = line; *p;) { while (*p == ' ' || *p == '\n') p++; if (!*p) break; ch.push_back((uint32_t)strtoul(p, &p, 10)); }
			std::string r = run_one(fn, 0, &ch, full, tier, cpu, verbose);
			fwrite(r.data(), 1, r.size(), stdout);
			fflush(stdout);
		}
		return 0;
	}
	if (have_seed) {
		std::string r = run_one(fn, seed, nullptr, true, tier, cpu, verbose);
		fwrite(r.data(), 1, r.size(), stdout);
		return 0;
	}
	auto t0 = std::chrono::steady_clock::now();
	for (long i = start; i < count; i += stride) {
		if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
		std::string r = run_one(fn, mix(base, (uint64_t)i), nullptr, full, tier, cpu, false);
		fwrite(r.data(), 1, r.size(), stdout);
		fflush(stdout);
	}
	return 0;
}
