#include "sched.hpp"
#include "seams.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

namespace {
struct Task {
	std::function<void()> fn;
	sem_t go;
	bool done = false, waiting = false;
	std::exception_ptr err;
	pthread_t th;
};
struct Sched {
	Sim* S;
	std::vector<Task> t;
	std::function<long()> burst;
	int cur = -1;
	long left = 0, inside = 0, idle = 0;
	uint64_t path = 0; // hash of the sequence of switches
	sem_t end;
};
Sched* g_s = nullptr;
thread_local int tl_task = -1;
thread_local bool tl_busy = false; // inside the scheduler
int runnable(int but)
{
	int n = 0;
	for (size_t i = 0; i < g_s->t.size(); i++) if (!g_s->t[i].done && (int)i != but) n++;
	return n;
}
// hand over to another task (or end)
void hand_over(bool finished)
{
	Sched& s = *g_s;
	const int me = s.cur;
	std::vector<int> c;
	for (size_t i = 0; i < s.t.size(); i++) if (!s.t[i].done && (int)i != me) c.push_back((int)i);
	if (c.empty()) { if (finished) sem_post(&s.end); else s.left = 1L << 60; return; }
	const int to = c[c.size() > 1 ? s.S->draw((uint32_t)c.size()) : 0];
	s.cur = to;
	s.left = s.burst();
	s.path = (s.path ^ (uint64_t)to ^ ((uint64_t)s.left << 8)) * 0x9e3779b97f4a7c15ull;
	sem_post(&s.t[to].go);
	if (!finished) while (sem_wait(&s.t[me].go)) {}
}
void* body(void* a)
{
	const int i = (int)(long)a;
	tl_task = i;
	Task& t = g_s->t[i];
	tl_busy = true;
	while (sem_wait(&t.go)) {}
	tl_busy = false;
	try { t.fn(); } catch (...) { t.err = std::current_exception(); }
	tl_busy = true;
	t.done = true;
	hand_over(true);
	tl_task = -1;
	return nullptr;
}
}
long run_threads(Sim& S, std::vector<std::function<void()>> tasks, std::function<long()> burst)
{
	static Sched s;
	s.S = &S; s.burst = burst; s.inside = 0; s.path = 1;
	s.t = std::vector<Task>(tasks.size());
	sem_init(&s.end, 0, 0);
	g_s = &s;
	for (size_t i = 0; i < tasks.size(); i++) { s.t[i].fn = tasks[i]; sem_init(&s.t[i].go, 0, 0); }
	for (size_t i = 0; i < tasks.size(); i++) if (pthread_create(&s.t[i].th, nullptr, body, (void*)(long)i)) throw Discard{ "no thread" };
	s.cur = (int)S.draw((uint32_t)tasks.size());
	s.left = burst();
	sem_post(&s.t[s.cur].go);
	while (sem_wait(&s.end)) {}
	for (auto& t : s.t) pthread_join(t.th, nullptr);
	g_s = nullptr;
	for (auto& t : s.t) if (t.err) std::rethrow_exception(t.err);
	S.mark(std::to_string(s.path));
	return s.inside;
}
static void switch_now()
{
	if (tl_busy) return;
	tl_busy = true;
	const int e = errno;
	{ SimCode sc; hand_over(false); }
	errno = e;
	tl_busy = false;
}
void sched_point() { if (tl_task >= 0 && !tl_busy && runnable(tl_task) && g_s->S->chance(1, 2)) switch_now(); }

#ifdef SIM_SCHED
extern "C" {
// called by the instrumented library code at every edge of its control flow
void __sanitizer_cov_trace_pc()
{
	// (the simulator may share instances of templates with the library)
	if (tl_task < 0 || tl_busy || !in_lib()) return;
	if (--g_s->left > 0) return;
	g_s->inside++;
	switch_now();
}
// A task that has to wait for another one lets it run
static bool wait_turn()
{
	if (tl_task < 0 || tl_busy) return false;
	if (!runnable(tl_task) || ++g_s->idle > 1000000) { static const char m[] = "deadlock\n"; if (::write(2, m, sizeof m - 1)) {} abort(); }
	switch_now();
	return true;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
	static auto rl = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
	static auto rt = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
	if (tl_task < 0 || tl_busy) return rl(m);
	for (;;) {
		int r = rt(m);
		if (r != EBUSY) return r;
		wait_turn();
	}
}
}
namespace __cxxabiv1 {
// initialisation of local statics: 1st byte done, 2nd byte in progress
extern "C" int __cxa_guard_acquire(long long* g)
{
	char* c = (char*)g;
	for (;;) {
		if (c[0]) return 0;
		if (!c[1]) { c[1] = 1; return 1; }
		if (!wait_turn()) return 0;
	}
}
extern "C" void __cxa_guard_release(long long* g) { char* c = (char*)g; c[1] = 0; __atomic_store_n(&c[0], 1, __ATOMIC_RELEASE); }
extern "C" void __cxa_guard_abort(long long* g) { ((char*)g)[1] = 0; }
}
#endif
