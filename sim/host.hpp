// The simulated host: drives the real library through its C interface and records what a user can see.
#pragma once
#include "model.hpp"
extern "C" {
#include "MoorDyn2.h"
#include "MoorDyn.h"
}
constexpr int ESCAPED = -9999; // an exception crossed the C interface
extern std::string g_escape;
std::string what_escaped();
template<class F> int api(F f)
{
	InLib g;
	try { return f(); }
	catch (...) { g_escape = what_escaped(); }
	return ESCAPED;
}
// Same for calls that return a pointer
template<class F> auto apip(F f) -> decltype(f())
{
	InLib g;
	try { return f(); }
	catch (...) { g_escape = "exception " + what_escaped(); }
	return nullptr;
}

struct Obs {
	std::vector<double> v;
	std::vector<std::string> lab;
	bool with_labels = false;
	void add(double x, const char* what, int i, int j, int k);
};
enum { O_KIN = 1, O_FORCE = 2, O_ALL = 3 };

struct Sys {
	MoorDyn md = nullptr;
	const Model* m = nullptr;
	double t = 0;
	int rc = 0;
	std::vector<double> f, x, xd;
	std::vector<double> lastv; // velocities the host gave last
	bool escaped = false;
	std::string esc;
	bool create(const Model& model);
	int init(const Motion& q, bool noic);
	int init(const Motion& q) { return init(q, m->noic); }
	int step(const Motion& q, double dt);            // motion sampled at the current time
	int step_x(const std::vector<double>& xx, const std::vector<double>& vv, double dt);
	int close();
	void observe(Obs& o, int what = O_ALL) const;
	std::vector<uint64_t> serialize(int* prc = nullptr) const;
	int deserialize(std::vector<uint64_t> d) const;
	double len(int line) const;
	Vec3 node(int line, int i) const;
	Vec3 nodevel(int line, int i) const;
	bool finite() const;
	~Sys() {}
};
// bit exact comparison; empty string when equal
std::string diff_obs(const Obs& a, const Obs& b);
// comparison with tolerance: |a-b| <= atol + rtol*max(|a|,|b|)
std::string diff_obs_tol(const Obs& a, const Obs& b, double rtol, double atol);
// Create and initialise, or discard the run
void start(Sim& S, Sys& s, const Model& m, const Motion& q);
// hash of an observation into the trace
void trace_obs(Sim& S, const Obs& o);
double pick_dt(Sim& S, const Model& m, double base); // a coupling step
inline bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
