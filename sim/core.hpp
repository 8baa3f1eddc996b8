// Core of the simulator: the choice stream (one seed decides everything), event trace, statistics, verdicts.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
};

inline uint64_t fnv(uint64_t h, const void* p, size_t n)
{
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}
inline uint64_t fnv(uint64_t h, const std::string& s) { return fnv(h, s.data(), s.size()); }
constexpr uint64_t FNV0 = 1469598103934665603ull;

// A property violation found by an oracle
struct Violation { std::string cls, msg; };
// The run is not usable for the property (e.g. the generated model is numerically unstable)
struct Discard { std::string why; };

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Everything a run depends on and everything it reports
double cpu_seconds(); // spent by this run so far; only ever used to give up on expensive runs
struct Sim {
	// --- choice stream
	bool replay = false;
	std::vector<uint32_t> in;
	size_t pos = 0;
	std::vector<uint32_t> rec;
	Rng rng;
	// --- trace
	bool verbose = false;
	std::vector<std::string> events;
	uint64_t hash = FNV0; // of the full observable history (determinism gate)
	uint64_t sig = FNV0;  // of the schedule/fault pattern (distinctness measure)
	bool nontrivial = false;
	double simtime = 0.0;
	std::map<std::string, long> faults, probes;
	std::string tier = "quick";
	uint32_t* shm = nullptr; // mirror of the record that survives the death of this process
	char* shm_ev = nullptr;

	// A value in [0, n); 0 is the simplest choice
	uint32_t draw(uint32_t n)
	{
		uint32_t v = 0;
		if (n > 1) {
			if (replay) v = pos < in.size() ? in[pos] % n : 0;
			else v = (uint32_t)((rng.next() >> 11) % n);
		}
		pos++;
		rec.push_back(v);
		if (shm && rec.size() < 200000) { shm[rec.size()] = v; shm[0] = (uint32_t)rec.size(); }
		return v;
	}
	int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
	// true with probability num/den; false is the simple choice
	bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
	double real(double lo, double hi) { return lo + (hi - lo) * (double)draw(1u << 16) / 65536.0; }
	// rounded to few significant digits, so that printing in an input file is exact enough to read
	double rreal(double lo, double hi, double q = 1e-3) { return std::floor(real(lo, hi) / q + 0.5) * q; }
	bool thorough() const { return tier == "thorough"; }
	template<class T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t)v.size())]; }

	void ev(const char* f, ...) __attribute__((format(printf, 2, 3)));
	void mark(const std::string& s) { sig = fnv(sig, s); }
	void fault(const std::string& k) { faults[k]++; sig = fnv(sig, k); }
	void probe(const std::string& k) { probes[k]++; }
	void obs(const void* p, size_t n) { hash = fnv(hash, p, n); }
};

// Property registry
using PropFn = void (*)(Sim&);
struct PropEntry { const char* id; PropFn fn; };
std::vector<PropEntry>& registry();
struct Reg { Reg(const char* id, PropFn f) { registry().push_back({ id, f }); } };
#define PROPERTY(id) static void run_##id(Sim&); static Reg reg_##id(#id, run_##id); static void run_##id(Sim& S)
