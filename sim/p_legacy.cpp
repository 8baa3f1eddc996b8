// C16 the legacy interface
#include "plan.hpp"
extern "C" {
#include "Line.h"
#include "Point.h"
}
namespace {
// What a legacy host can see of one session
struct Ses {
	std::vector<int> rcs;
	std::vector<double> v;
	std::vector<std::string> lab;
	void add(double x, const std::string& l) { v.push_back(x); lab.push_back(l); }
};
struct Script { // one session
	int model = 0;
	Plan p;
	int steps = 0;
	std::vector<int> query; // bit mask of queries after each step
	bool ext_init = false;
	double amp = 0;
	int end = 0; // 0: close, 1: start the next one over it
	std::vector<int> bad; // invalid queries after each step
};
void kin(const std::vector<double>& r, double amp, double t, std::vector<double>& U, std::vector<double>& Ud)
{
	U.assign(r.size(), 0); Ud.assign(r.size(), 0);
	for (size_t i = 0; i < r.size(); i++) { U[i] = amp * std::sin(0.7 * t + 0.1 * r[i] + (double)(i % 3)); Ud[i] = amp * 0.7 * std::cos(0.7 * t + 0.1 * r[i] + (double)(i % 3)); }
}
// the two interfaces behind one face
struct Face {
	bool old;
	MoorDyn md = nullptr;
	int init(const double* x, const double* xd, const char* file)
	{
		if (old) return api([&] { return MoorDynInit(x, xd, file); });
		// starting over an open simulation is the end of that one, unless there is nothing to start
		if (md && fs().img.count(file)) { api([&] { return MoorDyn_Close(md); }); md = nullptr; }
		MoorDyn n = apip([&] { return MoorDyn_Create(file); });
		if (!n) return MOORDYN_UNHANDLED_ERROR;
		int r = api([&] { return MoorDyn_Init(n, x, xd); });
		if (r) { api([&] { return MoorDyn_Close(n); }); return r; }
		md = n;
		return 0;
	}
	int step(const double* x, const double* xd, double* f, double* t, double* dt)
	{
		if (old) return api([&] { return MoorDynStep(x, xd, f, t, dt); });
		return api([&] { return MoorDyn_Step(md, x, xd, f, t, dt); });
	}
	int close()
	{
		if (old) return api([&] { return MoorDynClose(); });
		int r = api([&] { return MoorDyn_Close(md); });
		md = nullptr;
		return r;
	}
	int ext_init()
	{
		int n = 0; unsigned u = 0;
		if (old) { api([&] { n = externalWaveKinInit(); return 0; }); return n; }
		return api([&] { return MoorDyn_ExternalWaveKinInit(md, &u); }) ? 0 : (int)u;
	}
	void coords(double* r) { if (old) api([&] { getWaveKinCoordinates(r); return 0; }); else api([&] { return MoorDyn_ExternalWaveKinGetCoordinates(md, r); }); }
	void set(const double* U, const double* Ud, double t) { if (old) api([&] { setWaveKin(U, Ud, t); return 0; }); else api([&] { return MoorDyn_ExternalWaveKinSet(md, U, Ud, t); }); }
	double fair(int l)
	{
		double t = -1;
		if (old) { api([&] { t = GetFairTen(l); return 0; }); return t; }
		if (!md) return -1;
		MoorDynLine L = apip([&] { return MoorDyn_GetLine(md, (unsigned)l); });
		if (!L) return -1;
		api([&] { return MoorDyn_GetLineFairTen(L, &t); });
		return t;
	}
	int fast(int n, float* a, float* b, float* c, float* d) { return old ? api([&] { return GetFASTtens(&n, a, b, c, d); }) : md ? api([&] { return MoorDyn_GetFASTtens(md, &n, a, b, c, d); }) : MOORDYN_MEM_ERROR; }
	int ppos(int l, double* p) { return old ? api([&] { return GetPointPos(l, p); }) : md ? api([&] { return MoorDyn_GetPointPos(MoorDyn_GetPoint(md, (unsigned)l), p); }) : MOORDYN_MEM_ERROR; }
	int pforce(int l, double* p) { return old ? api([&] { return GetPointForce(l, p); }) : md ? api([&] { return MoorDyn_GetPointForce(MoorDyn_GetPoint(md, (unsigned)l), p); }) : MOORDYN_MEM_ERROR; }
	int npos(int l, int i, double* p) { return old ? api([&] { return GetNodePos(l, i, p); }) : md ? api([&] { return MoorDyn_GetLineNodePos(MoorDyn_GetLine(md, (unsigned)l), (unsigned)i, p); }) : MOORDYN_MEM_ERROR; }
};
std::string rep(std::string s, const std::string& a, const std::string& b)
{
	for (size_t i = 0; (i = s.find(a, i)) != std::string::npos; i += b.size()) s.replace(i, a.size(), b);
	return s;
}
} // namespace

PROPERTY(C16)
{
	int nm = S.range(1, 2);
	std::vector<Model> ms;
	std::vector<Motion> qs;
	for (int i = 0; i < nm; i++) {
		ModelOpts o;
		o.always_ic = true;
		o.max_lines = 2; o.max_segs = 5;
		o.external = S.chance(1, 4);
		o.logfile = S.chance(1, 4);
		ms.push_back(make_model(S, i ? "b" : "a", o));
		qs.push_back(make_motion(S, ms[i]));
		S.ev("model %d %s", i, ms[i].summary.c_str());
		S.mark(ms[i].summary);
	}
	int ns = S.range(1, 3);
	std::vector<Script> ss;
	for (int i = 0; i < ns; i++) {
		Script c;
		c.model = (int)S.draw((uint32_t)nm);
		const Model& m = ms[c.model];
		c.steps = S.range(0, 5);
		c.p = make_plan(S, m, qs[c.model], c.steps + 1, S.real(0.01, 0.06), 0.0, false);
		for (int k = 0; k <= c.steps; k++) { c.query.push_back((int)S.draw(64)); c.bad.push_back(S.chance(1, 6) ? 1 + (int)S.draw(5) : 0); }
		c.ext_init = m.waveKin == 1 && S.chance(7, 8);
		c.amp = S.rreal(0.1, 1.5, 0.1);
		c.end = S.chance(1, 3);
		ss.push_back(c);
	}
	// a start from a file that does not exist, in between (-1: none)
	int badstart = S.chance(1, 3) ? (int)S.draw((uint32_t)ns + 1) : -1;
	// the file is there, but nothing can be started from it
	const bool sunken = badstart >= 0 && S.chance(1, 2);
	const int asks = (int)S.draw(32);
	Model wrong;
	if (sunken) {
		wrong = ms[0];
		const std::string at = "/sim/w/";
		std::map<std::string, std::string> fl;
		for (auto& kv : wrong.files) fl[rep(kv.first, wrong.dir, at)] = rep(kv.second, wrong.dir, at);
		wrong.file = rep(wrong.file, wrong.dir, at);
		wrong.files.clear();
		for (auto& kv : fl) wrong.files[kv.first] = kv.second;
		std::string& t = wrong.files[wrong.file];
		size_t e = t.find(" WtrDpth\n"), b = e == std::string::npos ? e : t.rfind('\n', e) + 1;
		if (b != std::string::npos && !(asks & 16)) t.replace(b, e - b, "0.5");
	}
	bool defpath = S.chance(1, 5); // the first model at the default path
	FsImage files[2];
	std::vector<Ses> seen[2];
	std::vector<long> open_end;
	api([&] { return MoorDynClose(); }); // nothing is left of another run
	for (int face = 0; face < 2; face++) {
		fs().img.clear();
		for (auto& m : ms) m.install();
		if (defpath && face == 1) {
			const Model& m = ms[0];
			for (auto& kv : m.files) {
				std::string n = kv.first == m.file ? "Mooring/lines.txt" : rep(kv.first, m.dir, "Mooring/");
				fs().img[n] = kv.second;
			}
		}
		Face F{ face == 1 };
		bool live = false;
		for (int i = 0; i < ns; i++) {
			Script& c = ss[i];
			const Model& m = ms[c.model];
			Ses R;
			if (badstart == i) {
				double d[64] = { 0 };
				if (sunken) {
					wrong.install();
					std::vector<double> x = qs[0].x0;
					if (!x.empty() && (asks & 16)) x[0] = NAN;
					const int r = F.init(x.data(), d, wrong.file.c_str());
					R.rcs.push_back(r);
					S.ev("start of a model that cannot be: %d", r);
					if (!r) R.rcs.push_back(F.close());
					else { // nothing is open
						double dt = 0.01, tt = 0, p[3];
						std::vector<double> f(wrong.ncpl() + 64, 0.0);
						if (asks & 1) R.rcs.push_back(F.step(d, d, f.data(), &tt, &dt));
						if (asks & 2) R.add(F.fair(1), "GetFairTen with nothing open");
						if (asks & 4) R.rcs.push_back(F.npos(1, 0, p));
						if (asks & 8) R.rcs.push_back(F.close());
						if (face) S.fault("start that fails half way");
					}
					live = false;
				} else {
				R.rcs.push_back(F.init(d, d, "/sim/none/such.txt"));
				if (face) S.fault("start from a missing file");
				}
			}
			bool dp = defpath && face == 1 && c.model == 0;
			std::vector<double> f(m.ncpl() + 64, 0.0);
			const char* file = dp ? (i % 2 ? nullptr : "") : m.file.c_str();
			int r = F.init(c.p.x[0].data(), c.p.xd[0].data(), file);
			R.rcs.push_back(r);
			if (r) { if (!face) throw Discard{ fmt("init %d", r) }; seen[1].push_back(R); break; }
			if (live && face) S.fault("start over an open simulation");
			live = true;
			std::vector<double> rr, U, Ud;
			if (c.ext_init) {
				int n = F.ext_init();
				R.add(n, "points of external waves");
				rr.assign(3 * (size_t)n, 0.0);
			}
			double t = 0;
			for (int k = 0; k < c.steps; k++) {
				if (c.ext_init && !rr.empty()) {
					F.coords(rr.data());
					for (double x : rr) R.add(x, "coordinate of external waves");
					kin(rr, c.amp, t, U, Ud);
					F.set(U.data(), Ud.data(), t);
				}
				double dt = c.p.dt[k];
				r = F.step(c.p.x[k].data(), c.p.xd[k].data(), f.data(), &t, &dt);
				R.rcs.push_back(r);
				if (r) { if (!face) throw Discard{ "unstable" }; break; }
				R.add(t, "time"); R.add(dt, "dt");
				if (!face) S.simtime += dt;
				for (int j = 0; j < m.ncpl(); j++) R.add(f[j], fmt("coupling force %d", j));
				double p[3] = { 0, 0, 0 };
				int qm = c.query[k];
				if (qm & 1) for (size_t l = 1; l <= m.lines.size(); l++) R.add(F.fair((int)l), fmt("GetFairTen(%zu)", l));
				if (qm & 2) {
					std::vector<float> a(4 * m.lines.size() + 4, 0.f);
					size_t n = m.lines.size();
					R.rcs.push_back(F.fast((int)n, &a[0], &a[n], &a[2 * n], &a[3 * n]));
					for (size_t j = 0; j < 4 * n; j++) R.add(a[j], fmt("GetFASTtens value %zu", j));
				}
				if (qm & 4) for (size_t l = 1; l <= m.points.size(); l++) { R.rcs.push_back(F.ppos((int)l, p)); for (int j = 0; j < 3; j++) R.add(p[j], fmt("GetPointPos(%zu)", l)); }
				if (qm & 8) for (size_t l = 1; l <= m.points.size(); l++) { R.rcs.push_back(F.pforce((int)l, p)); for (int j = 0; j < 3; j++) R.add(p[j], fmt("GetPointForce(%zu)", l)); }
				if (qm & 16) for (size_t l = 1; l <= m.lines.size(); l++) for (int i2 = 0; i2 <= m.lines[l - 1].n; i2++) { R.rcs.push_back(F.npos((int)l, i2, p)); for (int j = 0; j < 3; j++) R.add(p[j], fmt("GetNodePos(%zu, %d)", l, i2)); }
				switch (c.bad[k]) {
					case 1: R.add(F.fair((int)m.lines.size() + 1), "GetFairTen of no line"); break;
					case 2: R.rcs.push_back(F.ppos((int)m.points.size() + 1, p)); break;
					case 3: R.rcs.push_back(F.npos(1, 1000, p)); break;
					case 4: R.rcs.push_back(F.pforce(0, p)); break;
					case 5: R.add(F.fair(0), "GetFairTen of no line"); break;
				}
				if (c.bad[k] && face) S.fault("query of an object that does not exist");
			}
			if (!(c.end && i + 1 < ns)) {
				R.rcs.push_back(F.close());
				live = false;
				double dt = 0.01, p[3];
				if (face) { // closed: nothing to step, nothing to ask
					if (F.step(c.p.x[0].data(), c.p.xd[0].data(), f.data(), &t, &dt) != MOORDYN_INVALID_VALUE) throw Violation{ "closed", "MoorDynStep works after MoorDynClose" };
					if (F.close() != MOORDYN_INVALID_VALUE) throw Violation{ "closed", "MoorDynClose works twice" };
					if (F.fair(1) != -1) throw Violation{ "closed", "GetFairTen answers after MoorDynClose" };
					if (F.npos(1, 0, p) != MOORDYN_MEM_ERROR) throw Violation{ "closed", "GetNodePos answers after MoorDynClose" };
				}
			}
			seen[face].push_back(R);
		}
		if (live) F.close();
		files[face] = fs().img;
	}
	S.nontrivial = true;
	for (auto& R : seen[0]) { S.obs(R.v.data(), R.v.size() * 8); for (double x : R.v) if (!std::isfinite(x)) throw Discard{ "unstable" }; }
	for (int i = 0; i < ns; i++) {
		if (i >= (int)seen[1].size()) throw Violation{ "session", fmt("session %d does not start", i + 1) };
		const Ses &a = seen[0][i], &b = seen[1][i];
		for (size_t k = 0; k < a.rcs.size(); k++)
			if (k >= b.rcs.size() || a.rcs[k] != b.rcs[k]) throw Violation{ "codes", fmt("session %d: call %zu returns %d, with the current interface %d", i + 1, k + 1, k < b.rcs.size() ? b.rcs[k] : -12345, a.rcs[k]) };
		if (a.v.size() != b.v.size()) throw Violation{ "values", fmt("session %d: %zu values instead of %zu", i + 1, b.v.size(), a.v.size()) };
		for (size_t k = 0; k < a.v.size(); k++)
			if (!same_bits(a.v[k], b.v[k])) throw Violation{ "values", fmt("session %d: %s is %.12g, with the current interface %.12g", i + 1, a.lab[k].c_str(), b.v[k], a.v[k]) };
	}
	for (auto& kv : files[0]) {
		std::string n = kv.first;
		if (n.size() > 4 && n.substr(n.size() - 4) == ".log") continue;
		bool in0 = defpath && n.rfind(ms[0].dir, 0) == 0;
		if (in0) { // what was written for the first model is found at the default path
			if (ms[0].files.count(n)) continue;
			n = rep(n, ms[0].base, "Mooring/lines");
		}
		auto it = files[1].find(n);
		if (it == files[1].end()) throw Violation{ "files", "file " + n + " is missing" };
		if (it->second != kv.second) {
			size_t k = 0;
			while (k < kv.second.size() && k < it->second.size() && kv.second[k] == it->second[k]) k++;
			throw Violation{ "files", fmt("file %s differs from the one of the current interface at byte %zu", n.c_str(), k) };
		}
	}
}
