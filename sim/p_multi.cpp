// C07 several simulations in one process
#include "plan.hpp"
#include "sched.hpp"
extern "C" {
#include "MoorDyn.h"
#include "Line.h"
#include "Point.h"
#include "Waves.h"
}
namespace {
enum { OP_CREATE, OP_INIT, OP_STEP, OP_KEEP, OP_BACK, OP_SAVE, OP_LOAD, OP_CLOSE, OP_BAD_CREATE, OP_BAD_CALL, OP_SCHEME, OP_WATER };
struct Seen {
	std::vector<int> rc;
	std::vector<Obs> obs;
	std::vector<std::vector<double>> f;
	std::map<std::string, std::string> files;
};
// What one caller does with its simulation, one call (and what it looks at) at a time
struct Prog {
	std::string name;
	Model m;
	Motion q;
	Plan p;
	bool legacy = false;
	std::vector<std::pair<int, int>> ops;
	// running
	Sys s;
	MoorDyn bad = nullptr;
	std::vector<uint64_t> kept;
	double tkept = 0;
	bool alive = false;
	size_t pc = 0;
	Seen seen;
	void rewind() { s = Sys(); kept.clear(); alive = false; pc = 0; seen = Seen(); }
	void look()
	{
		seen.obs.emplace_back();
		Obs& o = seen.obs.back();
		o.with_labels = true;
		if (!legacy) { s.observe(o); return; }
		for (size_t l = 0; l < m.lines.size(); l++) {
			double t = 0, r[3];
			api([&] { t = GetFairTen((int)l + 1); return 0; });
			o.add(t, "fairlead tension", (int)l, 0, 0);
			for (int i = 0; i <= m.lines[l].n; i++) { api([&] { return GetNodePos((int)l + 1, i, r); }); for (int c = 0; c < 3; c++) o.add(r[c], "node position", (int)l, i, c); }
		}
	}
	bool next()
	{
		if (pc >= ops.size()) return false;
		auto [op, arg] = ops[pc++];
		int r = 0;
		if (op != OP_CREATE && op != OP_BAD_CREATE && !alive) return true;
		switch (op) {
		case OP_CREATE:
			if (legacy) {
				std::vector<double> x, xd;
				q.at(0, x, xd);
				s = Sys(); s.m = &m; s.f.assign(m.ncpl() + 64, 0.0);
				r = api([&] { return MoorDynInit(x.data(), xd.data(), m.file.c_str()); });
				alive = r == 0;
			} else { s = Sys(); r = s.create(m) ? 0 : -1; alive = r == 0; }
			break;
		case OP_INIT: if (!legacy) { r = s.init(q); } look(); break;
		case OP_STEP: {
			if (legacy) { double dt = p.dt[arg]; r = api([&] { return MoorDynStep(p.x[arg].data(), p.xd[arg].data(), s.f.data(), &s.t, &dt); }); }
			else { command(s, p, arg); r = s.step_x(p.x[arg], p.xd[arg], p.dt[arg]); }
			seen.f.push_back(s.f);
			look();
			break;
		}
		case OP_KEEP: kept = s.serialize(&r); tkept = s.t; break;
		case OP_BACK: if (!kept.empty()) { r = s.deserialize(kept); s.t = tkept; look(); } break;
		case OP_SAVE: r = api([&] { return MoorDyn_Save(s.md, (m.dir + "check.point").c_str()); }); tkept = s.t; break;
		case OP_LOAD: if (fs().img.count(m.dir + "check.point")) { r = api([&] { return MoorDyn_Load(s.md, (m.dir + "check.point").c_str()); }); s.t = tkept; } break;
		case OP_CLOSE:
			if (legacy) r = api([&] { return MoorDynClose(); }); else r = s.close();
			alive = false;
			break;
		case OP_BAD_CREATE: {
			const std::string f = m.dir + (arg ? "none.txt" : "bad.txt");
			MoorDyn b = apip([&] { return MoorDyn_Create(f.c_str()); });
			if (b) { r = 1; api([&] { return MoorDyn_Close(b); }); }
			break;
		}
		case OP_BAD_CALL: {
			double d[3];
			MoorDynLine l = apip([&] { return MoorDyn_GetLine(s.md, 1000); });
			r = l ? 1 : api([&] { return MoorDyn_GetPointPos(nullptr, d); });
			break;
		}
		case OP_SCHEME: { static const char* n[] = { "RK4", "Euler", "Heun", "AB3", "BEuler3" }; r = api([&] { return MoorDyn_SetTimeScheme(s.md, n[arg]); }); kept.clear(); break; }
		case OP_WATER: {
			double U[3], A[3], z, pd;
			MoorDynWaves w = apip([&] { return MoorDyn_GetWaves(s.md); });
			r = api([&] { return MoorDyn_GetWavesKin(w, arg, 3, -5, U, A, &z, &pd, MoorDyn_GetSeafloor(s.md)); });
			seen.f.push_back({ U[0], U[1], U[2], A[0], A[1], A[2], z, pd });
			break;
		}
		}
		seen.rc.push_back(r);
		return true;
	}
	void finish() { for (auto& kv : fs().img) if (kv.first.compare(0, m.dir.size(), m.dir) == 0) seen.files.insert(kv); }
};
std::string differ(const Seen& a, const Seen& b)
{
	for (size_t i = 0; i < a.rc.size() && i < b.rc.size(); i++) if (a.rc[i] != b.rc[i]) return fmt("call %zu returns %d instead of %d", i + 1, b.rc[i], a.rc[i]);
	if (a.rc.size() != b.rc.size()) return "another number of calls";
	for (size_t i = 0; i < a.f.size() && i < b.f.size(); i++) for (size_t j = 0; j < a.f[i].size() && j < b.f[i].size(); j++)
		if (!same_bits(a.f[i][j], b.f[i][j])) return fmt("value %zu given by query or step %zu is %.17g instead of %.17g", j, i + 1, b.f[i][j], a.f[i][j]);
	for (size_t i = 0; i < a.obs.size() && i < b.obs.size(); i++) { std::string d = diff_obs(a.obs[i], b.obs[i]); if (!d.empty()) return fmt("look %zu: ", i + 1) + d; }
	if (a.obs.size() != b.obs.size() || a.f.size() != b.f.size()) return "another number of results";
	for (auto& kv : a.files) { auto it = b.files.find(kv.first); if (it == b.files.end()) return "file " + kv.first + " is missing"; if (it->second != kv.second) return "file " + kv.first + " has other contents"; }
	if (a.files.size() != b.files.size()) return "there are other files";
	return "";
}
}
PROPERTY(C07)
{
#ifdef SIM_SCHED
	const bool threads = true;
#else
	const bool threads = false;
#endif
	const int n = S.range(2, 4);
	std::vector<Prog> progs(n);
	std::vector<std::string> env; // share some of the shape of the models so that shared state would be hit by both
	const bool legacy = S.chance(1, 3);
	for (int i = 0; i < n; i++) {
		Prog& g = progs[i];
		g.name = std::string(1, (char)('a' + i));
		ModelOpts o; o.zero_rods = true; o.wide = false;
		g.legacy = legacy && i == 0;
		if (i > 0 && S.chance(1, 3)) o.schemes = { progs[0].m.scheme };
		g.m = make_model(S, g.name, o);
		if (g.legacy) g.m.noic = false;
		g.m.files[g.m.dir + "bad.txt"] = g.m.files[g.m.file].substr(0, S.draw((uint32_t)g.m.files[g.m.file].size()));
		g.q = make_motion(S, g.m, 1.5);
		const int lives = S.chance(1, 4) ? 2 : 1, steps = S.range(2, threads ? 4 : 8);
		g.p = make_plan(S, g.m, g.q, steps, 0.03, 0.0, !g.legacy);
		for (int l = 0; l < lives; l++) {
			if (!g.legacy && S.chance(1, 5)) g.ops.push_back({ OP_BAD_CREATE, (int)S.draw(2) });
			g.ops.push_back({ OP_CREATE, 0 });
			g.ops.push_back({ OP_INIT, 0 });
			for (int k = 0; k < steps; k++) {
				g.ops.push_back({ OP_STEP, k });
				if (g.legacy) continue;
				switch (S.draw(9)) {
				case 0: g.ops.push_back({ OP_KEEP, 0 }); break;
				case 1: g.ops.push_back({ OP_BACK, 0 }); break;
				case 2: g.ops.push_back({ OP_SAVE, 0 }); break;
				case 3: g.ops.push_back({ OP_LOAD, 0 }); break;
				case 4: g.ops.push_back({ OP_BAD_CALL, 0 }); break;
				case 5: g.ops.push_back({ OP_WATER, S.range(-20, 20) }); break;
				case 6: if (S.chance(1, 3)) g.ops.push_back({ OP_SCHEME, (int)S.draw(5) }); break;
				}
			}
			g.ops.push_back({ OP_CLOSE, 0 });
		}
	}
	for (auto& g : progs) {
		static const char* nm[] = { "create", "init", "step", "keep", "back", "save", "load", "close", "bad create", "bad call", "scheme", "water" };
		std::string l;
		for (auto& o : g.ops) l += std::string(l.empty() ? "" : ", ") + nm[o.first];
		S.ev("%s%s, %s: %s", g.name.c_str(), g.legacy ? " (legacy)" : "", g.m.scheme.c_str(), l.c_str());
	}
	auto install = [&] { fs().img.clear(); for (auto& g : progs) for (auto& kv : g.m.files) fs().img[kv.first] = kv.second; };
	// each of them alone
	std::vector<Seen> alone;
	for (auto& g : progs) {
		install();
		g.rewind();
		while (g.next()) {}
		g.finish();
		for (auto& ob : g.seen.obs) for (double d : ob.v) if (!std::isfinite(d)) throw Discard{ "unstable" };
		for (int r : g.seen.rc) if (r == ESCAPED) throw Discard{ "escape" };
		alone.push_back(g.seen);
	}
	// all of them together
	install();
	for (auto& g : progs) g.rewind();
	long inside = 0, turns = 0;
	if (threads) {
		static const std::vector<long> scale{ 30, 300, 3000, 30000, 300000 };
		const long sc = S.pick(scale);
		const bool mixed = S.chance(1, 3);
		long budget = 20000;
		auto burst = [&]() -> long {
			if (--budget < 0) return 1L << 40;
			long k = mixed ? scale[S.draw(5)] : sc;
			return 1 + (long)S.draw((uint32_t)(2 * k));
		};
		std::vector<std::function<void()>> tasks;
		for (auto& g : progs) tasks.push_back([&g] { while (g.next()) sched_point(); });
		inside = run_threads(S, tasks, burst);
		S.faults["preemption inside a library call"] += inside;
	} else {
		std::vector<int> live;
		for (int i = 0; i < n; i++) live.push_back(i);
		while (!live.empty()) {
			const size_t k = S.draw((uint32_t)live.size());
			Prog& g = progs[live[k]];
			S.mark(g.name);
			S.ev("turn of %s", g.name.c_str());
			turns++;
			if (!g.next()) live.erase(live.begin() + (long)k);
		}
		S.faults["switch between calls"] += turns;
	}
	for (auto& g : progs) g.finish();
	for (int i = 0; i < n; i++) {
		std::string d = differ(alone[i], progs[i].seen);
		if (!d.empty()) throw Violation{ "influence", fmt("simulation %s%s (one of %d %s) gives other results than alone: ", progs[i].name.c_str(), progs[i].legacy ? " (legacy interface)" : "", n, threads ? "in threads of their own" : "driven in turns") + d };
		for (auto& ob : alone[i].obs) trace_obs(S, ob);
		S.simtime += progs[i].s.t;
	}
	if (legacy) S.probe("one of them through the legacy interface");
	S.probe(fmt("%d simulations", n));
	S.nontrivial = threads ? inside > 0 : turns > 2;
}
