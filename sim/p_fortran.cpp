// C27 a host written in Fortran drives the same simulator
#ifdef SIM_F
#include "plan.hpp"
#include "fhost.hpp"
#include <functional>

extern "C" {
void* fh_create(const char*, int);
int fh_string(int, void*, const char*, int);
int fh_log(void*, int, const char*, int);
int fh_int(int, void*, int*);
int fh_real(int, void*, double*);
int fh_vec(int, void*, int, double*);
int fh_node(int, void*, int, int, double*);
int fh_set(int, void*, const double*);
int fh_iset(int, void*, int);
void* fh_obj(int, void*, int);
void* fh_waves(void*);
void* fh_floor(void*);
int fh_close(void*);
int fh_init(int, void*, int, const double*, const double*);
int fh_step(void*, int, const double*, const double*, double*, double*, double*);
int fh_ext(void*, int, const double*, const double*, const double*);
int fh_fast(void*, int*, double*, double*, double*, double*);
int fh_attached(void*, int, void**, int*);
int fh_state(void*, double*, double*);
int fh_curv(void*, int, double*);
int fh_depth(void*, double, double, double*);
int fh_kin(void*, double, double, double, double, double*, double*, double*, double*, void*);
}

namespace {
// leave another number where a real number passed by value would be: a value that the Fortran module passes by address by mistake must not be found there
__attribute__((noinline)) double stale_number(double a) { asm volatile("" ::: "memory"); return a * 1.0e3 + 77.25; }
volatile double g_stale = 1.5;
void stale() { g_stale = stale_number(1.5); }
std::vector<std::string> split_lines(const std::string& s)
{
	std::vector<std::string> v;
	for (size_t i = 0; i < s.size();) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; }
	return v;
}
struct FHost {
	Sim& S;
	const Model& m;
	Sys c; // the same simulation, seen from C
	FHost(Sim& s, const Model& mm) : S(s), m(mm) { c.m = &m; c.f.assign(m.ncpl() + 64, 0.0); }
	// names come in variables of a fixed length, padded with blanks
	std::string padded(const std::string& s) { return s + std::string(S.draw(3) * S.draw(40), ' '); }
	void same(const std::string& what, int rf, const std::vector<double>& f, int rc, const std::vector<double>& k)
	{
		if (rf == ESCAPED || rc == ESCAPED) throw Violation{ "escape", what + ": " + g_escape };
		if (rf != rc) throw Violation{ "value", fmt("%s returns %d where the C interface returns %d", what.c_str(), rf, rc) };
		if (rc) return;
		for (size_t i = 0; i < k.size(); i++) if (!same_bits(f[i], k[i])) throw Violation{ "value", fmt("%s: number %zu is %.9g, the C interface says %.9g", what.c_str(), i + 1, f[i], k[i]) };
	}
	typedef std::function<int(double*)> Q;
	void ask(const std::string& what, int n, Q f, Q k)
	{
		std::vector<double> a(n + 2, -777.0), b(n, 0.0);
		const int rf = api([&] { return f(a.data()); }), rc = api([&] { return k(b.data()); });
		same(what, rf, a, rc, b);
		if (a[n] != -777.0 || a[n + 1] != -777.0) throw Violation{ "value", what + " writes past its array" };
	}
	void num(const char* what, int w, void* o, std::function<int(int*)> k) { ask(what, 1, [&](double* d) { int i = 0, r = fh_int(w, o, &i); d[0] = i; return r; }, [&](double* d) { int i = 0, r = k(&i); d[0] = i; return r; }); }
	void compare(int share)
	{
		auto sel = [&] { return S.chance((uint32_t)share, 100); };
		void* s = c.md;
#define UINT(F, o) if (sel()) num(#F, FI_##F, (void*)(o), [&](int* i) { return MoorDyn_##F(o, (unsigned*)i); })
#define SINT(F, o) if (sel()) num(#F, FI_##F, (void*)(o), [&](int* i) { return MoorDyn_##F(o, i); })
#define REAL(F, o) if (sel()) ask(#F, 1, [&](double* d) { return fh_real(FR_##F, (void*)(o), d); }, [&](double* d) { return MoorDyn_##F(o, d); })
#define VEC(F, o, n) if (sel()) ask(#F, n, [&](double* d) { return fh_vec(FV_##F, (void*)(o), n, d); }, [&](double* d) { return MoorDyn_##F(o, d); })
#define MAT(F, o, k) if (sel()) ask(#F, k * k, [&](double* d) { return fh_vec(FV_##F, (void*)(o), k * k, d); }, [&](double* d) { return MoorDyn_##F(o, (double(*)[k])d); })
#define NODE(F, o, i) if (sel()) ask(fmt(#F " of node %d", i), 3, [&](double* d) { return fh_node(FN_##F, (void*)(o), i, 3, d); }, [&](double* d) { return MoorDyn_##F(o, (unsigned)(i), d); })
		UINT(NCoupledDOF, c.md); UINT(ExternalWaveKinGetN, c.md);
		UINT(GetNumberBodies, c.md); UINT(GetNumberRods, c.md); UINT(GetNumberPoints, c.md); UINT(GetNumberLines, c.md);
		auto obj = [&](const char* what, int w, int n, std::function<void*(unsigned)> k) {
			for (int i = 0; i <= n + 1; i++) if (sel()) {
				void *a = apip([&] { return fh_obj(w, s, i); }), *b = apip([&] { return k((unsigned)i); });
				if (a != b) throw Violation{ "value", fmt("%s(%d) hands out another object", what, i) };
			}
		};
		obj("MD_GetBody", FO_GetBody, (int)m.bodies.size(), [&](unsigned i) { return (void*)MoorDyn_GetBody(c.md, i); });
		obj("MD_GetRod", FO_GetRod, (int)m.rods.size(), [&](unsigned i) { return (void*)MoorDyn_GetRod(c.md, i); });
		obj("MD_GetPoint", FO_GetPoint, (int)m.points.size(), [&](unsigned i) { return (void*)MoorDyn_GetPoint(c.md, i); });
		obj("MD_GetLine", FO_GetLine, (int)m.lines.size(), [&](unsigned i) { return (void*)MoorDyn_GetLine(c.md, i); });
		for (size_t i = 0; i < m.bodies.size(); i++) {
			auto o = MoorDyn_GetBody(c.md, (unsigned)i + 1);
			SINT(GetBodyID, o); SINT(GetBodyType, o);
			if (sel()) ask("GetBodyState", 12, [&](double* d) { return fh_state(o, d, d + 6); }, [&](double* d) { return MoorDyn_GetBodyState(o, d, d + 6); });
			VEC(GetBodyPos, o, 3); VEC(GetBodyAngle, o, 3); VEC(GetBodyVel, o, 3); VEC(GetBodyAngVel, o, 3); VEC(GetBodyForce, o, 6); MAT(GetBodyM, o, 6);
		}
		for (size_t i = 0; i < m.rods.size(); i++) {
			auto o = MoorDyn_GetRod(c.md, (unsigned)i + 1);
			SINT(GetRodID, o); SINT(GetRodType, o); UINT(GetRodN, o); UINT(GetRodNumberNodes, o); VEC(GetRodForce, o, 6); MAT(GetRodM, o, 6);
			for (int n = -1; n <= m.rods[i].n + 1; n++) { NODE(GetRodNodePos, o, n); NODE(GetRodNodeVel, o, n); }
		}
		for (size_t i = 0; i < m.points.size(); i++) {
			auto o = MoorDyn_GetPoint(c.md, (unsigned)i + 1);
			SINT(GetPointID, o); SINT(GetPointType, o); UINT(GetPointNAttached, o); VEC(GetPointPos, o, 3); VEC(GetPointVel, o, 3); VEC(GetPointForce, o, 3); MAT(GetPointM, o, 3);
			unsigned na = 0;
			MoorDyn_GetPointNAttached(o, &na);
			for (int n = 0; n <= (int)na; n++) if (sel()) {
				void* lf = nullptr; int ef = -7, ec = -7; MoorDynLine lc = nullptr;
				int rf = api([&] { return fh_attached(o, n, &lf, &ef); }), rc = api([&] { return MoorDyn_GetPointAttached(o, (unsigned)n, &lc, &ec); });
				same("GetPointAttached", rf, { lf == (void*)lc ? 1.0 : 0.0, (double)ef }, rc, { 1.0, (double)ec });
			}
		}
		for (size_t i = 0; i < m.lines.size(); i++) {
			auto o = MoorDyn_GetLine(c.md, (unsigned)i + 1);
			SINT(GetLineID, o); UINT(GetLineN, o); UINT(GetLineNumberNodes, o); SINT(IsLineConstantEA, o); SINT(IsLinePressBend, o);
			REAL(GetLineConstantEA, o); REAL(GetLineUnstretchedLength, o); REAL(GetLineFairTen, o); REAL(GetLineMaxTen, o);
			for (int n = -1; n <= m.lines[i].n + 1; n++) {
				NODE(GetLineNodePos, o, n); NODE(GetLineNodeVel, o, n); NODE(GetLineNodeForce, o, n); NODE(GetLineNodeTen, o, n); NODE(GetLineNodeBendStiff, o, n);
				NODE(GetLineNodeWeight, o, n); NODE(GetLineNodeDrag, o, n); NODE(GetLineNodeFroudeKrilov, o, n); NODE(GetLineNodeSeabedForce, o, n);
				if (sel()) ask(fmt("GetLineNodeM of node %d", n), 9, [&](double* d) { return fh_node(FN_GetLineNodeM, o, n, 9, d); }, [&](double* d) { return MoorDyn_GetLineNodeM(o, (unsigned)n, (double(*)[3])d); });
				if (sel()) ask(fmt("GetLineNodeCurv of node %d", n), 1, [&](double* d) { return fh_curv(o, n, d); }, [&](double* d) { return MoorDyn_GetLineNodeCurv(o, (unsigned)n, d); });
			}
		}
		if (sel()) {
			int n = (int)m.lines.size() + (S.chance(1, 6) ? 1 : 0), n2 = n;
			std::vector<double> a(4 * (size_t)n, 0.0);
			std::vector<float> b(4 * (size_t)n, 0.0f);
			int rf = api([&] { return fh_fast(s, &n2, &a[0], &a[n], &a[2 * n], &a[3 * n]); }), rc = api([&] { return MoorDyn_GetFASTtens(c.md, &n, &b[0], &b[n], &b[2 * n], &b[3 * n]); });
			same("GetFASTtens", rf, a, rc, std::vector<double>(b.begin(), b.end()));
		}
		auto w = apip([&] { return MoorDyn_GetWaves(c.md); });
		auto fl = apip([&] { return MoorDyn_GetSeafloor(c.md); });
		if (apip([&] { return fh_waves(s); }) != (void*)w) throw Violation{ "value", "MD_GetWaves hands out another object" };
		if (apip([&] { return fh_floor(s); }) != (void*)fl) throw Violation{ "value", "MD_GetSeafloor hands out another object" };
		if (w && sel()) {
			const double x = S.real(-60, 60), y = S.real(-60, 60), z = S.real(-30, 5);
			void* g = S.chance(1, 2) ? (void*)fl : nullptr;
			ask("GetWavesKin", 8, [&](double* d) { return fh_kin(w, x, y, z, c.t, d, d + 3, d + 6, d + 7, g); }, [&](double* d) { return MoorDyn_GetWavesKin(w, x, y, z, d, d + 3, d + 6, d + 7, (MoorDynSeafloor)g); });
		}
		if (fl && sel()) {
			const double x = S.real(-80, 80), y = S.real(-80, 80);
			ask("GetDepthAt", 1, [&](double* d) { return fh_depth(fl, x, y, d); }, [&](double* d) { return MoorDyn_GetDepthAt(fl, x, y, d); });
			REAL(GetAverageDepth, fl); REAL(GetMinDepth, fl);
		}
		if (sel()) {
			const std::string to = m.dir + "x.vtp";
			auto code = [&](const char* what, int which, void* o, int rc) {
				const std::string p = padded(to);
				int rf = api([&] { return fh_string(which, o, p.data(), (int)p.size()); });
				if (rf != rc) throw Violation{ "value", fmt("%s returns %d where the C interface returns %d", what, rf, rc) };
			};
			code("SaveVTK", FT_SaveVTK, s, api([&] { return MoorDyn_SaveVTK(c.md, to.c_str()); }));
			if (m.bodies.size()) { auto o = MoorDyn_GetBody(c.md, 1); code("SaveBodyVTK", FT_SaveBodyVTK, o, api([&] { return MoorDyn_SaveBodyVTK(o, to.c_str()); })); code("UseBodyVTK", FT_UseBodyVTK, o, api([&] { return MoorDyn_UseBodyVTK(o, to.c_str()); })); }
			if (m.rods.size()) { auto o = MoorDyn_GetRod(c.md, 1); code("SaveRodVTK", FT_SaveRodVTK, o, api([&] { return MoorDyn_SaveRodVTK(o, to.c_str()); })); }
			if (m.points.size()) { auto o = MoorDyn_GetPoint(c.md, 1); code("SavePointVTK", FT_SavePointVTK, o, api([&] { return MoorDyn_SavePointVTK(o, to.c_str()); })); }
			auto o = MoorDyn_GetLine(c.md, 1);
			code("SaveLineVTK", FT_SaveLineVTK, o, api([&] { return MoorDyn_SaveLineVTK(o, to.c_str()); }));
		}
	}
	void command(const Plan& p, int i)
	{
		const int l = p.payline[i];
		if (l < 0) return;
		const double v = p.payrate[i];
		auto o = MoorDyn_GetLine(c.md, (unsigned)l + 1);
		int r = 0;
		if (p.paymode[i] == 0) r = api([&] { stale(); return fh_set(FS_SetLineUnstretchedLengthVel, o, &v); });
		if (p.paymode[i] == 1) r = api([&] { stale(); return fh_set(FS_SetLineUnstretchedLength, o, &v); });
		if (p.paymode[i] == 2) r = api([&] { stale(); return fh_set(FS_SetLineConstantEA, o, &v); });
		if (p.paymode[i] == 3) {
			if (v < 0) r = api([&] { return fh_iset(FJ_SetLinePressBend, o, 0); });
			else {
				std::vector<double> pin(m.lines[l].n + 1, v);
				r = api([&] { return fh_vec(FV_SetLinePressInt, o, (int)pin.size(), pin.data()); });
				if (!r) r = api([&] { return fh_iset(FJ_SetLinePressBend, o, 1); });
			}
		}
		if (r) throw Violation{ "command", fmt("a command to line %d returns %d", l + 1, r) };
	}
};
} // namespace

PROPERTY(C27)
{
	ModelOpts o;
	o.external = S.chance(1, 4);
	o.zero_rods = true;
	o.logfile = false;
	Model m = make_model(S, "a", o);
	const bool ext = o.external;
	m.install();
	S.ev("model %s", m.summary.c_str());
	S.mark(m.summary);
	Motion q = make_motion(S, m);
	const int n = S.range(1, 8);
	Plan p = make_plan(S, m, q, n, S.real(0.01, 0.06), 0.0, true);
	for (int i = 0; i < n; i++) { p.x[i].resize(m.ncpl()); p.xd[i].resize(m.ncpl()); }
	const uint32_t salt = S.draw(100000);
	std::vector<int> sup(n);
	for (int& k : sup) k = S.chance(2, 3);
	auto water = [&](int step, int what, unsigned nw) {
		std::vector<double> v(3 * nw + 1, 0.0);
		for (size_t k = 0; k < 3 * (size_t)nw; k++) {
			uint64_t h = fnv(FNV0, &k, sizeof k);
			h = fnv(h, &step, sizeof step); h = fnv(h, &what, sizeof what); h = fnv(h, &salt, sizeof salt);
			v[k] = 0.5 * ((double)(h >> 16 & 0xffff) / 32768.0 - 1.0);
		}
		return v;
	};
	const bool logs = S.chance(1, 3);
	const std::string logname = m.dir + "own.log";
	const int level = S.range(0, 3), msg = S.range(0, 3);
	const FsImage disk = fs().img;
	// a host in C
	std::vector<Obs> ref(n);
	std::vector<double> T(1, 0.0);
	std::vector<uint64_t> end;
	FsImage files;
	{
		Sys s;
		if (!s.create(m)) throw Discard{ "refused" };
		if (logs) {
			api([&] { return MoorDyn_SetLogLevel(s.md, level); });
			api([&] { return MoorDyn_SetLogFile(s.md, logname.c_str()); });
			api([&] { return MoorDyn_Log(s.md, msg, "a word from the host\n"); });
		}
		if (s.init(q)) throw Discard{ "init" };
		unsigned nw = 0;
		if (ext && api([&] { return MoorDyn_ExternalWaveKinInit(s.md, &nw); })) throw Discard{ "external waves" };
		for (int i = 0; i < n; i++) {
			if (ext && sup[i]) { auto U = water(i, 0, nw), A = water(i, 1, nw); api([&] { return MoorDyn_ExternalWaveKinSet(s.md, U.data(), A.data(), s.t); }); }
			if (!do_step(s, p, i)) throw Discard{ "unstable" };
			ref[i].with_labels = true;
			s.observe(ref[i]);
			trace_obs(S, ref[i]);
			S.simtime += p.dt[i];
			T.push_back(s.t);
		}
		end = s.serialize();
		s.close();
		files = fs().img;
	}
	// the same in Fortran
	fs().img = disk;
	FHost h(S, m);
	{
		const std::string f = h.padded(m.file);
		h.c.md = (MoorDyn)apip([&] { return fh_create(f.data(), (int)f.size()); });
		if (!h.c.md) throw Violation{ "create", "MD_Create fails" };
		S.mark(f.size() > m.file.size() ? "padded" : "plain");
	}
	if (logs) {
		const std::string f = h.padded(logname);
		int r1 = api([&] { return fh_iset(FJ_SetLogLevel, h.c.md, level); });
		int r2 = api([&] { return fh_string(FT_SetLogFile, h.c.md, f.data(), (int)f.size()); });
		int r3 = api([&] { return fh_log(h.c.md, msg, "a word from the host\n", 21); });
		if (r1 || r2 || r3) throw Violation{ "log", fmt("MD_SetLogLevel, MD_SetLogFile and MD_Log return %d %d %d", r1, r2, r3) };
		S.probe("own log file");
	}
	if (S.chance(1, 4)) { int r = api([&] { return fh_iset(FJ_SetVerbosity, h.c.md, S.range(0, 3)); }); if (r) throw Violation{ "log", fmt("MD_SetVerbosity returns %d", r) }; }
	std::vector<double> x, xd;
	q.at(0, x, xd);
	x.resize(m.ncpl()); xd.resize(m.ncpl());
	int r = api([&] { return fh_init(m.noic, h.c.md, m.ncpl(), x.data(), xd.data()); });
	if (r) throw Violation{ "init", fmt("MD_Init returns %d", r) };
	int nw = 0;
	if (ext) {
		r = api([&] { return fh_int(FI_ExternalWaveKinInit, h.c.md, &nw); });
		unsigned k = 0;
		api([&] { return MoorDyn_ExternalWaveKinGetN(h.c.md, &k); });
		if (r || nw != (int)k) throw Violation{ "external", fmt("MD_ExternalWaveKinInit returns %d and %d points of %u", r, nw, k) };
	}
	for (int i = 0; i < n; i++) {
		if (ext) {
			h.ask("ExternalWaveKinGetCoordinates", 3 * nw, [&](double* d) { return fh_vec(FV_ExternalWaveKinGetCoordinates, h.c.md, 3 * nw, d); }, [&](double* d) { return MoorDyn_ExternalWaveKinGetCoordinates(h.c.md, d); });
			if (sup[i]) { auto U = water(i, 0, nw), A = water(i, 1, nw); r = api([&] { stale(); return fh_ext(h.c.md, 3 * nw, U.data(), A.data(), &T[i]); }); if (r) throw Violation{ "external", fmt("MD_ExternalWaveKinSet returns %d", r) }; }
		}
		h.command(p, i);
		double t = T[i], dt = p.dt[i];
		std::fill(h.c.f.begin(), h.c.f.end(), 0.0);
		r = api([&] { return fh_step(h.c.md, m.ncpl(), p.x[i].data(), p.xd[i].data(), h.c.f.data(), &t, &dt); });
		if (r) throw Violation{ "step", fmt("step %d returns %d", i + 1, r) };
		if (!same_bits(t, T[i + 1]) || !same_bits(dt, p.dt[i])) throw Violation{ "step", fmt("step %d: the time comes back as %.17g instead of %.17g", i + 1, t, T[i + 1]) };
		h.c.t = t;
		Obs ob;
		ob.with_labels = true;
		h.c.observe(ob);
		std::string d = diff_obs(ref[i], ob);
		if (!d.empty()) throw Violation{ "step", fmt("after step %d: ", i + 1) + d };
		h.compare(S.chance(1, 4) ? 100 : 15);
		if (S.chance(1, 4)) {
			auto st = h.c.serialize();
			const bool full = S.chance(1, 3);
			bool hit = false;
			const std::string to = h.padded(m.dir + "f.bin");
			if (full) { long at = fs().nops + (long)S.draw(4); fs().hook = [&hit, at](const FsOp& op) { FsAct a; if (op.index >= at && op.kind == FS_WRITE) { hit = true; a.kind = FA_ERR; a.err = ENOSPC; } return a; }; }
			r = api([&] { return fh_string(FT_Save, h.c.md, to.data(), (int)to.size()); });
			fs().hook = nullptr;
			if (full) S.fault("full disk during MD_Save");
			if (hit && !r) throw Violation{ "save", "MD_Save returns success although the disk was full" };
			if (!hit && r) throw Violation{ "save", fmt("MD_Save returns %d on a healthy disk", r) };
			if (!r) {
				double t2 = t, dt2 = p.dt[i];
				std::vector<double> v2 = p.xd[i], f2(m.ncpl() + 1);
				for (double& z : v2) z += 0.3;
				api([&] { return fh_step(h.c.md, m.ncpl(), p.x[i].data(), v2.data(), f2.data(), &t2, &dt2); });
				r = api([&] { return fh_string(FT_Load, h.c.md, to.data(), (int)to.size()); });
				if (r) throw Violation{ "save", fmt("MD_Load returns %d", r) };
				if (h.c.serialize() != st) throw Violation{ "save", "the state restored is not the one saved" };
				S.fault("rollback");
				files.clear(); // what was written in between stays in the files
			}
			const std::string no = h.padded(m.dir + "nothing.bin");
			r = api([&] { return fh_string(FT_Load, h.c.md, no.data(), (int)no.size()); });
			S.fault("misuse: a file that is not there");
			if (!r) throw Violation{ "misuse", "MD_Load of a file that is not there returns success" };
			if (h.c.serialize() != st) throw Violation{ "misuse", "a refused MD_Load changes the state" };
		}
	}
	if (h.c.serialize() != end) throw Violation{ "step", "the state at the end is not that of a host in C" };
	r = api([&] { return fh_close(h.c.md); });
	h.c.md = nullptr;
	if (r) throw Violation{ "close", fmt("MD_Close returns %d", r) };
	if (!files.empty()) {
		for (auto& kv : files) {
			auto it = fs().img.find(kv.first);
			bool same = it != fs().img.end() && it->second == kv.second;
			if (!same && kv.first == logname && it != fs().img.end()) { // the log also has what the refused calls complained about
				auto have = split_lines(it->second);
				size_t k = 0;
				same = true;
				for (auto& l : split_lines(kv.second)) { if (l.find("t = ") != l.npos) continue; while (k < have.size() && have[k] != l) k++; same = same && k++ < have.size(); }
			}
			if (!same) throw Violation{ "files", "file " + kv.first + " is not the one a host in C gets" };
		}
		S.probe("files compared");
	}
	S.nontrivial = true;
	S.probe("scheme " + m.scheme);
}
#endif
