// C15 invalid calls
#include "plan.hpp"
#include <climits>
extern "C" {
#include "Line.h"
#include "Point.h"
#include "Rod.h"
#include "Body.h"
#include "Waves.h"
#include "Seafloor.h"
}
namespace {
struct Bad {
	Sim& S;
	const Model& m;
	MoorDyn md;
	bool started;
	void want(const char* what, int got, int exp)
	{
		S.fault(what);
		if (got == ESCAPED) throw Violation{ "escape", fmt("%s: an exception escaped: %s", what, g_escape.c_str()) };
		if (got != exp) throw Violation{ "code", fmt("%s returned %d instead of %d", what, got, exp) };
	}
	void want_err(const char* what, int got)
	{
		S.fault(what);
		if (got == ESCAPED) throw Violation{ "escape", fmt("%s: an exception escaped: %s", what, g_escape.c_str()) };
		if (got == MOORDYN_SUCCESS) throw Violation{ "code", fmt("%s returned success", what) };
	}
	template<class T> void want_null(const char* what, T got)
	{
		S.fault(what);
		if (got) throw Violation{ "code", fmt("%s returned an object", what) };
	}
	unsigned beyond(unsigned last) // an index after the last one
	{
		switch (S.draw(5)) {
			case 0: return last + 1;
			case 1: return last + 2;
			case 2: return last + 100;
			case 3: return UINT_MAX;
			default: return 0x80000000u;
		}
	}
	void null_system()
	{
		double d[64] = { 0 }; unsigned n = 0; float f[4] = { 0 }; int one = 0; size_t sz = 0; char nm[64]; uint64_t u[4] = { 0 };
		double t = 0, dt = 0.1;
		const int IV = MOORDYN_INVALID_VALUE;
#define N(call) want("null system: " #call, api([&] { return call; }), IV)
		switch (S.draw(27)) {
			case 0: N(MoorDyn_NCoupledDOF(NULL, &n)); break;
			case 1: N(MoorDyn_SetVerbosity(NULL, 1)); break;
			case 2: N(MoorDyn_SetLogFile(NULL, "/sim/x.log")); break;
			case 3: N(MoorDyn_SetLogLevel(NULL, 1)); break;
			case 4: N(MoorDyn_Log(NULL, 1, "x")); break;
			case 5: N(MoorDyn_Init(NULL, d, d)); break;
			case 6: N(MoorDyn_Init_NoIC(NULL, d, d)); break;
			case 7: N(MoorDyn_Step(NULL, d, d, d, &t, &dt)); break;
			case 8: N(MoorDyn_Close(NULL)); break;
			case 9: N(MoorDyn_ExternalWaveKinInit(NULL, &n)); break;
			case 10: N(MoorDyn_ExternalWaveKinGetN(NULL, &n)); break;
			case 11: N(MoorDyn_ExternalWaveKinGetCoordinates(NULL, d)); break;
			case 12: N(MoorDyn_ExternalWaveKinSet(NULL, d, d, 0)); break;
			case 13: N(MoorDyn_GetNumberBodies(NULL, &n)); break;
			case 14: N(MoorDyn_GetNumberRods(NULL, &n)); break;
			case 15: N(MoorDyn_GetNumberPoints(NULL, &n)); break;
			case 16: N(MoorDyn_GetNumberLines(NULL, &n)); break;
			case 17: N(MoorDyn_GetFASTtens(NULL, &one, f, f, f, f)); break;
			case 18: N(MoorDyn_GetDt(NULL, d)); break;
			case 19: N(MoorDyn_SetDt(NULL, 0.01)); break;
			case 20: N(MoorDyn_GetCFL(NULL, d)); break;
			case 21: N(MoorDyn_SetCFL(NULL, 0.5)); break;
			case 22: N(MoorDyn_GetTimeScheme(NULL, nm, &sz)); N(MoorDyn_SetTimeScheme(NULL, "RK4")); break;
			case 23: N(MoorDyn_Serialize(NULL, &sz, NULL)); N(MoorDyn_Deserialize(NULL, u)); break;
			case 24: N(MoorDyn_Save(NULL, "/sim/x.bin")); N(MoorDyn_Load(NULL, "/sim/x.bin")); break;
			case 25:
				want_null("null system: GetWaves", apip([&] { return MoorDyn_GetWaves(NULL); }));
				want_null("null system: GetSeafloor", apip([&] { return MoorDyn_GetSeafloor(NULL); }));
				break;
			default:
				want_null("null system: GetBody", apip([&] { return MoorDyn_GetBody(NULL, 1); }));
				want_null("null system: GetRod", apip([&] { return MoorDyn_GetRod(NULL, 1); }));
				want_null("null system: GetPoint", apip([&] { return MoorDyn_GetPoint(NULL, 1); }));
				want_null("null system: GetLine", apip([&] { return MoorDyn_GetLine(NULL, 1); }));
		}
	}
	void null_object()
	{
		double d[64] = { 0 }, m3[3][3], m6[6][6]; unsigned n = 0; int one = 0; MoorDynLine l;
		const int IV = MOORDYN_INVALID_VALUE;
#define O(call) want("null object: " #call, api([&] { return call; }), IV)
		switch (S.draw(12)) {
			case 0: O(MoorDyn_GetLineID(NULL, &one)); O(MoorDyn_GetLineN(NULL, &n)); O(MoorDyn_GetLineNumberNodes(NULL, &n)); break;
			case 1: O(MoorDyn_GetLineUnstretchedLength(NULL, d)); O(MoorDyn_SetLineUnstretchedLength(NULL, 50)); O(MoorDyn_SetLineUnstretchedLengthVel(NULL, 1)); break;
			case 2: O(MoorDyn_IsLineConstantEA(NULL, &one)); O(MoorDyn_GetLineConstantEA(NULL, d)); O(MoorDyn_SetLineConstantEA(NULL, 1e6)); break;
			case 3: O(MoorDyn_IsLinePressBend(NULL, &one)); O(MoorDyn_SetLinePressBend(NULL, 1)); O(MoorDyn_SetLinePressInt(NULL, d)); break;
			case 4: O(MoorDyn_GetLineNodePos(NULL, 0, d)); O(MoorDyn_GetLineNodeVel(NULL, 0, d)); O(MoorDyn_GetLineNodeForce(NULL, 0, d)); O(MoorDyn_GetLineNodeTen(NULL, 0, d)); break;
			case 5: O(MoorDyn_GetLineNodeBendStiff(NULL, 0, d)); O(MoorDyn_GetLineNodeWeight(NULL, 0, d)); O(MoorDyn_GetLineNodeDrag(NULL, 0, d)); O(MoorDyn_GetLineNodeFroudeKrilov(NULL, 0, d)); break;
			case 6: O(MoorDyn_GetLineNodeSeabedForce(NULL, 0, d)); O(MoorDyn_GetLineNodeCurv(NULL, 0, d)); O(MoorDyn_GetLineNodeM(NULL, 0, m3)); O(MoorDyn_GetLineFairTen(NULL, d)); O(MoorDyn_GetLineMaxTen(NULL, d)); break;
			case 7: O(MoorDyn_GetPointID(NULL, &one)); O(MoorDyn_GetPointType(NULL, &one)); O(MoorDyn_GetPointPos(NULL, d)); O(MoorDyn_GetPointVel(NULL, d)); O(MoorDyn_GetPointForce(NULL, d)); break;
			case 8: O(MoorDyn_GetPointM(NULL, m3)); O(MoorDyn_GetPointNAttached(NULL, &n)); O(MoorDyn_GetPointAttached(NULL, 0, &l, &one)); break;
			case 9: O(MoorDyn_GetRodID(NULL, &one)); O(MoorDyn_GetRodType(NULL, &one)); O(MoorDyn_GetRodForce(NULL, d)); O(MoorDyn_GetRodM(NULL, m6)); O(MoorDyn_GetRodN(NULL, &n)); O(MoorDyn_GetRodNumberNodes(NULL, &n)); O(MoorDyn_GetRodNodePos(NULL, 0, d)); O(MoorDyn_GetRodNodeVel(NULL, 0, d)); break;
			case 10: O(MoorDyn_GetBodyID(NULL, &one)); O(MoorDyn_GetBodyType(NULL, &one)); O(MoorDyn_GetBodyState(NULL, d, d)); O(MoorDyn_GetBodyPos(NULL, d)); O(MoorDyn_GetBodyAngle(NULL, d)); O(MoorDyn_GetBodyVel(NULL, d)); O(MoorDyn_GetBodyAngVel(NULL, d)); O(MoorDyn_GetBodyForce(NULL, d)); O(MoorDyn_GetBodyM(NULL, m6)); break;
			default: O(MoorDyn_GetWavesKin(NULL, 0, 0, 0, d, d, d, d, NULL)); O(MoorDyn_GetDepthAt(NULL, 0, 0, d)); O(MoorDyn_GetAverageDepth(NULL, d)); O(MoorDyn_GetMinDepth(NULL, d));
		}
	}
	void bad_index()
	{
		double d[64], m3[3][3];
		const int IV = MOORDYN_INVALID_VALUE;
#define R(call) want("out of range: " #call, api([&] { return call; }), IV)
		switch (S.draw(9)) {
			case 0: { unsigned i = S.chance(1, 3) ? 0u : beyond((unsigned)m.bodies.size()); want_null("out of range: GetBody", apip([&] { return MoorDyn_GetBody(md, i); })); break; }
			case 1: { unsigned i = S.chance(1, 3) ? 0u : beyond((unsigned)m.rods.size()); want_null("out of range: GetRod", apip([&] { return MoorDyn_GetRod(md, i); })); break; }
			case 2: { unsigned i = S.chance(1, 3) ? 0u : beyond((unsigned)m.points.size()); want_null("out of range: GetPoint", apip([&] { return MoorDyn_GetPoint(md, i); })); break; }
			case 3: { unsigned i = S.chance(1, 3) ? 0u : beyond((unsigned)m.lines.size()); want_null("out of range: GetLine", apip([&] { return MoorDyn_GetLine(md, i); })); break; }
			case 4: case 5: {
				if (m.lines.empty()) return;
				MoorDynLine l = apip([&] { return MoorDyn_GetLine(md, 1 + S.draw((uint32_t)m.lines.size())); });
				unsigned N = 0; api([&] { return MoorDyn_GetLineN(l, &N); });
				unsigned i = beyond(N);
				switch (S.draw(11)) {
					case 0: R(MoorDyn_GetLineNodePos(l, i, d)); break;
					case 1: R(MoorDyn_GetLineNodeVel(l, i, d)); break;
					case 2: R(MoorDyn_GetLineNodeForce(l, i, d)); break;
					case 3: R(MoorDyn_GetLineNodeTen(l, i, d)); break;
					case 4: R(MoorDyn_GetLineNodeBendStiff(l, i, d)); break;
					case 5: R(MoorDyn_GetLineNodeWeight(l, i, d)); break;
					case 6: R(MoorDyn_GetLineNodeDrag(l, i, d)); break;
					case 7: R(MoorDyn_GetLineNodeFroudeKrilov(l, i, d)); break;
					case 8: R(MoorDyn_GetLineNodeSeabedForce(l, i, d)); break;
					case 9: R(MoorDyn_GetLineNodeCurv(l, i, d)); break;
					default: R(MoorDyn_GetLineNodeM(l, i, m3));
				}
				break;
			}
			case 6: {
				if (m.rods.empty()) return;
				MoorDynRod r = apip([&] { return MoorDyn_GetRod(md, 1 + S.draw((uint32_t)m.rods.size())); });
				unsigned N = 0; api([&] { return MoorDyn_GetRodN(r, &N); });
				unsigned i = beyond(N);
				if (S.draw(2)) R(MoorDyn_GetRodNodePos(r, i, d)); else R(MoorDyn_GetRodNodeVel(r, i, d));
				break;
			}
			case 7: {
				if (m.points.empty()) return;
				MoorDynPoint p = apip([&] { return MoorDyn_GetPoint(md, 1 + S.draw((uint32_t)m.points.size())); });
				unsigned N = 0; api([&] { return MoorDyn_GetPointNAttached(p, &N); });
				unsigned i = S.chance(1, 3) ? N : beyond(N);
				MoorDynLine l; int e;
				R(MoorDyn_GetPointAttached(p, i, &l, &e));
				break;
			}
			default: {
				int n = S.chance(1, 3) ? -1 - (int)S.draw(3) : (int)m.lines.size() + 1 + (int)S.draw(3);
				std::vector<float> f(m.lines.size() + 16, 0.f);
				R(MoorDyn_GetFASTtens(md, &n, f.data(), f.data(), f.data(), f.data()));
			}
		}
	}
	void null_args(const Plan& p, int i)
	{
		const int IV = MOORDYN_INVALID_VALUE;
		std::vector<double> f(m.ncpl() + 64);
		const double *x = p.x[i].data(), *xd = p.xd[i].data();
		double t = 0, dt = 0.05;
#define A(call) want("null argument: " #call, api([&] { return call; }), IV)
		int k = S.draw(8);
		if (k == 0) { A(MoorDyn_Deserialize(md, NULL)); return; }
		if (k == 1) { want_err("null argument: SetTimeScheme", api([&] { return MoorDyn_SetTimeScheme(md, NULL); })); return; }
		if (k == 2) { want_err("null argument: Save", api([&] { return MoorDyn_Save(md, NULL); })); return; }
		if (k == 3) { want_err("null argument: Load", api([&] { return MoorDyn_Load(md, NULL); })); return; }
		if (k == 4) { want_err("null argument: Log", api([&] { return MoorDyn_Log(md, 1, NULL); })); return; }
		if (!started) {
			if (!m.ncpl()) return;
			if (k == 5) A(MoorDyn_Init(md, NULL, xd));
			else if (k == 6) A(MoorDyn_Init_NoIC(md, NULL, NULL));
			else A(MoorDyn_Init_NoIC(md, x, NULL));
			return;
		}
		if (k == 5) { if (S.draw(2)) A(MoorDyn_Step(md, x, xd, f.data(), NULL, &dt)); else A(MoorDyn_Step(md, x, xd, f.data(), &t, NULL)); return; }
		if (!m.ncpl()) return;
		if (S.chance(1, 4)) dt = 0;
		switch (S.draw(4)) {
			case 0: A(MoorDyn_Step(md, x, xd, NULL, &t, &dt)); break;
			case 1: if (dt > 0) A(MoorDyn_Step(md, NULL, xd, f.data(), &t, &dt)); break;
			case 2: if (dt > 0) A(MoorDyn_Step(md, x, NULL, f.data(), &t, &dt)); break;
			default: A(MoorDyn_Step(md, NULL, NULL, NULL, &t, &dt));
		}
	}
	void bad_value()
	{
		switch (S.draw(7)) {
			case 5: {
				static const std::vector<double> bad{ 0.0, -1.0, -1e-9, NAN, -INFINITY };
				double v = S.pick(bad);
				if (S.chance(1, 2)) want_err("time step that is not positive", api([&] { return MoorDyn_SetDt(md, v); }));
				else want_err("Courant number that is not positive", api([&] { return MoorDyn_SetCFL(md, v); }));
				break;
			}
			case 6: {
				double t = 0, dt = S.chance(1, 2) ? NAN : INFINITY;
				std::vector<double> x(m.x0.size() + 1, 0.0), f(m.x0.size() + 1, 0.0);
				if (!started) break;
				want_err("step that is not finite", api([&] { return MoorDyn_Step(md, x.data(), x.data(), f.data(), &t, &dt); }));
				break;
			}
			case 0: case 1: {
				static const std::vector<std::string> names{ "bogus", "", "RK5", "rk", "AB9", "Euler2", "BEuler", "ACA", "ieuler", " RK4", "Newmark5" };
				std::string nm = S.pick(names);
				if (nm == "Euler2" || nm == "BEuler" || nm == "ACA" || nm == "ieuler" || nm == "Newmark5" || nm == "AB9" || nm == " RK4") nm = "no-" + nm;
				want_err("unknown time scheme", api([&] { return MoorDyn_SetTimeScheme(md, nm.c_str()); }));
				char cur[64] = ""; size_t len = 0;
				api([&] { return MoorDyn_GetTimeScheme(md, cur, &len); });
				if (!strstr(cur, "order") && !*cur) throw Violation{ "scheme", "the name of the scheme is gone" };
				break;
			}
			case 2: want_err("load a missing file", api([&] { return MoorDyn_Load(md, "/sim/none/such.bin"); })); break;
			case 3: {
				fs().img["/sim/junk.bin"] = std::string("\x01\x02garbage that is no saved state", 30);
				want_err("load a foreign file", api([&] { return MoorDyn_Load(md, "/sim/junk.bin"); }));
				fs().img.erase("/sim/junk.bin");
				break;
			}
			default:
				want_null("create from a missing file", apip([&] { return MoorDyn_Create("/sim/none/such.txt"); }));
		}
	}
	void unsupported()
	{
		double d[3] = { 0, 0, 0 };
		unsigned n = 7;
		MoorDynLine l = m.lines.empty() ? nullptr : apip([&] { return MoorDyn_GetLine(md, 1); });
		switch (S.draw(4)) {
			case 0: want("unsupported: ExternalWaveKinSet", api([&] { return MoorDyn_ExternalWaveKinSet(md, d, d, 0.0); }), MOORDYN_INVALID_VALUE); break;
			case 1:
				if (!started) break;
				S.fault("unsupported: ExternalWaveKinInit");
				if (api([&] { return MoorDyn_ExternalWaveKinInit(md, &n); }) == MOORDYN_SUCCESS && n) throw Violation{ "code", fmt("ExternalWaveKinInit asks for %u points in a model without external waves", n) };
				break;
			case 2: want("unsupported: SaveVTK", api([&] { return MoorDyn_SaveVTK(md, "/sim/x.vtm"); }), MOORDYN_NON_IMPLEMENTED); break;
			default: if (l) want("unsupported: SaveLineVTK", api([&] { return MoorDyn_SaveLineVTK(l, "/sim/x.vtp"); }), MOORDYN_NON_IMPLEMENTED);
		}
	}
	void burst(const Plan& p, int i)
	{
		int n = S.range(0, 4);
		for (int k = 0; k < n; k++) {
			switch (S.draw(6)) {
				case 0: null_system(); break;
				case 1: null_object(); break;
				case 2: bad_index(); break;
				case 3: null_args(p, i); break;
				case 4: bad_value(); break;
				default: unsupported();
			}
		}
	}
};
struct R15 { std::vector<Obs> obs; std::vector<uint64_t> st; std::vector<std::vector<double>> f; FsImage files; std::string scheme; double dt = 0, cfl = 0; };
R15 run15(Sim& S, const Model& m, const Motion& q, const Plan& p, bool bad)
{
	R15 R;
	fs().img.clear();
	m.install();
	Sys s;
	if (!s.create(m)) throw Discard{ "create failed" };
	s.m = &m;
	Bad B{ S, m, s.md, false };
	if (bad) B.burst(p, 0);
	int r = s.init(q);
	if (r || !s.finite()) { if (bad) throw Violation{ "init", fmt("after invalid calls the start fails (%d)", r) }; throw Discard{ fmt("init %d", r) }; }
	B.started = true;
	for (size_t i = 0; i < p.dt.size(); i++) {
		if (bad) B.burst(p, (int)i);
		bool ok = do_step(s, p, (int)i);
		if (!ok) { if (bad) throw Violation{ "step", fmt("after invalid calls step %zu fails (%d)", i + 1, s.rc) }; throw Discard{ "unstable" }; }
		if (!bad) S.simtime += p.dt[i];
		R.f.push_back(s.f);
		R.obs.emplace_back(); R.obs.back().with_labels = true; s.observe(R.obs.back());
	}
	if (bad) B.burst(p, (int)p.dt.size() - 1);
	R.st = s.serialize();
	char nm[128] = ""; size_t len = 0;
	api([&] { return MoorDyn_GetTimeScheme(s.md, nm, &len); });
	R.scheme = nm;
	api([&] { return MoorDyn_GetDt(s.md, &R.dt); });
	api([&] { return MoorDyn_GetCFL(s.md, &R.cfl); });
	int c = s.close();
	if (c) throw Violation{ "close", fmt("close returns %d", c) };
	R.files = fs().img;
	return R;
}
} // namespace

PROPERTY(C15)
{
	ModelOpts o; o.zero_rods = true;
	o.max_lines = 2;
	o.max_segs = 4;
	Model m = make_model(S, "a", o);
	S.ev("model %s", m.summary.c_str());
	S.mark(m.summary);
	Motion q = make_motion(S, m);
	Plan p = make_plan(S, m, q, S.range(1, 5), S.real(0.01, 0.05), 0.0, true);
	R15 a = run15(S, m, q, p, false);
	for (auto& ob : a.obs) trace_obs(S, ob);
	R15 b = run15(S, m, q, p, true);
	S.nontrivial = !S.faults.empty();
	if (a.scheme != b.scheme) throw Violation{ "settings", "the time scheme is '" + b.scheme + "' instead of '" + a.scheme + "'" };
	if (!same_bits(a.dt, b.dt) || !same_bits(a.cfl, b.cfl)) throw Violation{ "settings", "the time step or CFL factor changed" };
	for (size_t i = 0; i < a.obs.size(); i++) {
		std::string d = diff_obs(a.obs[i], b.obs[i]);
		if (!d.empty()) throw Violation{ "state", fmt("with invalid calls in between, after step %zu: ", i + 1) + d };
		for (size_t k = 0; k < (size_t)m.ncpl(); k++) if (!same_bits(a.f[i][k], b.f[i][k])) throw Violation{ "state", fmt("after step %zu the coupling force %zu differs", i + 1, k) };
	}
	if (a.st != b.st) throw Violation{ "state", "with invalid calls in between, the captured state differs" };
	for (auto& kv : a.files) {
		if (kv.first.size() > 4 && kv.first.substr(kv.first.size() - 4) == ".log") continue;
		auto it = b.files.find(kv.first);
		if (it == b.files.end()) throw Violation{ "files", "file " + kv.first + " is missing" };
		if (it->second != kv.second) throw Violation{ "files", "file " + kv.first + " differs" };
	}
	for (auto& kv : b.files)
		if (!a.files.count(kv.first)) throw Violation{ "files", "an invalid call created " + kv.first };
}
