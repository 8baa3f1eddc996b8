// C11 imposed motion and attachments
#include "plan.hpp"
#include <algorithm>

namespace {
const double DEG = 3.14159265358979323846 / 180.0;
struct Frame { Vec3 p, ang, v, w; };
Frame body_frame(const Sys& s, int i)
{
	double r[6], v[6];
	for (int k = 0; k < 6; k++) r[k] = v[k] = NAN;
	api([&] { return MoorDyn_GetBodyState(MoorDyn_GetBody(s.md, (unsigned)i + 1), r, v); });
	return { { r[0], r[1], r[2] }, { r[3], r[4], r[5] }, { v[0], v[1], v[2] }, { v[3], v[4], v[5] } };
}
void rod_node(const Sys& s, int i, int n, Vec3& p, Vec3& v)
{
	double r[3] = { NAN, NAN, NAN }, d[3] = { NAN, NAN, NAN };
	api([&] { return MoorDyn_GetRodNodePos(MoorDyn_GetRod(s.md, (unsigned)i + 1), (unsigned)n, r); });
	api([&] { return MoorDyn_GetRodNodeVel(MoorDyn_GetRod(s.md, (unsigned)i + 1), (unsigned)n, d); });
	p = { r[0], r[1], r[2] }; v = { d[0], d[1], d[2] };
}
void point(const Sys& s, int i, Vec3& p, Vec3& v)
{
	double r[3] = { NAN, NAN, NAN }, d[3] = { NAN, NAN, NAN };
	api([&] { return MoorDyn_GetPointPos(MoorDyn_GetPoint(s.md, (unsigned)i + 1), r); });
	api([&] { return MoorDyn_GetPointVel(MoorDyn_GetPoint(s.md, (unsigned)i + 1), d); });
	p = { r[0], r[1], r[2] }; v = { d[0], d[1], d[2] };
}
struct Checker {
	const Model& m;
	const Sys& s;
	std::string when;
	void same(Vec3 a, Vec3 b, double tol, const char* cls, const std::string& what) const
	{
		double d = norm(a - b);
		if (!(d <= tol)) throw Violation{ cls, when + ": " + what + fmt(": (%.10g, %.10g, %.10g) instead of (%.10g, %.10g, %.10g)", b.x, b.y, b.z, a.x, a.y, a.z) };
	}
	// x: positions at the end, v: velocities
	void check(const std::vector<double>& x, const std::vector<double>& v, bool initial) const
	{
		const double T = 1e-8, TV = 1e-8;
		int k = 0;
		std::vector<Frame> fr(m.bodies.size());
		for (size_t i = 0; i < m.bodies.size(); i++) {
			auto& b = m.bodies[i];
			Frame f = fr[i] = body_frame(s, (int)i);
			if (b.type == B_FIXED || (initial && b.type == B_FREE)) {
				same(b.p, f.p, T, b.type == B_FIXED ? "fixed" : "placed", fmt("body %zu moved", i + 1));
				for (int a = 0; a < 3; a++) { Vec3 e = { a == 0 ? 1. : 0., a == 1 ? 1. : 0., a == 2 ? 1. : 0. }; same(rot_euler(DEG * b.ang, e), rot_euler(f.ang, e), T, "fixed", fmt("body %zu turned", i + 1)); }
				same({}, f.v, TV, "fixed", fmt("body %zu has a velocity", i + 1)); same({}, f.w, TV, "fixed", fmt("body %zu has a rotation rate", i + 1));
			}
			if (b.type == B_CPL || b.type == B_CPLPIN) {
				same({ x[k], x[k + 1], x[k + 2] }, f.p, T, "imposed", fmt("position of coupled body %zu", i + 1));
				same({ v[k], v[k + 1], v[k + 2] }, f.v, TV, "imposed", fmt("velocity of coupled body %zu", i + 1));
				k += 3;
			}
			if (b.type == B_CPLPIN) k += 3; // passed but not used
			if (b.type == B_CPL) {
				for (int a = 0; a < 3; a++) { Vec3 e = { a == 0 ? 1. : 0., a == 1 ? 1. : 0., a == 2 ? 1. : 0. }; same(rot_euler({ x[k], x[k + 1], x[k + 2] }, e), rot_euler(f.ang, e), T, "imposed", fmt("orientation of coupled body %zu", i + 1)); }
				same({ v[k], v[k + 1], v[k + 2] }, f.w, TV, "imposed", fmt("rotation rate of coupled body %zu", i + 1));
				k += 3;
			}
		}
		for (size_t i = 0; i < m.rods.size(); i++) {
			auto& r = m.rods[i];
			Vec3 a, b, va, vb;
			rod_node(s, (int)i, 0, a, va);
			rod_node(s, (int)i, r.n, b, vb);
			double L = norm(r.b - r.a);
			if (!(std::fabs(norm(b - a) - L) <= T)) throw Violation{ "rigid", when + fmt(": rod %zu is %.10g m long instead of %.10g", i + 1, norm(b - a), L) };
			if (!(std::fabs(dot(vb - va, b - a)) <= 1e-7 * (1 + norm(vb) + norm(va)))) throw Violation{ "rigid", when + fmt(": the ends of rod %zu move towards each other", i + 1) };
			for (int n = 1; n < r.n; n++) { // a rod is straight, and its nodes are evenly spaced
				Vec3 c, vc;
				rod_node(s, (int)i, n, c, vc);
				double f = (double)n / r.n;
				same(a + f * (b - a), c, T, "rigid", fmt("node %d of rod %zu", n, i + 1));
				same(va + f * (vb - va), vc, TV * (1 + norm(va) + norm(vb)), "rigid", fmt("velocity of node %d of rod %zu", n, i + 1));
			}
			switch (r.type) {
				case R_FIXED: same(r.a, a, T, "fixed", fmt("end A of fixed rod %zu", i + 1)); same(r.b, b, T, "fixed", fmt("end B of fixed rod %zu", i + 1)); same({}, va, TV, "fixed", fmt("velocity of end A of fixed rod %zu", i + 1)); same({}, vb, TV, "fixed", fmt("velocity of end B of fixed rod %zu", i + 1)); break;
				case R_PINNED: same(r.a, a, T, "fixed", fmt("end A of pinned rod %zu", i + 1)); same({}, va, TV, "fixed", fmt("velocity of end A of pinned rod %zu", i + 1)); if (initial) same(r.b, b, T, "placed", fmt("initial end B of pinned rod %zu", i + 1)); break;
				case R_FREE: if (initial) { same(r.a, a, T, "placed", fmt("initial end A of rod %zu", i + 1)); same(r.b, b, T, "placed", fmt("initial end B of rod %zu", i + 1)); } break;
				case R_CPL: {
					Vec3 q = rot_euler({ x[k + 3], x[k + 4], x[k + 5] }, r.b - r.a), w = { v[k + 3], v[k + 4], v[k + 5] }, v0 = { v[k], v[k + 1], v[k + 2] };
					same({ x[k], x[k + 1], x[k + 2] }, a, T, "imposed", fmt("end A of coupled rod %zu", i + 1));
					same(Vec3{ x[k], x[k + 1], x[k + 2] } + q, b, T, "imposed", fmt("end B of coupled rod %zu", i + 1));
					same(v0, va, TV, "imposed", fmt("velocity of end A of coupled rod %zu", i + 1));
					same(v0 + cross(w, q), vb, TV, "imposed", fmt("velocity of end B of coupled rod %zu", i + 1));
					k += 6;
					break;
				}
				case R_CPLPIN: same({ x[k], x[k + 1], x[k + 2] }, a, T, "imposed", fmt("end A of coupled pinned rod %zu", i + 1)); same({ v[k], v[k + 1], v[k + 2] }, va, TV, "imposed", fmt("velocity of end A of coupled pinned rod %zu", i + 1));
					if (initial) same(Vec3{ x[k], x[k + 1], x[k + 2] } + r.b - r.a, b, T, "placed", fmt("initial end B of coupled pinned rod %zu", i + 1));
					k += 3; break;
				case R_BODY: case R_BODYPIN: {
					auto& f = fr[r.body];
					Vec3 ra = rot_euler(f.ang, r.a), rb = rot_euler(f.ang, r.b);
					same(f.p + ra, a, T, "attached", fmt("end A of rod %zu on body %d", i + 1, r.body + 1));
					same(f.v + cross(f.w, ra), va, TV * (1 + norm(f.w) * 10), "attached", fmt("velocity of end A of rod %zu on body %d", i + 1, r.body + 1));
					if (r.type == R_BODY) {
						same(f.p + rb, b, T, "attached", fmt("end B of rod %zu on body %d", i + 1, r.body + 1));
						same(f.v + cross(f.w, rb), vb, TV * (1 + norm(f.w) * 10), "attached", fmt("velocity of end B of rod %zu on body %d", i + 1, r.body + 1));
					}
					else if (initial) same(f.p + rb, b, T, "placed", fmt("initial end B of rod %zu pinned to body %d", i + 1, r.body + 1));
					break;
				}
			}
		}
		for (size_t i = 0; i < m.points.size(); i++) {
			auto& p = m.points[i];
			Vec3 a, va;
			point(s, (int)i, a, va);
			switch (p.type) {
				case P_FIXED: same(p.p, a, T, "fixed", fmt("fixed point %zu", i + 1)); same({}, va, TV, "fixed", fmt("velocity of fixed point %zu", i + 1)); break;
				case P_FREE: if (initial) same(p.p, a, T, "placed", fmt("initial position of point %zu", i + 1)); break;
				case P_CPL: same({ x[k], x[k + 1], x[k + 2] }, a, T, "imposed", fmt("position of coupled point %zu", i + 1)); same({ v[k], v[k + 1], v[k + 2] }, va, TV, "imposed", fmt("velocity of coupled point %zu", i + 1)); k += 3; break;
				case P_BODY: {
					auto& f = fr[p.body];
					Vec3 ra = rot_euler(f.ang, p.p);
					same(f.p + ra, a, T, "attached", fmt("point %zu on body %d", i + 1, p.body + 1));
					same(f.v + cross(f.w, ra), va, TV * (1 + norm(f.w) * 10), "attached", fmt("velocity of point %zu on body %d", i + 1, p.body + 1));
					break;
				}
			}
		}
		for (size_t i = 0; i < m.lines.size(); i++) {
			auto& l = m.lines[i];
			for (int e = 0; e < 2; e++) {
				const MEnd& en = e ? l.b : l.a;
				Vec3 p, v0;
				if (en.rod) rod_node(s, en.idx, en.end ? m.rods[en.idx].n : 0, p, v0);
				else point(s, en.idx, p, v0);
				Vec3 np = s.node((int)i, e ? l.n : 0), nv = s.nodevel((int)i, e ? l.n : 0);
				std::string w = fmt("end %c of line %zu against %s %d", e ? 'B' : 'A', i + 1, en.rod ? "rod" : "point", en.idx + 1);
				same(p, np, 1e-9, "line-end", w);
				same(v0, nv, 1e-9, "line-end", "velocity of " + w);
			}
		}
	}
	// the loads of the coupled objects in the order of their degrees of freedom
	void loads() const
	{
		int k = 0;
		auto cmp = [&](const double* F, int n, const std::string& w) {
			for (int j = 0; j < n; j++, k++)
				if (!(std::fabs(s.f[k] - F[j]) <= 1e-9 * (1 + std::fabs(F[j])))) throw Violation{ "loads", when + fmt(": load %d handed to the host is %.10g, component %d of the force on %s is %.10g", k, s.f[k], j, w.c_str(), F[j]) };
		};
		double F[6];
		for (size_t i = 0; i < m.bodies.size(); i++) {
			if (m.bodies[i].type != B_CPL && m.bodies[i].type != B_CPLPIN) continue;
			api([&] { return MoorDyn_GetBodyForce(MoorDyn_GetBody(s.md, (unsigned)i + 1), F); });
			cmp(F, 6, fmt("body %zu", i + 1));
		}
		for (size_t i = 0; i < m.rods.size(); i++) {
			if (m.rods[i].type != R_CPL && m.rods[i].type != R_CPLPIN) continue;
			api([&] { return MoorDyn_GetRodForce(MoorDyn_GetRod(s.md, (unsigned)i + 1), F); });
			cmp(F, m.rods[i].type == R_CPL ? 6 : 3, fmt("rod %zu", i + 1));
		}
		for (size_t i = 0; i < m.points.size(); i++) {
			if (m.points[i].type != P_CPL) continue;
			api([&] { return MoorDyn_GetPointForce(MoorDyn_GetPoint(s.md, (unsigned)i + 1), F); });
			cmp(F, 3, fmt("point %zu", i + 1));
		}
		for (size_t j = k; j < s.f.size(); j++)
			if (!same_bits(s.f[j], -777.25)) throw Violation{ "loads", when + fmt(": %zu loads were written for %d degrees of freedom", j + 1, k) };
	}
};
// the codes the headers document
int body_code(BType t) { return t == B_CPL ? -1 : t == B_FREE ? 0 : t == B_FIXED ? 1 : 2; }
int rod_code(RType t) { return t == R_CPL ? -2 : t == R_CPLPIN ? -1 : t == R_FREE ? 0 : t == R_PINNED || t == R_BODYPIN ? 1 : 2; }
int point_code(PType t) { return t == P_CPL ? -1 : t == P_FREE ? 0 : 1; }
// the objects handed out are the ones the file describes, in its order
void identities(const Model& m, Sys& s)
{
	auto is = [](const char* what, int i, int got, int want) { if (got != want) throw Violation{ "identity", fmt("%s of the one described in row %d is %d, not %d", what, i + 1, got, want) }; };
	for (size_t i = 0; i < m.lines.size(); i++) {
		MoorDynLine o = apip([&] { return MoorDyn_GetLine(s.md, (unsigned)i + 1); });
		int id = -99; unsigned n = 0, k = 0;
		api([&] { return MoorDyn_GetLineID(o, &id); }); api([&] { return MoorDyn_GetLineN(o, &n); }); api([&] { return MoorDyn_GetLineNumberNodes(o, &k); });
		is("number of the line", (int)i, id, (int)i + 1); is("segments of the line", (int)i, (int)n, m.lines[i].n); is("nodes of the line", (int)i, (int)k, m.lines[i].n + 1);
	}
	for (size_t i = 0; i < m.rods.size(); i++) {
		MoorDynRod o = apip([&] { return MoorDyn_GetRod(s.md, (unsigned)i + 1); });
		int id = -99, t = -99; unsigned n = 0, k = 0;
		api([&] { return MoorDyn_GetRodID(o, &id); }); api([&] { return MoorDyn_GetRodType(o, &t); }); api([&] { return MoorDyn_GetRodN(o, &n); }); api([&] { return MoorDyn_GetRodNumberNodes(o, &k); });
		is("number of the rod", (int)i, id, (int)i + 1); is("type of the rod", (int)i, t, rod_code(m.rods[i].type)); is("segments of the rod", (int)i, (int)n, m.rods[i].n); is("nodes of the rod", (int)i, (int)k, m.rods[i].n + 1);
	}
	for (size_t i = 0; i < m.bodies.size(); i++) {
		MoorDynBody o = apip([&] { return MoorDyn_GetBody(s.md, (unsigned)i + 1); });
		int id = -99, t = -99;
		api([&] { return MoorDyn_GetBodyID(o, &id); }); api([&] { return MoorDyn_GetBodyType(o, &t); });
		is("number of the body", (int)i, id, (int)i + 1); is("type of the body", (int)i, t, body_code(m.bodies[i].type));
	}
	for (size_t i = 0; i < m.points.size(); i++) {
		MoorDynPoint o = apip([&] { return MoorDyn_GetPoint(s.md, (unsigned)i + 1); });
		int id = -99, t = -99;
		api([&] { return MoorDyn_GetPointID(o, &id); }); api([&] { return MoorDyn_GetPointType(o, &t); });
		is("number of the point", (int)i, id, (int)i + 1); is("type of the point", (int)i, t, point_code(m.points[i].type));
	}
	auto count = [&](const char* what, int (*f)(MoorDyn, unsigned*), size_t want) { unsigned n = 999; api([&] { return f(s.md, &n); }); if (n != want) throw Violation{ "identity", fmt("%u %s reported, the file describes %zu", n, what, want) }; };
	count("bodies", MoorDyn_GetNumberBodies, m.bodies.size()); count("rods", MoorDyn_GetNumberRods, m.rods.size());
	count("points", MoorDyn_GetNumberPoints, m.points.size()); count("lines", MoorDyn_GetNumberLines, m.lines.size());
}
}

PROPERTY(C11)
{
	ModelOpts o;
	Model m = make_model(S, "a", o);
	m.install();
	S.ev("model %s", m.summary.c_str());
	Motion q = make_motion(S, m, S.chance(1, 4) ? 3.0 : 1.0);
	Sys s;
	if (!s.create(m)) throw Discard{ "create failed: " + s.esc };
	unsigned ndof = 9999;
	api([&] { return MoorDyn_NCoupledDOF(s.md, &ndof); });
	if (ndof != (unsigned)m.ncpl()) throw Violation{ "dofs", fmt("%u coupled degrees of freedom reported, the coupled objects have %d", ndof, m.ncpl()) };
	identities(m, s);
	if (s.init(q) != MOORDYN_SUCCESS) throw Discard{ fmt("init failed (%d) %s", s.rc, s.esc.c_str()) };
	if (!s.finite()) throw Discard{ "unstable start" };
	identities(m, s);
	S.mark(m.summary);
	std::vector<double> ex = s.x, ev = s.xd;
	Checker C{ m, s, "after the start" };
	if (m.noic) C.check(ex, ev, true);
	double base = S.real(0.01, 0.1);
	int n = S.range(2, S.thorough() ? 30 : 12);
	std::vector<uint64_t> saved;
	std::vector<double> sx, sv;
	double st = 0;
	bool have_state = false; // a step has been made, so imposed end positions are known
	for (int i = 0; i < n; i++) {
		int w = (int)S.draw(8);
		if (w == 0 && have_state) { saved = s.serialize(); sx = ex; sv = ev; st = s.t; S.mark("c"); }
		else if (w == 1 && !saved.empty()) {
			if (s.deserialize(saved)) throw Discard{ "restore failed" };
			s.t = st; ex = sx; ev = sv;
			C.when = fmt("after going back to t=%g", st);
			C.check(ex, ev, false);
			S.fault("rollback"); S.mark("r");
		} else if (w == 2) {
			int li = (int)S.draw((uint32_t)m.lines.size()); double v = S.rreal(-0.3, 0.4, 0.01);
			api([&] { return MoorDyn_SetLineUnstretchedLengthVel(MoorDyn_GetLine(s.md, li + 1), v); });
			S.mark("p");
		} else if (w == 3) { // a call without duration
			double dt = 0;
			std::vector<double> x, v; q.at(s.t + 0.3, x, v);
			s.step_x(x, v, dt);
			S.mark("z");
		}
		std::vector<double> x, v;
		q.at(s.t, x, v);
		if (S.chance(1, 6)) { // the host jumps or lies about the velocity
			for (int j = 0; j < m.ncpl(); j++) { if (m.dof_dir[j] < 3) x[j] += S.real(-0.2, 0.2); v[j] *= S.real(-0.5, 1.5); }
			S.fault("host motion with a jump"); S.mark("j");
		}
		double dt = pick_dt(S, m, base);
		s.f.assign(m.ncpl() + 64, -777.25);
		int r = s.step_x(x, v, dt);
		if (r != MOORDYN_SUCCESS || !s.finite()) throw Discard{ "unstable" };
		have_state = true;
		S.simtime += dt;
		ex = x; ev = v;
		for (int j = 0; j < m.ncpl(); j++) ex[j] += v[j] * dt;
		C.when = fmt("after step %d (t=%g, dt=%g, scheme %s)", i, s.t, dt, m.scheme.c_str());
		C.check(ex, ev, false);
		C.loads();
		Obs ob; s.observe(ob); trace_obs(S, ob);
		S.mark(fmt("s%d", (int)std::log2(dt / m.dtEst)));
	}
	S.nontrivial = true;
	S.probe("scheme " + m.scheme);
	for (auto& b : m.bodies) S.probe(fmt("body type %d", b.type));
	for (auto& r : m.rods) S.probe(fmt("rod type %d", r.type));
	for (auto& p : m.points) S.probe(fmt("point type %d", p.type));
	s.close();
}

PROPERTY(C12)
{
	ModelOpts o;
	Model m = make_model(S, "a", o);
	m.install();
	S.ev("model %s", m.summary.c_str());
	Motion q = make_motion(S, m);
	Sys s;
	start(S, s, m, q);
	S.mark(m.summary);
	const int nl = (int)m.lines.size();
	struct St { std::vector<double> len, rate; double t; };
	St e;
	e.t = 0;
	for (auto& l : m.lines) { e.len.push_back(l.len); e.rate.push_back(0.0); }
	std::vector<std::pair<double, std::vector<double>>> hist; // lengths over time
	auto lengths = [&](const char* when) {
		for (int i = 0; i < nl; i++) {
			double L = s.len(i);
			if (!(std::fabs(L - e.len[i]) <= 1e-9 * (1 + e.len[i])))
				throw Violation{ "length", fmt("%s (t=%g, scheme %s): line %d is %.12g m long, the commands add up to %.12g m", when, s.t, m.scheme.c_str(), i + 1, L, e.len[i]) };
		}
	};
	const bool local = m.scheme[0] == 'L'; // these schemes look at a line only every so often
	double over = 0;
	std::vector<double> lrate(nl, 0.0);
	// mass and weight, between the values for the shortest and the longest length of the last while
	auto carried = [&](const char* when) {
		for (int i = 0; i < nl; i++) {
			double lo = e.len[i], hi = e.len[i];
			for (auto& h : hist) if (local || h.first >= s.t - 0.6) { lo = std::min(lo, h.second[i]); hi = std::max(hi, h.second[i]); }
			lo -= (local ? 1.0 : over) * std::fabs(lrate[i]); hi += (local ? 1.0 : over) * std::fabs(lrate[i]); // a scheme may look a bit beyond the end of the step
			const MLineType& t = m.lt[m.lines[i].ltype];
			double A = 3.14159265358979323846 / 4 * t.d * t.d, tr = 0, W = 0;
			bool deep = !local;
			for (int n = 0; n <= m.lines[i].n; n++) {
				double M[3][3], w[3];
				MoorDynLine l = MoorDyn_GetLine(s.md, (unsigned)i + 1);
				api([&] { return MoorDyn_GetLineNodeM(l, n, M); });
				api([&] { return MoorDyn_GetLineNodeWeight(l, n, w); });
				tr += M[0][0] + M[1][1] + M[2][2];
				W += w[2];
				if (s.node(i, n).z > -3.5) deep = false;
			}
			double dry = 3 * t.w, wet = dry + m.rho * A * (2 * t.Ca + t.CaAx);
			double a = (deep ? wet : dry) * lo * (1 - 1e-6), b = wet * hi * (1 + 1e-6);
			if (!(tr >= a && tr <= b)) { for (int n = 0; n <= m.lines[i].n; n++) S.ev("node %d z %g vz %g", n, s.node(i, n).z, s.nodevel(i, n).z); throw Violation{ "mass", fmt("%s (t=%g): the node masses of line %d add up to %.10g, expected between %.10g and %.10g for a length of %.10g m", when, s.t, i + 1, tr, a, b, e.len[i]) }; }
			double wd = -t.w * m.g, ww = -(t.w - m.rho * A) * m.g;
			double c[4] = { ww * lo, ww * hi, deep ? ww * lo : wd * lo, deep ? ww * hi : wd * hi };
			double mn = *std::min_element(c, c + 4), mx = *std::max_element(c, c + 4), tl = 1e-6 * t.w * m.g * hi;
			if (!(W >= mn - tl && W <= mx + tl)) throw Violation{ "weight", fmt("%s (t=%g): the weight of line %d is %.10g, expected between %.10g and %.10g for a length of %.10g m", when, s.t, i + 1, W, mn, mx, e.len[i]) };
		}
	};
	lengths("after the start");
	hist.push_back({ 0.0, e.len });
	double base = S.real(0.01, 0.08);
	int n = S.range(3, S.thorough() ? 40 : 14);
	bool settle = S.chance(1, 2);
	std::vector<uint64_t> saved;
	St sv;
	for (int i = 0; i < n + (settle ? 12 : 0); i++) {
		if (i >= n) { // everything stopped: mass and weight become exact
			if (i == n) for (int k = 0; k < nl; k++) if (e.rate[k]) { e.rate[k] = 0; api([&] { return MoorDyn_SetLineUnstretchedLengthVel(MoorDyn_GetLine(s.md, k + 1), 0.0); }); }
		} else {
			int nc = (int)S.draw(3);
			for (int c = 0; c < nc; c++) {
				int w = (int)S.draw(6), k = (int)S.draw((uint32_t)nl);
				MoorDynLine l = MoorDyn_GetLine(s.md, (unsigned)k + 1);
				if (w <= 2) {
					double v = w == 2 ? 0.0 : S.rreal(-0.3, 0.5, 0.01);
					int r = api([&] { return MoorDyn_SetLineUnstretchedLengthVel(l, v); });
					if (r) throw Violation{ "command", fmt("setting a pay-out rate returned %d", r) };
					e.rate[k] = v;
					S.ev("line %d rate %g", k + 1, v);
				} else if (w == 3) {
					double L = e.len[k] * (1 + S.real(-0.02, 0.02));
					int r = api([&] { return MoorDyn_SetLineUnstretchedLength(l, L); });
					if (r) throw Violation{ "command", fmt("setting a length returned %d", r) };
					e.len[k] = L;
					hist.push_back({ s.t, e.len });
					S.ev("line %d length %g", k + 1, L);
				} else if (w == 4) { saved = s.serialize(); sv = e; sv.t = s.t; }
				else if (!saved.empty()) {
					if (s.deserialize(saved)) throw Discard{ "restore failed" };
					e = sv; s.t = sv.t;
					hist.push_back({ s.t, e.len });
					S.fault("rollback");
					S.ev("rollback to %g", s.t);
				}
				S.mark(fmt("c%d.%d", w, k));
				lengths("after a command");
			}
		}
		double dt = i >= n ? 0.06 : pick_dt(S, m, base);
		hist.push_back({ s.t, e.len });
		int r = s.step(q, dt);
		if (r != MOORDYN_SUCCESS || !s.finite()) throw Discard{ "unstable" };
		for (int k = 0; k < nl; k++) e.len[k] += e.rate[k] * dt;
		over = dt; lrate = e.rate;
		hist.push_back({ s.t, e.len });
		for (int k = 0; k < nl; k++) for (int j = 0; j <= m.lines[k].n; j++) if (norm(s.nodevel(k, j)) > 25) throw Discard{ "unstable" };
		S.simtime += dt;
		lengths(fmt("after a step of %g", dt).c_str());
		carried(fmt("after a step of %g", dt).c_str());
		Obs ob; s.observe(ob); trace_obs(S, ob);
		S.mark(fmt("s%d", (int)std::log2(dt / m.dtEst)));
	}
	S.nontrivial = true;
	S.probe("scheme " + m.scheme);
	s.close();
}
