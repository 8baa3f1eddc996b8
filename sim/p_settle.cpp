// C17 without excitation the system settles, and then all loads balance
#include "eom.hpp"
namespace {
struct L6 { Vec3 f, m; };
L6 operator+(L6 a, const L6& b) { return { a.f + b.f, a.m + b.m }; }
// Everything that moves is held by lines to something that does not
bool held(const Model& m)
{
	// nodes: bodies, rods, points
	const int nb = (int)m.bodies.size(), nr = (int)m.rods.size(), np = (int)m.points.size(), n = nb + nr + np;
	std::vector<bool> ok(n, false);
	for (int i = 0; i < nb; i++) ok[i] = m.bodies[i].type != B_FREE;
	for (int i = 0; i < nr; i++) ok[nb + i] = m.rods[i].type != R_FREE && m.rods[i].type != R_BODY && m.rods[i].type != R_BODYPIN;
	for (int i = 0; i < np; i++) ok[nb + nr + i] = m.points[i].type == P_FIXED || m.points[i].type == P_CPL;
	auto link = [&](int a, int b, bool& more) { if (ok[a] != ok[b]) { ok[a] = ok[b] = true; more = true; } };
	for (bool more = true; more;) {
		more = false;
		for (int i = 0; i < nr; i++) if (m.rods[i].body >= 0) link(nb + i, m.rods[i].body, more);
		for (int i = 0; i < np; i++) if (m.points[i].body >= 0) link(nb + nr + i, m.points[i].body, more);
		for (auto& l : m.lines) link(l.a.rod ? nb + l.a.idx : nb + nr + l.a.idx, l.b.rod ? nb + l.b.idx : nb + nr + l.b.idx, more);
	}
	for (bool b : ok) if (!b) return false;
	return true;
}
struct Rest {
	State s;
	std::vector<Vec3> ra, rb, rva, rvb;   // ends of the rods
	std::vector<Vec3> bp, bv, bw;         // bodies
	std::vector<std::vector<double>> br;
};
Rest look(Lib& L)
{
	Rest o;
	o.s = read(L);
	const Model& m = *L.s.m;
	for (size_t i = 0; i < m.rods.size(); i++) {
		double a[3];
		MoorDynRod R = apip([&] { return MoorDyn_GetRod(L.s.md, (unsigned)i + 1); });
		auto pos = [&](int n) { api([&] { return MoorDyn_GetRodNodePos(R, (unsigned)n, a); }); return Vec3{ a[0], a[1], a[2] }; };
		auto vel = [&](int n) { api([&] { return MoorDyn_GetRodNodeVel(R, (unsigned)n, a); }); return Vec3{ a[0], a[1], a[2] }; };
		o.ra.push_back(pos(0)); o.rb.push_back(pos(m.rods[i].n)); o.rva.push_back(vel(0)); o.rvb.push_back(vel(m.rods[i].n));
	}
	for (size_t i = 0; i < m.bodies.size(); i++) {
		double r[6], v[6];
		MoorDynBody B = apip([&] { return MoorDyn_GetBody(L.s.md, (unsigned)i + 1); });
		api([&] { return MoorDyn_GetBodyState(B, r, v); });
		o.bp.push_back({ r[0], r[1], r[2] }); o.bv.push_back({ v[0], v[1], v[2] }); o.bw.push_back({ v[3], v[4], v[5] });
		o.br.push_back({ r[3], r[4], r[5] });
	}
	return o;
}
double fastest(const Model& m, const Rest& r, std::string* who = nullptr)
{
	double v = 0;
	auto see = [&](double s, const std::string& n) { if (s > v) { v = s; if (who) *who = n; } };
	for (size_t l = 0; l < r.s.v.size(); l++) for (size_t i = 0; i < r.s.v[l].size(); i++) see(norm(r.s.v[l][i]), fmt("line %zu node %zu", l + 1, i));
	for (size_t i = 0; i < r.s.pv.size(); i++) see(norm(r.s.pv[i]), fmt("point %zu", i + 1));
	for (size_t i = 0; i < r.rva.size(); i++) { see(norm(r.rva[i]), fmt("rod %zu", i + 1)); see(norm(r.rvb[i]), fmt("rod %zu", i + 1)); }
	for (size_t i = 0; i < r.bv.size(); i++) if (m.bodies[i].type == B_FREE || m.bodies[i].type == B_CPLPIN) see(norm(r.bv[i]) + 2 * norm(r.bw[i]), fmt("body %zu", i + 1));
	return v;
}
Vec3 lib_point_force(Sys& s, int p)
{
	double f[3];
	MoorDynPoint P = apip([&] { return MoorDyn_GetPoint(s.md, (unsigned)p + 1); });
	api([&] { return MoorDyn_GetPointForce(P, f); });
	return { f[0], f[1], f[2] };
}
// At rest every load is carried: by whatever holds the object, or by nothing at all
void balance(Sim& S, Sys& s, Lib& L, const std::vector<double>& x, const std::vector<double>& xd)
{
	const Model& m = *s.m;
	Env e; e.m = &m; e.bottom = [&](double xx, double yy) { return L.bottom(xx, yy); };
	const Rest a = look(L);
	double dtM = 0;
	api([&] { return MoorDyn_GetDt(s.md, &dtM); });
	if (s.step_x(x, xd, dtM)) throw Discard{ "diverged" };
	const Rest b = look(L);
	// inertia that remains
	double acc = 0, inertia = 0, speed = fastest(m, a);
	auto more = [&](Vec3 v0, Vec3 v1, double mass, double dragarea) { const double k = norm(v1 - v0) / dtM; acc = std::max(acc, k); inertia += mass * k + 0.5 * m.rho * dragarea * norm(v0) * norm(v0); };
	std::vector<LineOut> out;
	const int nb = (int)m.bodies.size(), nr = (int)m.rods.size(), np = (int)m.points.size();
	std::vector<L6> pf(np), rf(nr), bf(nb); // loads about the point, end A and the reference point
	for (size_t l = 0; l < m.lines.size(); l++) {
		LineRef ref = line_ref(m, (int)l);
		ref.L = s.len((int)l);
		auto dir = [&](const MEnd& me) { return unit(a.rb[me.idx] - a.ra[me.idx]); };
		const MLine& ml = m.lines[l];
		if (ml.a.rod) { ref.cantA = true; ref.qA = (ml.a.end ? 1.0 : -1.0) * dir(ml.a); }
		if (ml.b.rod) { ref.cantB = true; ref.qB = (ml.b.end ? -1.0 : 1.0) * dir(ml.b); }
		std::vector<Kin> w(ref.N + 1);
		out.push_back(line_rhs(e, ref, a.s.r[l], a.s.v[l], w));
		const LineOut& o = out.back();
		const MLineType& t = *ref.t;
		const double nm = (t.w + m.rho * M_PI / 4 * t.d * t.d * (t.Ca + t.CaAx)) * ref.L / ref.N;
		for (int i = 0; i <= ref.N; i++) more(a.s.v[l][i], b.s.v[l][i], nm, 0);
		for (int k = 0; k < 2; k++) {
			const MEnd& me = k ? ml.b : ml.a;
			L6 load; load.f = k ? o.F[ref.N] : o.F[0];
			if (me.rod && t.EI > 0) { // what bends the line pushes back on the rod
				const Vec3 q0 = k ? (1.0) * unit(a.s.r[l][ref.N] - a.s.r[l][ref.N - 1]) : unit(a.s.r[l][1] - a.s.r[l][0]), q1 = k ? ref.qB : ref.qA;
				const Vec3 from = k ? q0 : q1, to = k ? q1 : q0;
				const double c = dot(from, to), ls = k ? norm(a.s.r[l][ref.N] - a.s.r[l][ref.N - 1]) : norm(a.s.r[l][1] - a.s.r[l][0]);
				if (c + 2.3e-16 < 1) load.m = ((k ? -1.0 : 1.0) * t.EI * 4 / ls * std::sqrt(0.5 * (1 - c))) * unit(cross(from, to));
			}
			if (!me.rod) pf[me.idx] = pf[me.idx] + load;
			else { if (me.end) load.m = load.m + cross(a.rb[me.idx] - a.ra[me.idx], load.f); rf[me.idx] = rf[me.idx] + load; }
		}
	}
	for (int i = 0; i < np; i++) {
		const MPoint& p = m.points[i];
		pf[i].f.z += m.g * (m.rho * p.vol - p.mass);
		if (p.type == P_FREE) more(a.s.pv[i], b.s.pv[i], p.mass + m.rho * p.vol * p.ca, p.cda);
	}
	bool wet = true;
	for (int i = 0; i < nr; i++) {
		const MRodType& t = m.rt[m.rods[i].rtype];
		const Vec3 ax = a.rb[i] - a.ra[i];
		const double len = norm(ax), A = M_PI / 4 * t.d * t.d;
		L6 w; w.f = { 0, 0, m.g * len * (m.rho * A - t.w) };
		w.m = cross(0.5 * ax, w.f);
		rf[i] = rf[i] + w;
		const int N = m.rods[i].n;
		for (int k = 0; k <= N; k++) {
			const Vec3 r = a.ra[i] + ((double)k / N) * ax;
			if (r.z > -t.d) wet = false;
			const double zb = L.bottom(r.x, r.y);
			if (r.z < zb) { L6 c; c.f.z = (zb - r.z) * m.kb * t.d * len / N * (k == 0 || k == N ? 0.5 : 1.0); c.m = cross(r - a.ra[i], c.f); rf[i] = rf[i] + c; S.probe("rod on the seabed"); }
		}
		const double mass = len * (t.w + m.rho * A * (t.Ca + t.CaEnd));
		more(a.rva[i], b.rva[i], mass, 0); more(a.rvb[i], b.rvb[i], mass, t.Cd * t.d * len + 2 * t.CdEnd * A);
	}
	if (!wet) { S.probe("rod at the surface"); return; }
	for (int i = 0; i < nb; i++) {
		const MBody& B = m.bodies[i];
		if (B.type == B_FREE || B.type == B_CPLPIN) {
			L6 w; w.f = { 0, 0, m.g * (m.rho * B.vol - B.mass) };
			w.m = cross(rot_euler({ a.br[i][0], a.br[i][1], a.br[i][2] }, B.cg), w.f);
			bf[i] = bf[i] + w;
			more(a.bv[i], b.bv[i], 2 * B.mass, B.cdt.x);
			more(a.bw[i], b.bw[i], 2 * (B.I.x + B.I.y + B.I.z + B.mass), B.cdr.x);
		}
		for (int j = 0; j < np; j++) if (m.points[j].body == i) { L6 c = pf[j]; c.m = c.m + cross(a.s.pr[j] - a.bp[i], c.f); bf[i] = bf[i] + c; }
		for (int j = 0; j < nr; j++) if (m.rods[j].body == i) {
			L6 c = rf[j];
			if (m.rods[j].type == R_BODYPIN) c.m = Vec3{};
			c.m = c.m + cross(a.ra[j] - a.bp[i], c.f);
			bf[i] = bf[i] + c;
		}
	}
	const double tol = 2 * inertia + 5 + 40 * speed * 1e3;
	S.ev("inertia left %g N, tolerance %g N", inertia, tol);
	const double arm = 20;
	auto zero = [&](const std::string& who, L6 got, L6 want, bool f, bool mo) {
		const double df = norm(got.f - want.f), dm = norm(got.m - want.m);
		if ((f && !(df <= tol)) || (mo && !(dm <= arm * tol)))
			throw Violation{ "balance", fmt("%s: force %s moment %s instead of %s and %s (inertia left: %g N)", who.c_str(), str(got.f).c_str(), str(got.m).c_str(), str(want.f).c_str(), str(want.m).c_str(), inertia) };
	};
	size_t hi = 0;
	for (int i = 0; i < nb; i++) {
		const std::string who = fmt("body %d", i + 1);
		L6 got;
		if (m.bodies[i].type == B_FREE) zero(who, bf[i], L6{}, true, true);
		{
			double f[6];
			MoorDynBody B = apip([&] { return MoorDyn_GetBody(s.md, (unsigned)i + 1); });
			api([&] { return MoorDyn_GetBodyForce(B, f); });
			got.f = { f[0], f[1], f[2] }; got.m = { f[3], f[4], f[5] };
			L6 w = bf[i];
			if (m.bodies[i].type == B_CPLPIN) w.m = Vec3{};
			zero("load query of " + who, got, w, true, true);
		}
		if (m.bodies[i].type == B_CPL || m.bodies[i].type == B_CPLPIN) {
			got.f = { s.f[hi], s.f[hi + 1], s.f[hi + 2] }; got.m = { s.f[hi + 3], s.f[hi + 4], s.f[hi + 5] }; hi += 6;
			if (m.bodies[i].type == B_CPLPIN) { zero(who + " (pin)", bf[i], L6{}, false, true); L6 w = bf[i]; w.m = Vec3{}; zero("host load of " + who, got, w, true, true); }
			else zero("host load of " + who, got, bf[i], true, true);
		}
	}
	for (int i = 0; i < nr; i++) {
		const std::string who = fmt("rod %d", i + 1);
		L6 got;
		const RType t = m.rods[i].type;
		{
			double f[6];
			MoorDynRod R = apip([&] { return MoorDyn_GetRod(s.md, (unsigned)i + 1); });
			api([&] { return MoorDyn_GetRodForce(R, f); });
			got.f = { f[0], f[1], f[2] }; got.m = { f[3], f[4], f[5] };
			L6 w = rf[i];
			if (t == R_CPLPIN) w.m = Vec3{};
			zero("load query of " + who, got, w, true, true);
		}
		if (t == R_FREE) zero(who, rf[i], L6{}, true, true);
		if (t == R_PINNED || t == R_BODYPIN || t == R_CPLPIN) zero(who + " (pin)", rf[i], L6{}, false, true);
		if (t == R_CPL || t == R_CPLPIN) {
			got.f = { s.f[hi], s.f[hi + 1], s.f[hi + 2] }; hi += 3;
			if (t == R_CPL) { got.m = { s.f[hi], s.f[hi + 1], s.f[hi + 2] }; hi += 3; }
			zero("host load of " + who, got, rf[i], true, t == R_CPL);
		}
	}
	for (int i = 0; i < np; i++) {
		const std::string who = fmt("point %d", i + 1);
		if (m.points[i].type == P_FREE) zero(who, pf[i], L6{}, true, false);
		if (m.points[i].type == P_CPL) { L6 got; got.f = { s.f[hi], s.f[hi + 1], s.f[hi + 2] }; hi += 3; zero("host load of " + who, got, pf[i], true, false); }
		if (m.points[i].type == P_FIXED || m.points[i].type == P_BODY) { L6 got; got.f = lib_point_force(s, i); zero("load query of " + who, got, pf[i], true, false); }
	}
	S.probe("loads balanced");
}
}
PROPERTY(C17)
{
	ModelOpts o; o.wide = false;
	o.still = true; o.outputs = o.logfile = false; o.damped = true; o.fluids = S.chance(1, 2);
	o.max_segs = 5; o.fixed_dt = true;
	o.schemes = { "RK2", "RK4", "Heun", "AB2", "Midpoint6" };
	Model m = make_model(S, "a", o);
	if (!held(m)) throw Discard{ "not held" };
	if (m.dtEst < 1.0 / 1024) throw Discard{ "too stiff" };
	m.install();
	Motion q = make_motion(S, m, 1.5);
	Sys s;
	start(S, s, m, q);
	Lib L(s);
	// a history of excitation
	const int n = S.range(2, 30);
	Plan p = make_plan(S, m, q, n, 0.1, 0.0, true).lengths_only();
	std::vector<uint64_t> kept;
	for (int i = 0; i < n; i++) {
		if (!do_step(s, p, i)) throw Discard{ "diverged" };
		if (kept.empty() && S.chance(1, 10)) kept = s.serialize();
		else if (!kept.empty() && S.chance(1, 10)) { s.deserialize(kept); S.fault("rollback"); }
		if (S.chance(1, 20)) { static const char* sc[] = { "RK2", "RK4", "AB2", "Midpoint6" }; if (!api([&] { return MoorDyn_SetTimeScheme(s.md, sc[S.draw(4)]); })) { kept.clear(); S.fault("change of scheme"); } }
	}
	for (size_t l = 0; l < m.lines.size(); l++) api([&] { return MoorDyn_SetLineUnstretchedLengthVel(L.line((int)l), 0.0); });
	// the host stops
	std::vector<double> x, xd;
	q.at(s.t, x, xd);
	for (double& d : xd) d = 0;
	const double t0 = s.t;
	double v = 0;
	std::string who;
	int quiet = 0;
	const double h = 0.5;
	for (int k = 0; k < 500 && quiet < 12; k++) {
		if (s.step_x(x, xd, h) || !s.finite()) throw Discard{ "diverged" };
		if (cpu_seconds() > 12) throw Discard{ "too expensive" };
		v = fastest(m, look(L), &who);
		quiet = v < 2e-3 ? quiet + 1 : 0;
	}
	S.ev("%s: %s moves with %g m/s %g s later", m.summary.c_str(), who.c_str(), v, s.t - t0);
	S.mark(m.summary); S.mark(fmt("%d", n));
	if (v > 0.15) { // a slack line with bending stiffness piled up on itself has no model that would come to rest
		const State st = read(L);
		for (size_t l = 0; l < m.lines.size(); l++) {
			const LineRef r = line_ref(m, (int)l);
			if (r.t->EI > 0) for (int i = 0; i < r.N; i++) if (norm(st.r[l][i + 1] - st.r[l][i]) < 0.3 * r.L / r.N) throw Discard{ "piled up line" };
		}
		const Rest now = look(L);
		for (size_t i = 0; i < m.rods.size(); i++) if (std::max(now.ra[i].z, now.rb[i].z) > 0) throw Discard{ "rod in the air: nothing damps it" };
		for (size_t i = 0; i < m.bodies.size(); i++) for (size_t j = 0; j < m.rods.size(); j++) if (m.rods[j].body == (int)i && now.bp[i].z > 0) throw Discard{ "rod in the air: nothing damps it" };
		// the internal step may be too long for this system: shorter ones tell
		double dt = 0;
		api([&] { return MoorDyn_GetDt(s.md, &dt); });
		api([&] { return MoorDyn_SetDt(s.md, dt / 8); });
		quiet = 0;
		for (int k = 0; k < 250 && quiet < 12; k++) {
			if (s.step_x(x, xd, h) || !s.finite()) throw Discard{ "diverged" };
		if (cpu_seconds() > 40) throw Discard{ "too expensive" };
			v = fastest(m, look(L), &who);
			quiet = v < 2e-2 ? quiet + 1 : 0;
		}
		if (v < 0.15) throw Discard{ "internal step too long" };
	}
	if (v > 0.15) throw Violation{ "no rest", fmt("%s still moves with %g m/s %g s after the host stopped", who.c_str(), v, s.t - t0) };
	balance(S, s, L, x, xd);
	S.probe(v < 2e-3 ? "at rest" : v < 2e-2 ? "nearly at rest" : "slow");
	S.simtime += s.t - t0;
	S.nontrivial = true;
	Obs ob; s.observe(ob); trace_obs(S, ob);
	s.close();
}
