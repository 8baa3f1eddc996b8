#include "host.hpp"
#include <exception>
#include <new>
std::string g_escape;
std::string what_escaped()
{
	try { throw; }
	catch (const std::exception& e) { return e.what(); }
	catch (...) { return "unknown exception"; }
}
void Obs::add(double x, const char* what, int i, int j, int k)
{
	v.push_back(x);
	if (with_labels) lab.push_back(fmt("%s[%d][%d][%d]", what, i, j, k));
}
bool Sys::create(const Model& model)
{
	m = &model;
	f.assign(m->ncpl() + 64, 0.0);
	g_escape.clear();
	md = apip([&] { return MoorDyn_Create((m->named.empty() ? m->file : m->named).c_str()); });
	if (!g_escape.empty()) { escaped = true; esc = g_escape; }
	return md != nullptr;
}
int Sys::init(const Motion& q, bool noic)
{
	q.at(0.0, x, xd);
	f.assign(m->ncpl() + 64, 0.0);
	t = 0;
	rc = api([&] { return noic ? MoorDyn_Init_NoIC(md, x.data(), xd.data()) : MoorDyn_Init(md, x.data(), xd.data()); });
	if (rc == ESCAPED) { escaped = true; esc = g_escape; }
	return rc;
}
int Sys::step_x(const std::vector<double>& xx, const std::vector<double>& vv, double dt)
{
	if (dt > 0) lastv = vv;
	rc = api([&] { return MoorDyn_Step(md, xx.data(), vv.data(), f.data(), &t, &dt); });
	if (rc == ESCAPED) { escaped = true; esc = g_escape; }
	return rc;
}
int Sys::step(const Motion& q, double dt)
{
	q.at(t, x, xd);
	return step_x(x, xd, dt);
}
int Sys::close()
{
	if (!md) return 0;
	int r = api([&] { return MoorDyn_Close(md); });
	md = nullptr;
	return r;
}
double Sys::len(int line) const
{
	double u = NAN;
	api([&] { return MoorDyn_GetLineUnstretchedLength(MoorDyn_GetLine(md, line + 1), &u); });
	return u;
}
Vec3 Sys::node(int line, int i) const
{
	double r[3] = { NAN, NAN, NAN };
	api([&] { return MoorDyn_GetLineNodePos(MoorDyn_GetLine(md, line + 1), i, r); });
	return { r[0], r[1], r[2] };
}
Vec3 Sys::nodevel(int line, int i) const
{
	double r[3] = { NAN, NAN, NAN };
	api([&] { return MoorDyn_GetLineNodeVel(MoorDyn_GetLine(md, line + 1), i, r); });
	return { r[0], r[1], r[2] };
}
void Sys::observe(Obs& o, int what) const
{
	const double bad = -12345.678;
	InLib g;
	o.add(t, "t", 0, 0, 0);
	if (what & O_FORCE) for (int i = 0; i < m->ncpl(); i++) o.add(f[i], "coupling force", i, 0, 0);
	for (size_t i = 0; i < m->bodies.size(); i++) {
		MoorDynBody b = MoorDyn_GetBody(md, (unsigned)i + 1);
		double r[6] = { bad, bad, bad, bad, bad, bad }, rd[6] = { bad, bad, bad, bad, bad, bad }, F[6] = { bad, bad, bad, bad, bad, bad };
		MoorDyn_GetBodyState(b, r, rd);
		for (int k = 0; k < 6; k++) { o.add(r[k], "body position", (int)i, k, 0); o.add(rd[k], "body velocity", (int)i, k, 0); }
		if (what & O_FORCE) { MoorDyn_GetBodyForce(b, F); for (int k = 0; k < 6; k++) o.add(F[k], "body force", (int)i, k, 0); }
	}
	for (size_t i = 0; i < m->rods.size(); i++) {
		MoorDynRod b = MoorDyn_GetRod(md, (unsigned)i + 1);
		for (int n = 0; n <= m->rods[i].n; n++) {
			double r[3] = { bad, bad, bad }, v[3] = { bad, bad, bad };
			MoorDyn_GetRodNodePos(b, n, r);
			MoorDyn_GetRodNodeVel(b, n, v);
			for (int k = 0; k < 3; k++) { o.add(r[k], "rod node position", (int)i, n, k); o.add(v[k], "rod node velocity", (int)i, n, k); }
		}
		if (what & O_FORCE) {
			double F[6] = { bad, bad, bad, bad, bad, bad };
			MoorDyn_GetRodForce(b, F);
			for (int k = 0; k < 6; k++) o.add(F[k], "rod force", (int)i, k, 0);
		}
	}
	for (size_t i = 0; i < m->points.size(); i++) {
		MoorDynPoint p = MoorDyn_GetPoint(md, (unsigned)i + 1);
		double r[3] = { bad, bad, bad }, v[3] = { bad, bad, bad }, F[3] = { bad, bad, bad };
		MoorDyn_GetPointPos(p, r);
		MoorDyn_GetPointVel(p, v);
		for (int k = 0; k < 3; k++) { o.add(r[k], "point position", (int)i, k, 0); o.add(v[k], "point velocity", (int)i, k, 0); }
		if (what & O_FORCE) { MoorDyn_GetPointForce(p, F); for (int k = 0; k < 3; k++) o.add(F[k], "point force", (int)i, k, 0); }
	}
	for (size_t i = 0; i < m->lines.size(); i++) {
		MoorDynLine l = MoorDyn_GetLine(md, (unsigned)i + 1);
		double u = bad;
		MoorDyn_GetLineUnstretchedLength(l, &u);
		o.add(u, "line length", (int)i, 0, 0);
		for (int n = 0; n <= m->lines[i].n; n++) {
			double r[3] = { bad, bad, bad }, v[3] = { bad, bad, bad };
			MoorDyn_GetLineNodePos(l, n, r);
			MoorDyn_GetLineNodeVel(l, n, v);
			for (int k = 0; k < 3; k++) { o.add(r[k], "line node position", (int)i, n, k); o.add(v[k], "line node velocity", (int)i, n, k); }
			if (what & O_FORCE) {
				double F[3] = { bad, bad, bad };
				MoorDyn_GetLineNodeForce(l, n, F);
				for (int k = 0; k < 3; k++) o.add(F[k], "line node force", (int)i, n, k);
				MoorDyn_GetLineNodeTen(l, n, F);
				for (int k = 0; k < 3; k++) o.add(F[k], "line node tension", (int)i, n, k);
			}
		}
	}
}
bool Sys::finite() const
{
	Obs o;
	observe(o, O_KIN);
	for (double d : o.v) if (!std::isfinite(d) || std::fabs(d) > 2e3) return false;
	return true;
}
std::vector<uint64_t> Sys::serialize(int* prc) const
{
	size_t n = 0;
	int r = api([&] { return MoorDyn_Serialize(md, &n, nullptr); });
	std::vector<uint64_t> d;
	if (r == 0) {
		d.resize((n + 7) / 8);
		r = api([&] { return MoorDyn_Serialize(md, nullptr, d.data()); });
	}
	if (prc) *prc = r;
	return d;
}
int Sys::deserialize(std::vector<uint64_t> d) const
{
	return api([&] { return MoorDyn_Deserialize(md, d.data()); });
}
std::string diff_obs(const Obs& a, const Obs& b)
{
	if (a.v.size() != b.v.size()) return fmt("different number of observed values (%zu and %zu)", a.v.size(), b.v.size());
	int nd = 0; size_t first = 0; double mx = 0;
	for (size_t i = 0; i < a.v.size(); i++)
		if (!same_bits(a.v[i], b.v[i])) { if (!nd++) first = i; mx = std::max(mx, std::fabs(a.v[i] - b.v[i])); }
	if (!nd) return "";
	const auto& L = a.with_labels ? a.lab : b.lab;
	return fmt("%d values differ (max |difference| %.3g), first %s: %.17g instead of %.17g", nd, mx, first < L.size() ? L[first].c_str() : "?", b.v[first], a.v[first]);
}
std::string diff_obs_tol(const Obs& a, const Obs& b, double rtol, double atol)
{
	if (a.v.size() != b.v.size()) return "different number of observed values";
	for (size_t i = 0; i < a.v.size(); i++) {
		double x = a.v[i], y = b.v[i];
		if (same_bits(x, y)) continue;
		if (!(std::fabs(x - y) <= atol + rtol * std::max(std::fabs(x), std::fabs(y)))) {
			const auto& L = a.with_labels ? a.lab : b.lab;
			return fmt("%s: %.17g instead of %.17g (difference %.3g)", i < L.size() ? L[i].c_str() : "?", y, x, y - x);
		}
	}
	return "";
}
void start(Sim& S, Sys& s, const Model& m, const Motion& q)
{
	if (!s.create(m)) throw Discard{ "create failed: " + s.esc };
	if (s.init(q) != MOORDYN_SUCCESS) throw Discard{ fmt("init failed (%d) %s", s.rc, s.esc.c_str()) };
	if (!s.finite()) throw Discard{ "unstable start" };
}
void trace_obs(Sim& S, const Obs& o) { S.obs(o.v.data(), o.v.size() * sizeof(double)); }
double pick_dt(Sim& S, const Model& m, double base)
{
	switch (S.draw(6)) {
		case 0: return base;
		case 1: return base * 0.5;
		case 2: return base * S.real(0.1, 2.0);
		case 3: return m.dtEst * S.real(0.1, 0.9); // shorter than the internal step
		case 4: return m.dtEst * (1 + S.draw(4));
		default: return base * S.real(0.7, 1.4);
	}
}
