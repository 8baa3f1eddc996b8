// Reference model of the lines and free points: the lumped-mass equations, evaluated independently of the library
#pragma once
#include "plan.hpp"
#include "water.hpp"
extern "C" {
#include "Line.h"
#include "Point.h"
#include "Rod.h"
#include "Body.h"
#include "Waves.h"
#include "Seafloor.h"
}
namespace {
struct M3 { double a[3][3] = {}; };
M3 operator+(M3 x, const M3& y) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) x.a[i][j] += y.a[i][j]; return x; }
M3 diag(double d) { M3 m; m.a[0][0] = m.a[1][1] = m.a[2][2] = d; return m; }
Vec3 solve(const M3& m, Vec3 f)
{
	const Vec3 c0 = { m.a[0][0], m.a[1][0], m.a[2][0] }, c1 = { m.a[0][1], m.a[1][1], m.a[2][1] }, c2 = { m.a[0][2], m.a[1][2], m.a[2][2] };
	const double d = dot(c0, cross(c1, c2));
	return { dot(f, cross(c1, c2)) / d, dot(c0, cross(f, c2)) / d, dot(c0, cross(c1, f)) / d };
}
Vec3 unit(Vec3 v) { double n = norm(v); return n > 0 ? (1 / n) * v : v; }

// What is known about one line
struct LineRef {
	const MLineType* t;
	int N;
	double L, L0;        // unstretched length now and at the start
	double EA = 0;       // when set by a command
	bool pressure = false;
	std::vector<double> pin;
	bool cantA = false, cantB = false, freeA = false, freeB = false;
	Vec3 qA, qB;         // direction imposed by rods at the ends
	double damping() const // N s per unit of strain rate
	{
		if (t->BA >= 0) return t->BA;
		const double ea = t->eatab ? t->ea.back().second / t->ea.back().first : t->EA;
		return -t->BA * L0 / N * std::sqrt(ea * t->w);
	}
	double tension(double strain) const
	{
		if (strain <= 0) return 0;
		if (!t->eatab) return (EA > 0 ? EA : t->EA) * strain;
		std::vector<double> x; for (auto& p : t->ea) x.push_back(p.first);
		size_t i; double f; bracket(x, strain, i, f);
		return (1 - f) * t->ea[i].second + f * t->ea[i + 1].second;
	}
};
struct Env {
	const Model* m;
	std::function<double(double, double)> bottom;
	int tie = 0;          // how to judge segments that exactly touch the surface
	mutable bool tied = false;
	mutable double near = 1e9; // distance to the closest switch of the model
};
struct LineOut { std::vector<Vec3> F, acc, T, Bs, W, D, Ap, B; std::vector<double> kur; std::vector<M3> M; };

// submerged part of a segment: the diagonal of the cylinder from its lowest to its highest corner
double submerged(const Env& e, Vec3 a, Vec3 b, double level, double d)
{
	double za = a.z - level, zb = b.z - level;
	const bool swapped = za > zb;
	if (swapped) { std::swap(a, b); std::swap(za, zb); }
	// which end of the segment touches the surface; a segment that only touches it counts as on its side, or as its skin does
	auto touch = [&](bool first, bool above) { e.tied = true; return (e.tie >> ((first ? 0 : 1) + (above ? 2 : 0)) & 1) != 0; };
	const double eps = 1e-9;
	if (std::fabs(za) < eps && std::fabs(zb) < eps) return 0.5;
	const Vec3 ax = b - a;
	const double nz = std::hypot(ax.x, ax.y) / norm(ax) * d / 2;
	const double part = std::fabs(za - nz) / (std::fabs(za - nz) + zb + nz);
	if (std::fabs(zb) < eps) return touch(swapped, false) ? part : 1; // just below
	if (std::fabs(za) < eps) return touch(!swapped, true) ? part : 0; // just above
	e.near = std::min(e.near, std::min(std::fabs(za), std::fabs(zb)));
	if (zb < 0) return 1;
	if (za > 0) return 0;
	return part;
}

LineOut line_rhs(const Env& e, const LineRef& s, const std::vector<Vec3>& r, const std::vector<Vec3>& v, const std::vector<Kin>& w)
{
	const Model& m = *e.m;
	const MLineType& t = *s.t;
	const int N = s.N;
	const double l = s.L / N, A = M_PI / 4 * t.d * t.d, vol = A * l, mass = t.w * l;
	LineOut o;
	o.F.assign(N + 1, Vec3{}); o.acc.assign(N + 1, Vec3{}); o.M.assign(N + 1, M3{});
	for (auto* v : { &o.Bs, &o.W, &o.D, &o.Ap, &o.B }) v->assign(N + 1, Vec3{});
	o.T.assign(N, Vec3{});
	std::vector<Vec3> qs(N), q(N + 1), pv(N + 1);
	std::vector<double> ls(N), sub(N), kur(N + 1, 0.0);
	for (int i = 0; i < N; i++) {
		ls[i] = norm(r[i + 1] - r[i]);
		qs[i] = unit(r[i + 1] - r[i]);
		sub[i] = submerged(e, r[i], r[i + 1], 0.5 * (w[i].zeta + w[i + 1].zeta), t.d);
	}
	const bool bend = t.EI > 0;
	for (int i = 1; i < N; i++) q[i] = unit(r[i + 1] - r[i - 1]);
	q[0] = s.cantA && bend ? s.qA : qs[0];
	q[N] = s.cantB && bend ? s.qB : qs[N - 1];
	if (bend || s.pressure) {
		auto curv = [](double len, Vec3 a, Vec3 b) { double c = dot(a, b); return c + 2.3e-16 > 1 ? 0.0 : 4 / len * std::sqrt(0.5 * (1 - c)); };
		for (int i = 0; i <= N; i++) {
			// the direction a rod imposes is what counts, also where only the pressure bends the line
			const Vec3 a = i == 0 ? (s.cantA ? (bend ? q[0] : qs[0]) : qs[0]) : qs[i - 1];
			const Vec3 b = i == N ? (s.cantB ? (bend ? q[N] : qs[N - 1]) : qs[N - 1]) : qs[i];
			if ((i == 0 && !s.cantA) || (i == N && !s.cantB)) continue;
			kur[i] = curv(i == 0 ? ls[0] : i == N ? ls[N - 1] : ls[i - 1] + ls[i], a, b);
			if (kur[i] > 0) pv[i] = unit(cross(a, b));
			if (dot(a, b) < 0 && norm(cross(a, b)) < 1e-6) e.near = 0; // folded back on itself: bent to no side in particular
		}
	}
	for (int i = 0; i < N; i++) {
		const double rate = dot(qs[i], v[i + 1] - v[i]);
		const double T = s.tension(ls[i] / l - 1) + s.damping() * rate / l;
		if (t.eatab) { const double st = ls[i] / l - 1; for (auto& p : t.ea) e.near = std::min(e.near, 1e3 * std::fabs(st - p.first) + 1e-6); }
		o.T[i] = T * qs[i];
		o.F[i] = o.F[i] + T * qs[i];
		o.F[i + 1] = o.F[i + 1] - T * qs[i];
		// weight and buoyancy, shared by the ends
		for (int k = 0; k < 2; k++) { o.F[i + k].z -= 0.5 * m.g * (mass - sub[i] * vol * m.rho); o.W[i + k].z -= 0.5 * m.g * (mass - sub[i] * vol * m.rho); }
	}
	if (bend)
		for (int i = 0; i <= N; i++) {
			if (kur[i] == 0) continue;
			if (i > 0) { Vec3 f = (kur[i] * t.EI / ls[i - 1]) * cross(qs[i - 1], pv[i]); o.Bs[i - 1] = o.Bs[i - 1] + f; o.Bs[i] = o.Bs[i] - f; }
			if (i < N) { Vec3 f = (kur[i] * t.EI / ls[i]) * cross(qs[i], pv[i]); o.Bs[i + 1] = o.Bs[i + 1] + f; o.Bs[i] = o.Bs[i] - f; }
		}
	for (int i = 0; i <= N; i++) {
		const double len = (i > 0 ? l : 0) + (i < N ? l : 0);                                // of the segments around
		const double wet = (i > 0 ? sub[i - 1] * l : 0) + (i < N ? sub[i] * l : 0);
		const Vec3 rel = w[i].U - v[i], rq = dot(rel, q[i]) * q[i], rp = rel - rq;
		const Vec3 aq = dot(w[i].Ud, q[i]) * q[i], ap = w[i].Ud - aq;
		Vec3& F = o.F[i];
		o.D[i] = (0.5 * m.rho * t.Cd * t.d * (wet / 2) * norm(rp)) * rp + (0.5 * m.rho * t.CdAx * M_PI * t.d * (wet / 2) * norm(rq)) * rq;
		o.Ap[i] = (m.rho * (1 + t.Ca) * A * (wet / 2)) * ap + (m.rho * (1 + t.CaAx) * A * (wet / 2)) * aq;
		F = F + o.Bs[i] + o.D[i] + o.Ap[i];
		const double zb = e.bottom(r[i].x, r[i].y);
		if ((i > 0 || s.freeA) && (i < N || s.freeB) && norm(v[i]) > 1e-9) e.near = std::min(e.near, std::fabs(r[i].z - zb));
		if (r[i].z < zb) {
			const double B = ((zb - r[i].z) * m.kb - v[i].z * m.cb) * t.d * len / 2;
			o.B[i].z = B;
			const double vh = std::hypot(v[i].x, v[i].y);
			double f = vh * m.fric * m.fricDamp;
			const double mx = std::fabs(B) * m.fric;
			if (m.fric > 0 && vh > 1e-9) e.near = std::min(e.near, std::fabs(f - m.statDyn * mx) / (1 + mx));
			if (f > m.statDyn * mx) f = mx;
			if (vh > 0) { o.B[i].x = -f * v[i].x / vh; o.B[i].y = -f * v[i].y / vh; }
			F = F + o.B[i];
		}
		if (s.pressure && kur[i] > 0) {
			const double h = std::max(0.0, w[i].zeta - r[i].z);
			const double p = s.pin[i] - (m.rho * m.g * h + w[i].pdyn);
			F = F + (A * len / 2 * p * kur[i]) * cross(q[i], pv[i]);
		}
		M3 M = diag(t.w * len / 2);
		const double am = m.rho * A * wet / 2;
		const double qq[3] = { q[i].x, q[i].y, q[i].z };
		for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) M.a[a][b] += am * (t.Ca * ((a == b) - qq[a] * qq[b]) + t.CaAx * qq[a] * qq[b]);
		o.M[i] = M;
		o.acc[i] = solve(M, F);
	}
	o.kur = kur;
	return o;
}
// a free point carrying lines
Vec3 point_acc(const Model& m, const MPoint& p, Vec3 v, Vec3 U, Vec3 Flines, M3 Mlines)
{
	Vec3 F = Flines;
	F.z += m.g * (p.vol * m.rho - p.mass);
	const Vec3 rel = U - v;
	F = F + (0.5 * m.rho * p.cda * norm(rel)) * rel;
	return solve(Mlines + diag(p.mass + p.vol * m.rho * p.ca), F);
}

struct Lib {
	Sys& s;
	MoorDynWaves waves;
	MoorDynSeafloor floor;
	MoorDynLine line(int l) { return apip([&] { return MoorDyn_GetLine(s.md, (unsigned)l + 1); }); }
	explicit Lib(Sys& ss) : s(ss)
	{
		waves = apip([&] { return MoorDyn_GetWaves(s.md); });
		floor = s.m->seafloor3d ? apip([&] { return MoorDyn_GetSeafloor(s.md); }) : nullptr;
	}
	Kin kin(Vec3 p)
	{
		Kin k; double U[3], A[3];
		int r = api([&] { return MoorDyn_GetWavesKin(waves, p.x, p.y, p.z, U, A, &k.zeta, &k.pdyn, floor); });
		if (r) throw Violation{ "query", fmt("GetWavesKin returns %d", r) };
		k.U = { U[0], U[1], U[2] }; k.Ud = { A[0], A[1], A[2] };
		return k;
	}
	double bottom(double x, double y)
	{
		if (!floor) return -s.m->depth;
		double d = 0;
		api([&] { return MoorDyn_GetDepthAt(floor, x, y, &d); });
		return d;
	}
	void point(int p, Vec3& r, Vec3& v)
	{
		double a[3];
		MoorDynPoint P = apip([&] { return MoorDyn_GetPoint(s.md, (unsigned)p + 1); });
		api([&] { return MoorDyn_GetPointPos(P, a); }); r = { a[0], a[1], a[2] };
		api([&] { return MoorDyn_GetPointVel(P, a); }); v = { a[0], a[1], a[2] };
	}
	Vec3 rodnode(int r, int i)
	{
		double a[3];
		MoorDynRod R = apip([&] { return MoorDyn_GetRod(s.md, (unsigned)r + 1); });
		api([&] { return MoorDyn_GetRodNodePos(R, (unsigned)i, a); });
		return { a[0], a[1], a[2] };
	}
};
struct State { std::vector<std::vector<Vec3>> r, v; std::vector<Vec3> pr, pv; };
State read(Lib& L)
{
	State o;
	const Model& m = *L.s.m;
	for (size_t l = 0; l < m.lines.size(); l++) {
		o.r.emplace_back(); o.v.emplace_back();
		for (int i = 0; i <= m.lines[l].n; i++) { o.r[l].push_back(L.s.node((int)l, i)); o.v[l].push_back(L.s.nodevel((int)l, i)); }
	}
	for (size_t p = 0; p < m.points.size(); p++) { Vec3 r, v; L.point((int)p, r, v); o.pr.push_back(r); o.pv.push_back(v); }
	return o;
}
bool close(Vec3 a, Vec3 b, double tol) { return std::fabs(a.x - b.x) <= tol && std::fabs(a.y - b.y) <= tol && std::fabs(a.z - b.z) <= tol; }
std::string str(Vec3 a) { return fmt("(%.9g,%.9g,%.9g)", a.x, a.y, a.z); }
LineRef line_ref(const Model& m, int l) { LineRef r; r.t = &m.lt[m.lines[l].ltype]; r.N = m.lines[l].n; r.L = r.L0 = m.lines[l].len;
	auto fr = [&](const MEnd& e) { return !e.rod && m.points[e.idx].type == P_FREE; };
	r.freeA = fr(m.lines[l].a); r.freeB = fr(m.lines[l].b);
	return r; }

// How many ways there are to judge segments that exactly touch the surface
int ties(const Model& m) { for (auto& p : m.points) if (p.type != P_FREE && p.type != P_BODY && p.p.z == 0) return 16; return 1; }
// The direction of nearly straight bends is lost in rounding: acceleration this may cause
double noise(const LineRef& s)
{
	const double l = s.L / s.N, k = 4e-7 / l;
	double f = s.t->EI * k / l;
	if (s.pressure) f += M_PI / 4 * s.t->d * s.t->d * l * 5e6 * k;
	return f / (s.t->w * l);
}
}
