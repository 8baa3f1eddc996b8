// C22 the loads handed to the host and to queries are the ones that act; C23 rods and bodies move as rigid bodies under them
#include "eom.hpp"
namespace {
struct L6 { Vec3 f, m; };
Vec3 operator*(const M3& m, Vec3 v) { return { m.a[0][0] * v.x + m.a[0][1] * v.y + m.a[0][2] * v.z, m.a[1][0] * v.x + m.a[1][1] * v.y + m.a[1][2] * v.z, m.a[2][0] * v.x + m.a[2][1] * v.y + m.a[2][2] * v.z }; }
L6 operator+(L6 a, const L6& b) { return { a.f + b.f, a.m + b.m }; }
// 6x6 mass about a reference point
struct M6 { double a[6][6] = {}; };
M6 operator+(M6 x, const M6& y) { for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) x.a[i][j] += y.a[i][j]; return x; }
// a translational mass at offset r: f = M (a + alpha x r), m = r x f
M6 at(Vec3 r, const M3& m)
{
	M6 o;
	const double X[3][3] = { { 0, -r.z, r.y }, { r.z, 0, -r.x }, { -r.y, r.x, 0 } }; // X v = r x v
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
		o.a[i][j] = m.a[i][j];
		for (int k = 0; k < 3; k++) {
			o.a[3 + i][j] += X[i][k] * m.a[k][j];
			o.a[i][3 + j] -= m.a[i][k] * X[k][j];
			for (int l = 0; l < 3; l++) o.a[3 + i][3 + j] -= X[i][k] * m.a[k][l] * X[l][j];
		}
	}
	return o;
}
// move the reference point by -d (the object is at offset d of the new one)
M6 shift(Vec3 d, const M6& m)
{
	const double X[3][3] = { { 0, -d.z, d.y }, { d.z, 0, -d.x }, { -d.y, d.x, 0 } };
	double T[6][6] = {}; // a_old = T a_new
	for (int i = 0; i < 6; i++) T[i][i] = 1;
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) T[i][3 + j] = -X[i][j];
	M6 o;
	for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) for (int k = 0; k < 6; k++) for (int l = 0; l < 6; l++) o.a[i][j] += T[k][i] * m.a[k][l] * T[l][j];
	return o;
}
M3 aniso(double n, double t, Vec3 q) // n across the axis q, t along it
{
	M3 m; const double v[3] = { q.x, q.y, q.z };
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.a[i][j] = n * ((i == j) - v[i] * v[j]) + t * v[i] * v[j];
	return m;
}
L6 mul(const M6& m, Vec3 a, Vec3 al)
{
	const double x[6] = { a.x, a.y, a.z, al.x, al.y, al.z }; double y[6] = {};
	for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) y[i] += m.a[i][j] * x[j];
	return { { y[0], y[1], y[2] }, { y[3], y[4], y[5] } };
}
// accelerations; pinned: the translation is given
void accelerate(const M6& m, const L6& f, bool pinned, Vec3& a, Vec3& al)
{
	if (pinned) {
		M3 b; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) b.a[i][j] = m.a[3 + i][3 + j];
		al = solve(b, f.m - mul(m, a, {}).m);
		return;
	}
	double A[6][7];
	const double y[6] = { f.f.x, f.f.y, f.f.z, f.m.x, f.m.y, f.m.z };
	for (int i = 0; i < 6; i++) { for (int j = 0; j < 6; j++) A[i][j] = m.a[i][j]; A[i][6] = y[i]; }
	for (int c = 0; c < 6; c++) {
		int p = c;
		for (int r = c + 1; r < 6; r++) if (std::fabs(A[r][c]) > std::fabs(A[p][c])) p = r;
		for (int k = 0; k < 7; k++) std::swap(A[c][k], A[p][k]);
		for (int r = 0; r < 6; r++) if (r != c) { const double f2 = A[r][c] / A[c][c]; for (int k = c; k < 7; k++) A[r][k] -= f2 * A[c][k]; }
	}
	double x[6];
	for (int i = 0; i < 6; i++) x[i] = A[i][6] / A[i][i];
	a = { x[0], x[1], x[2] }; al = { x[3], x[4], x[5] };
}
double big(const M6& m) { double b = 0; for (int i = 0; i < 6; i++) b += m.a[i][i]; return b; }
double maxabs(Vec3 v) { return std::max(std::fabs(v.x), std::max(std::fabs(v.y), std::fabs(v.z))); }
struct Snap {
	State s;
	std::vector<Vec3> ra, rb, va, vb, bp, bang, bv, bw;
};
Snap snap(Lib& L)
{
	Snap o;
	o.s = read(L);
	const Model& m = *L.s.m;
	for (size_t i = 0; i < m.rods.size(); i++) {
		double a[3];
		MoorDynRod R = apip([&] { return MoorDyn_GetRod(L.s.md, (unsigned)i + 1); });
		auto get = [&](int n, bool vel) { api([&] { return vel ? MoorDyn_GetRodNodeVel(R, (unsigned)n, a) : MoorDyn_GetRodNodePos(R, (unsigned)n, a); }); return Vec3{ a[0], a[1], a[2] }; };
		o.ra.push_back(get(0, false)); o.rb.push_back(get(m.rods[i].n, false)); o.va.push_back(get(0, true)); o.vb.push_back(get(m.rods[i].n, true));
	}
	for (size_t i = 0; i < m.bodies.size(); i++) {
		double r[6], v[6];
		MoorDynBody B = apip([&] { return MoorDyn_GetBody(L.s.md, (unsigned)i + 1); });
		api([&] { return MoorDyn_GetBodyState(B, r, v); });
		o.bp.push_back({ r[0], r[1], r[2] }); o.bang.push_back({ r[3], r[4], r[5] }); o.bv.push_back({ v[0], v[1], v[2] }); o.bw.push_back({ v[3], v[4], v[5] });
	}
	return o;
}
void run(Sim& S, bool motion)
{
	ModelOpts o;
	o.outputs = o.logfile = false; o.ic = o.always_ic = S.chance(1, 4); o.fixed_dt = true; o.schemes = { "Euler" }; o.surface_rods = true;
	Model m = make_model(S, "a", o);
	m.install();
	Motion q = make_motion(S, m, 1.5);
	for (size_t i = 0; i < m.x0.size(); i++) if (m.dof_dir[i] >= 3 && S.chance(2, 3)) q.amp[i] = 0;
	Sys s;
	start(S, s, m, q);
	Lib L(s);
	double h = 0;
	api([&] { return MoorDyn_GetDt(s.md, &h); });
	std::vector<LineRef> ref;
	for (size_t l = 0; l < m.lines.size(); l++) ref.push_back(line_ref(m, (int)l));
	const int n = motion ? S.range(1, 12) : S.range(2, S.thorough() ? 40 : 20);
	const int nb = (int)m.bodies.size(), nr = (int)m.rods.size(), np = (int)m.points.size();
	long checked = 0;
	std::vector<double> x, xd;
	for (int k = 0; k < n; k++) {
		const int skip = motion ? (int)S.draw(3) : (int)S.draw(25);
		for (int j = 0; j < skip; j++) {
			q.at(s.t, x, xd);
			if (s.step_x(x, xd, h) || !s.finite()) throw Discard{ "diverged" };
		}
		if (S.chance(1, 6)) {
			int l = (int)S.draw((uint32_t)m.lines.size());
			MoorDynLine ll = L.line(l);
			const int what = (int)S.draw(3);
			if (what == 0) { double len = ref[l].L * S.real(0.97, 1.04); api([&] { return MoorDyn_SetLineUnstretchedLength(ll, len); }); ref[l].L = len; }
			else if (what == 1) {
				ref[l].pressure = true;
				ref[l].pin.clear();
				for (int i = 0; i <= ref[l].N; i++) ref[l].pin.push_back(S.real(0, 2e6));
				api([&] { return MoorDyn_SetLinePressBend(ll, 1); });
				api([&] { return MoorDyn_SetLinePressInt(ll, ref[l].pin.data()); });
			} else { ref[l].pressure = false; api([&] { return MoorDyn_SetLinePressBend(ll, 0); }); }
			S.fault("line command");
		}
		// two internal steps; the host may change its velocity in between
		q.at(s.t, x, xd);
		const bool turning = !motion && S.chance(1, 3);
		if (!turning) for (size_t i = 0; i < m.x0.size(); i++) if (m.dof_dir[i] >= 3) xd[i] = 0;
		if (s.step_x(x, xd, h) || !s.finite()) throw Discard{ "diverged" };
		const double h1 = h; // the coupling step before
		const double h = S.chance(1, 3) ? h1 * S.real(0.1, 0.95) : h1; // this one, of one internal step
		if (h != h1) S.fault("coupling step below the internal one");
		std::vector<double> x1 = x, xd1 = xd;
		for (size_t i = 0; i < x1.size(); i++) x1[i] += xd[i] * h1;
		if (S.chance(1, 3)) { for (size_t i = 0; i < m.x0.size(); i++) if (m.dof_dir[i] < 3) xd1[i] += h * S.real(-3, 3); S.fault("host accelerates"); }
		Snap a = snap(L);
		// velocities the host imposes in the second step
		std::vector<Vec3> ba(nb), ra_(nr), pa(np); // accelerations given by the host
		{
			size_t hi = 0;
			auto d3 = [&](size_t i) { return Vec3{ xd1[i] - xd[i], xd1[i + 1] - xd[i + 1], xd1[i + 2] - xd[i + 2] }; };
			std::vector<Vec3> dr(nr), dp(np);
			for (int i = 0; i < nb; i++) if (m.bodies[i].type == B_CPL || m.bodies[i].type == B_CPLPIN) {
				const Vec3 d = d3(hi); hi += 6;
				a.bv[i] = a.bv[i] + d; ba[i] = (1 / h) * d;
				for (int j = 0; j < nr; j++) if (m.rods[j].body == i) dr[j] = d;
				for (int j = 0; j < np; j++) if (m.points[j].body == i) dp[j] = d;
			}
			for (int i = 0; i < nr; i++) if (m.rods[i].type == R_CPL || m.rods[i].type == R_CPLPIN) { dr[i] = d3(hi); ra_[i] = (1 / h) * dr[i]; hi += m.rods[i].type == R_CPL ? 6 : 3; }
			for (int i = 0; i < np; i++) if (m.points[i].type == P_CPL) { dp[i] = d3(hi); hi += 3; }
			for (int i = 0; i < nr; i++) { a.va[i] = a.va[i] + dr[i]; a.vb[i] = a.vb[i] + dr[i]; }
			for (int i = 0; i < np; i++) a.s.pv[i] = a.s.pv[i] + dp[i];
			for (size_t l = 0; l < m.lines.size(); l++) for (int e = 0; e < 2; e++) {
				const MEnd& me = e ? m.lines[l].b : m.lines[l].a;
				Vec3& v = e ? a.s.v[l].back() : a.s.v[l][0];
				v = v + (me.rod ? dr[me.idx] : dp[me.idx]);
			}
		}
		// what acts here
		Env e; e.m = &m; e.bottom = [&](double xx, double yy) { return L.bottom(xx, yy); };
		std::vector<LineOut> out(m.lines.size());
		std::vector<L6> pf(np), rf(nr), bf(nb);
		std::vector<M3> pm(np), rend(2 * nr); std::vector<M6> rm(nr), bm(nb);
		std::vector<double> tolp(np, 0.0), tolr(nr, 0.0), tolb(nb, 0.0), tolbf(nb, 0.0), toll(m.lines.size(), 0.0);
		for (size_t l = 0; l < m.lines.size(); l++) {
			const MLine& ml = m.lines[l];
			LineRef& r = ref[l];
			auto dir = [&](const MEnd& me) { return unit(a.rb[me.idx] - a.ra[me.idx]); };
			if (ml.a.rod) { r.cantA = true; r.qA = (ml.a.end ? 1.0 : -1.0) * dir(ml.a); }
			if (ml.b.rod) { r.cantB = true; r.qB = (ml.b.end ? -1.0 : 1.0) * dir(ml.b); }
			r.freeA = r.freeB = true;
			std::vector<Kin> w;
			for (auto& p : a.s.r[l]) w.push_back(L.kin(p));
			out[l] = line_rhs(e, r, a.s.r[l], a.s.v[l], w);
			double sc = 0;
			for (auto& T : out[l].T) sc = std::max(sc, norm(T));
			for (int i = 0; i <= r.N; i++) sc = std::max(sc, norm(out[l].D[i]) + norm(out[l].B[i]) + norm(out[l].W[i]) + norm(out[l].Bs[i]));
			const double len = r.L / r.N;
			// stiffness times the rounding of the positions, and the noise of nearly straight bends
			const double EA = r.t->eatab ? 1.5e6 : r.t->EA;
			toll[l] = 1e-9 * sc + 1e-5 + EA / len * 1e-13 * 100 + noise(r) * r.t->w * len * 4 + m.kb * r.t->d * len * 1e-12;
			for (int k2 = 0; k2 < 2; k2++) {
				const MEnd& me = k2 ? ml.b : ml.a;
				L6 f; f.f = k2 ? out[l].F[r.N] : out[l].F[0];
				const M3& M = k2 ? out[l].M[r.N] : out[l].M[0];
				if (me.rod && r.t->EI > 0) { // what bends the line pushes back on the rod
					const Vec3 qe = k2 ? unit(a.s.r[l][r.N] - a.s.r[l][r.N - 1]) : unit(a.s.r[l][1] - a.s.r[l][0]), qr = k2 ? r.qB : r.qA;
					const Vec3 from = k2 ? qe : qr, to = k2 ? qr : qe;
					const double kk = k2 ? out[l].kur[r.N] : out[l].kur[0];
					if (kk > 0) f.m = ((k2 ? -1.0 : 1.0) * r.t->EI * kk) * unit(cross(from, to));
					tolr[me.idx] += 10 * r.t->EI * 4e-7 / len;
				}
				if (!me.rod) { pf[me.idx] = pf[me.idx] + f; pm[me.idx] = pm[me.idx] + M; tolp[me.idx] += toll[l]; }
				else {
					const Vec3 off = me.end ? a.rb[me.idx] - a.ra[me.idx] : Vec3{};
					f.m = f.m + cross(off, f.f);
					rf[me.idx] = rf[me.idx] + f; rm[me.idx] = rm[me.idx] + at(off, M); rend[2 * me.idx + (me.end ? 1 : 0)] = rend[2 * me.idx + (me.end ? 1 : 0)] + M; tolr[me.idx] += toll[l];
				}
			}
		}
		for (int i = 0; i < np; i++) {
			const MPoint& p = m.points[i];
			const Vec3 rel = L.kin(a.s.pr[i]).U - a.s.pv[i];
			pf[i].f = pf[i].f + (0.5 * m.rho * p.cda * norm(rel)) * rel + Vec3{ 0, 0, m.g * (m.rho * p.vol - p.mass) };
			pm[i] = pm[i] + diag(p.mass + m.rho * p.vol * p.ca);
			tolp[i] += 1e-6 + 1e-9 * norm(pf[i].f);
		}
		std::vector<bool> rwet(nr, true);
		std::vector<std::vector<M3>> rnode(nr); // mass of the nodes of the rods
		auto pull = [&](int j, Vec3 o, Vec3 w) { Vec3 f; const int N = m.rods[j].n; for (int k2 = 0; k2 <= N; k2++) { const Vec3 r = a.ra[j] + ((double)k2 / N) * (a.rb[j] - a.ra[j]); f = f + rnode[j][k2] * cross(w, cross(w, r - o)); } return f; };
		for (int i = 0; i < nr; i++) {
			const MRodType& t = m.rt[m.rods[i].rtype];
			const Vec3 ax = a.rb[i] - a.ra[i], qr = unit(ax);
			const double len = norm(ax), A = M_PI / 4 * t.d * t.d, rad = t.d / 2;
			const int N = m.rods[i].n;
			// how far it is under water: along the axis by its length, across it by the cross sections at the nodes
			const double zt = L.kin(a.rb[i]).zeta, za = a.ra[i].z - zt, zb2 = a.rb[i].z - zt, sp = std::hypot(qr.x, qr.y), cp = qr.z;
			std::vector<double> vof(N + 1, 1.0), zc(N + 1);
			bool wet = true, edge = false;
			for (int j = 0; j <= N; j++) {
				const double f = (double)j / N, z = za + f * (zb2 - za), s0 = j == 0 ? 0 : (j - 0.5) / N, s1 = j == N ? 1 : (j + 0.5) / N;
				const double hi = z + rad * sp, lo = z - rad * sp, c = -za / (zb2 - za); // c: where the axis crosses the surface
				if (std::fabs(hi) < 1e-3 || std::fabs(lo) < 1e-3 || std::fabs(z) < 1e-4) edge = true;
				double v0 = za < 0 && zb2 < 0 ? 1 : za > 0 && zb2 > 0 ? 0 : za < 0 ? std::min(1.0, std::max(0.0, (c - s0) / (s1 - s0))) : std::min(1.0, std::max(0.0, (s1 - c) / (s1 - s0)));
				double area = lo > 0 ? 0 : 1;
				zc[j] = lo > 0 ? 0 : z + zt;
				if (lo <= 0 && hi >= 0) {
					if (sp < 0.002) { edge = true; continue; }
					const double al = std::acos(z / sp / rad);
					area = (2 * al - std::sin(2 * al)) / (2 * M_PI);
					zc[j] = z + zt - 2.0 / 3 * t.d * std::pow(std::sin(al), 3) / (2 * al - std::sin(2 * al));
				}
				vof[j] = v0 * cp * cp + area * sp * sp;
				if (vof[j] < 1 - 1e-12) wet = false;
			}
			if (edge) rwet[i] = false;
			if (!wet && !edge) S.probe(qr.z < 0 ? "rod across the surface, described from its upper end" : "rod across the surface");
			const Vec3 hz = sp < 1e-6 ? Vec3{ 0, -1, 0 } : (1 / sp) * Vec3{ qr.y, -qr.x, 0 };
			L6 w; w.f = { 0, 0, -m.g * len * t.w };
			w.m = cross(0.5 * ax, w.f);
			if (za * zb2 < 0) w.m = w.m + (M_PI / 16 * std::pow(t.d, 4) * m.rho * m.g * sp * cp) * hz;
			// a uniform cylinder, about end A
			M6 M = at(0.5 * ax, diag(t.w * len));
			const M3 I = aniso(t.w * len * (rad * rad / 4 + len * len / 12), t.w * len * rad * rad / 2, qr);
			for (int c = 0; c < 3; c++) for (int d = 0; d < 3; d++) M.a[3 + c][3 + d] += I.a[c][d];
			for (int j = 0; j <= N; j++) {
				const double f = (double)j / N, dl = len / N * (j == 0 || j == N ? 0.5 : 1.0);
				const Vec3 r = a.ra[i] + f * ax, v = (1 - f) * a.va[i] + f * a.vb[i];
				const Kin kin = L.kin(r);
				const Vec3 rel = kin.U - v, vq = dot(rel, qr) * qr, vp = rel - vq, aq = dot(kin.Ud, qr) * qr, ap = kin.Ud - aq;
				L6 c;
				const double V = vof[j];
				c.f = (V * 0.5 * m.rho * t.Cd * t.d * dl * norm(vp)) * vp + (V * m.rho * (1 + t.Ca) * A * dl) * ap + (V * m.rho * m.g * A * dl) * (Vec3{ 0, 0, 1 } - cp * qr);
				M3 am = aniso(V * m.rho * A * dl * t.Ca, 0, qr);
				if (j == 0 || j == N) {
					const double ve = 2.0 / 3 * M_PI * rad * rad * rad;
					const double VE = r.z - rad * sp < zt ? V : 0, sg = j == 0 ? 1 : -1; // (an end under water)
					c.f = c.f + (VE * 0.5 * m.rho * t.CdEnd * A * norm(vq)) * vq + (VE * m.rho * t.CaEnd * ve) * aq + (VE * sg * A * (kin.pdyn - m.rho * m.g * zc[j])) * qr;
					c.m = (-VE * sg * M_PI / 64 * std::pow(t.d, 4) * m.rho * m.g * sp) * hz;
					am = am + aniso(0, VE * m.rho * t.CaEnd * ve, qr);
				}
				const double zb = L.bottom(r.x, r.y);
				if (norm(v) > 1e-9) e.near = std::min(e.near, std::fabs(r.z - zb));
				if (r.z < zb) c.f.z += ((zb - r.z) * m.kb - v.z * m.cb) * t.d * dl;
				c.m = c.m + cross(r - a.ra[i], c.f);
				w = w + c; M = M + at(r - a.ra[i], am);
				rnode[i].push_back(am + diag(t.w * dl));
				if (j == 0) rnode[i].back() = rnode[i].back() + rend[2 * i];
				if (j == N) rnode[i].back() = rnode[i].back() + rend[2 * i + 1];
				tolr[i] += 1e-9 * norm(c.f) + m.kb * t.d * dl * 1e-11;
			}
			// (the heading of a rod this close to the vertical is taken as zero)
			if (std::hypot(qr.x, qr.y) < 2e-6) tolr[i] += 5e-6 * m.rho * m.g * A * (m.depth + len);
			rf[i] = rf[i] + w; rm[i] = rm[i] + M;
			tolr[i] += 1e-5 + 1e-8 * (norm(rf[i].f) + norm(rf[i].m)) + 1e-9 * m.rho * m.g * A * 60;
		}
		for (int i = 0; i < nb; i++) {
			const MBody& B = m.bodies[i];
			if (B.type == B_FREE || B.type == B_CPLPIN) {
				auto R = [&](Vec3 v) { return rot_euler(a.bang[i], v); };
				const Vec3 ex = R({ 1, 0, 0 }), ey = R({ 0, 1, 0 }), ez = R({ 0, 0, 1 }), cg = R(B.cg);
				auto along = [&](Vec3 c, Vec3 v) { return (c.x * dot(v, ex)) * ex + (c.y * dot(v, ey)) * ey + (c.z * dot(v, ez)) * ez; };
				L6 w; w.f = { 0, 0, m.g * (m.rho * B.vol - B.mass) };
				w.m = cross(cg, w.f);
				const Vec3 rel = L.kin(a.bp[i]).U - a.bv[i], rw = -1.0 * a.bw[i];
				w.f = w.f + (0.5 * m.rho * norm(rel)) * along(B.cdt, rel);
				w.m = w.m + (0.5 * m.rho * norm(rw)) * along(B.cdr, rw);
				bf[i] = bf[i] + w;
				M6 M = at(cg, diag(B.mass));
				const Vec3 un[3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
				for (int c = 0; c < 3; c++) {
					const Vec3 Ic = along(B.I, un[c]), Ac = m.rho * B.vol * along(B.ca, un[c]);
					M.a[3][3 + c] += Ic.x; M.a[4][3 + c] += Ic.y; M.a[5][3 + c] += Ic.z;
					M.a[0][c] += Ac.x; M.a[1][c] += Ac.y; M.a[2][c] += Ac.z;
				}
				bm[i] = bm[i] + M;
				bf[i].f = bf[i].f - mul(M, cross(a.bw[i], cross(a.bw[i], cg)), {}).f; // what turns pulls outwards
			}
			for (int j = 0; j < np; j++) if (m.points[j].body == i) {
				const Vec3 off = a.s.pr[j] - a.bp[i];
				L6 c = pf[j]; c.m = c.m + cross(off, c.f); c.f = c.f - pm[j] * cross(a.bw[i], cross(a.bw[i], off)); bf[i] = bf[i] + c; bm[i] = bm[i] + at(off, pm[j]); tolb[i] += 5 * tolp[j];
			}
			for (int j = 0; j < nr; j++) if (m.rods[j].body == i) {
				if (!rwet[j] || m.rods[j].type == R_BODYPIN) { tolb[i] = 1e300; continue; } // (a pinned rod that moves: its moment is its own)
				const Vec3 off = a.ra[j] - a.bp[i];
				L6 c = rf[j]; c.m = c.m + cross(off, c.f); c.f = c.f - pull(j, a.bp[i], a.bw[i]); bf[i] = bf[i] + c; bm[i] = bm[i] + shift(off, rm[j]); tolb[i] += 5 * tolr[j];
			}
			tolb[i] += 1e-4 + 1e-8 * (norm(bf[i].f) + norm(bf[i].m));
			// what turns is subject to forces that are not part of these checks
			const double w2 = dot(a.bw[i], a.bw[i]);
			tolbf[i] = tolb[i];
			tolb[i] += 2 * big(bm[i]) * w2;
			if (B.type == B_CPLPIN) tolbf[i] = tolb[i];
		}
		S.mark(fmt("%d %d", skip, (int)e.tied));
		if (s.step_x(x1, xd1, h)) throw Discard{ "diverged" };
		if (e.tied || e.near < 1e-7) { S.probe("at a switch of the model"); continue; }
		checked++;
		auto v3 = [](const double* f) { return Vec3{ f[0], f[1], f[2] }; };
		auto same = [&](const std::string& who, Vec3 got, Vec3 want, double tol) {
			if (!(maxabs(got - want) <= tol)) throw Violation{ "load", fmt("t=%.17g %s: %s, what acts is %s (tolerance %g)", s.t, who.c_str(), str(got).c_str(), str(want).c_str(), tol) };
		};
		if (!motion) {
			// ---- lines
			for (size_t l = 0; l < m.lines.size(); l++) {
				MoorDynLine ll = L.line((int)l);
				const LineOut& u = out[l];
				const int N = ref[l].N;
				const double tol = toll[l];
				double mx = 0;
				for (int i = 0; i <= N; i++) {
					double f[3];
					const std::string who = fmt("line %zu node %d ", l + 1, i);
					const Vec3 ten = i == 0 ? u.T[0] : i == N ? u.T[N - 1] : 0.5 * (u.T[i - 1] + u.T[i]);
					mx = std::max(mx, norm(ten));
					api([&] { return MoorDyn_GetLineNodeTen(ll, (unsigned)i, f); }); same(who + "tension", v3(f), ten, tol);
					api([&] { return MoorDyn_GetLineNodeForce(ll, (unsigned)i, f); }); same(who + "net force", v3(f), u.F[i], 4 * tol);
					api([&] { return MoorDyn_GetLineNodeBendStiff(ll, (unsigned)i, f); }); same(who + "bending force", v3(f), u.Bs[i], tol);
					api([&] { return MoorDyn_GetLineNodeWeight(ll, (unsigned)i, f); }); same(who + "weight", v3(f), u.W[i], tol);
					api([&] { return MoorDyn_GetLineNodeDrag(ll, (unsigned)i, f); }); same(who + "drag", v3(f), u.D[i], tol);
					api([&] { return MoorDyn_GetLineNodeFroudeKrilov(ll, (unsigned)i, f); }); same(who + "Froude-Krylov force", v3(f), u.Ap[i], tol);
					api([&] { return MoorDyn_GetLineNodeSeabedForce(ll, (unsigned)i, f); }); same(who + "seabed force", v3(f), u.B[i], tol);
					double c = 0, M[3][3];
					api([&] { return MoorDyn_GetLineNodeCurv(ll, (unsigned)i, &c); });
					if ((ref[l].t->EI > 0 || ref[l].pressure) && std::fabs(c - u.kur[i]) > 1e-6) throw Violation{ "load", fmt("t=%.17g %scurvature %.9g, it is %.9g", s.t, who.c_str(), c, u.kur[i]) };
					api([&] { return MoorDyn_GetLineNodeM(ll, (unsigned)i, M); });
					for (int p = 0; p < 3; p++) for (int r = 0; r < 3; r++) if (std::fabs(M[p][r] - u.M[i].a[p][r]) > 1e-8 * (1 + u.M[i].a[0][0] + u.M[i].a[2][2]))
						throw Violation{ "load", fmt("t=%.17g %smass matrix (%d,%d) %.9g, it is %.9g", s.t, who.c_str(), p, r, M[p][r], u.M[i].a[p][r]) };
				}
				double t = 0;
				api([&] { return MoorDyn_GetLineFairTen(ll, &t); });
				if (std::fabs(t - norm(u.T[N - 1])) > 2 * tol) throw Violation{ "load", fmt("t=%.17g fairlead tension of line %zu: %.9g, it is %.9g", s.t, l + 1, t, norm(u.T[N - 1])) };
				api([&] { return MoorDyn_GetLineMaxTen(ll, &t); });
				if (std::fabs(t - mx) > 2 * tol) throw Violation{ "load", fmt("t=%.17g maximum tension of line %zu: %.9g, it is %.9g", s.t, l + 1, t, mx) };
			}
		}
		const Snap b = snap(L);
		size_t hi = 0;
		for (int i = 0; i < nb; i++) {
			const BType t = m.bodies[i].type;
			const std::string who = fmt("body %d", i + 1);
			L6 want = bf[i];
			Vec3 acc = ba[i], al;
			if (t == B_FREE || t == B_CPLPIN) accelerate(bm[i], bf[i], t == B_CPLPIN, acc, al);
			if (t == B_CPL) { const L6 in = mul(bm[i], acc, {}); want = { want.f - in.f, want.m - in.m }; }
			if (t == B_CPLPIN) { const L6 in = mul(bm[i], acc, al); want = { want.f - in.f, Vec3{} }; }
			const double tol = tolb[i];
			if (!motion) {
				double f[6];
				MoorDynBody B = apip([&] { return MoorDyn_GetBody(s.md, (unsigned)i + 1); });
				api([&] { return MoorDyn_GetBodyForce(B, f); });
				same(who + " force", v3(f), want.f, tolbf[i]); same(who + " moment", v3(f + 3), want.m, 10 * tol);
				if (t == B_CPL || t == B_CPLPIN) { same("host force of " + who, v3(&s.f[hi]), want.f, tolbf[i]); same("host moment of " + who, v3(&s.f[hi + 3]), want.m, 10 * tol); }
				if (dot(a.bw[i], a.bw[i]) > 1e-4 && tolbf[i] < 1e3) S.probe("load of a turning body");
				double M[6][6];
				api([&] { return MoorDyn_GetBodyM(B, M); });
				bool rods = false;
				for (int j = 0; j < nr; j++) if (m.rods[j].body == i && (!rwet[j])) rods = true;
				if (!rods) for (int p = 0; p < 6; p++) for (int r = 0; r < 6; r++) {
					bool pin = false;
					for (int j = 0; j < nr; j++) if (m.rods[j].body == i && m.rods[j].type == R_BODYPIN) pin = true;
					if (!pin && std::fabs(M[p][r] - bm[i].a[p][r]) > 1e-6 * (1 + big(bm[i]))) throw Violation{ "load", fmt("t=%.17g mass matrix of %s (%d,%d) %.9g, it is %.9g", s.t, who.c_str(), p, r, M[p][r], bm[i].a[p][r]) };
				}
				if (tol < 1e3) S.probe(std::string("body load: ") + (t == B_FREE ? "free" : t == B_FIXED ? "fixed" : t == B_CPL ? "coupled" : "coupled pinned"));
			} else if (t == B_FREE || t == B_CPLPIN) {
				const double w2 = dot(a.bw[i], a.bw[i]);
				if (tol > 1e200 || w2 > 1e-4) continue;
				const double mn = m.bodies[i].mass, ti = 3e4;
				if (t == B_FREE) same(who + " acceleration", (1 / h) * (b.bv[i] - a.bv[i]), acc, 1e-7 * (1 + norm(acc)) + tol / mn + 1e-10 / h);
				same(who + " angular acceleration", (1 / h) * (b.bw[i] - a.bw[i]), al, 1e-7 * (1 + norm(al)) + 5 * tol / ti + 1e-10 / h);
				S.probe("body acceleration");
			}
			if (t == B_CPL || t == B_CPLPIN) hi += 6;
		}
		for (int i = 0; i < nr; i++) {
			const RType t = m.rods[i].type;
			const std::string who = fmt("rod %d", i + 1);
			const Vec3 ax = a.rb[i] - a.ra[i];
			L6 want = rf[i];
			Vec3 acc = ra_[i], al;
			const bool pin = t == R_PINNED || t == R_BODYPIN || t == R_CPLPIN;
			if (t == R_FREE || pin) accelerate(rm[i], rf[i], pin, acc, al);
			if (t == R_CPL) { const L6 in = mul(rm[i], acc, {}); want = { want.f - in.f, want.m - in.m }; }
			if (t == R_CPLPIN) { const L6 in = mul(rm[i], acc, al); want = { want.f - in.f, Vec3{} }; }
			const double tol = tolr[i];
			if (rwet[i] && !motion) {
				double f[6];
				MoorDynRod R = apip([&] { return MoorDyn_GetRod(s.md, (unsigned)i + 1); });
				api([&] { return MoorDyn_GetRodForce(R, f); });
				same(who + " force", v3(f), want.f, tol); same(who + " moment", v3(f + 3), want.m, 10 * tol);
				if (t == R_CPL || t == R_CPLPIN) same("host force of " + who, v3(&s.f[hi]), want.f, tol);
				if (t == R_CPL) same("host moment of " + who, v3(&s.f[hi + 3]), want.m, 10 * tol);
				double M[6][6];
				api([&] { return MoorDyn_GetRodM(R, M); });
				for (int p = 0; p < 6; p++) for (int r = 0; r < 6; r++) if (std::fabs(M[p][r] - rm[i].a[p][r]) > (std::hypot(ax.x, ax.y) < 2e-6 * norm(ax) ? 5e-6 : 1e-7) * (1 + big(rm[i])))
					throw Violation{ "load", fmt("t=%.17g mass matrix of %s (%d,%d) %.9g, it is %.9g", s.t, who.c_str(), p, r, M[p][r], rm[i].a[p][r]) };
				static const char* tn[] = { "fixed", "pinned", "free", "coupled", "coupled pinned", "on a body", "pinned on a body" };
				S.probe(std::string("rod load: ") + tn[t]);
			}
			if (rwet[i] && motion && (t == R_FREE || t == R_PINNED || t == R_CPLPIN)) {
				const double len = norm(ax), w2 = dot(a.vb[i] - a.va[i], a.vb[i] - a.va[i]) / (len * len);
				if (w2 < 1e-4) {
					const double slack = 3 * w2 * len + 1e-7 * (1 + norm(acc) + len * norm(al)) + tol / (m.rt[m.rods[i].rtype].w) + 1e-10 / h + 5 * h * norm(al) * std::sqrt(w2) * len + h * dot(al, al) * h * len;
					if (t == R_FREE) same(who + " acceleration of end A", (1 / h) * (b.va[i] - a.va[i]), acc, slack);
					const Vec3 dA = t == R_FREE ? acc : Vec3{};
					same(who + " acceleration of end B", (1 / h) * (b.vb[i] - a.vb[i]), dA + cross(al, ax), slack);
					S.probe("rod acceleration");
				}
			}
			if (t == R_CPL) hi += 6;
			if (t == R_CPLPIN) hi += 3;
		}
		for (int i = 0; i < np; i++) {
			const std::string who = fmt("point %d", i + 1);
			if (!motion) {
				double f[3], M[3][3];
				MoorDynPoint P = apip([&] { return MoorDyn_GetPoint(s.md, (unsigned)i + 1); });
				api([&] { return MoorDyn_GetPointForce(P, f); });
				same("force on " + who, v3(f), pf[i].f, 4 * tolp[i]);
				if (m.points[i].type == P_CPL) same("host force of " + who, v3(&s.f[hi]), pf[i].f, 4 * tolp[i]);
				api([&] { return MoorDyn_GetPointM(P, M); });
				for (int p = 0; p < 3; p++) for (int r = 0; r < 3; r++) if (std::fabs(M[p][r] - pm[i].a[p][r]) > 1e-8 * (1 + pm[i].a[0][0] + pm[i].a[2][2]))
					throw Violation{ "load", fmt("t=%.17g mass matrix of %s (%d,%d) %.9g, it is %.9g", s.t, who.c_str(), p, r, M[p][r], pm[i].a[p][r]) };
			}
			if (m.points[i].type == P_CPL) hi += 3;
		}
	}
	S.simtime += s.t;
	S.nontrivial = checked > 0;
	Obs ob; s.observe(ob); trace_obs(S, ob);
	s.close();
}
}
PROPERTY(C22) { run(S, false); }
PROPERTY(C23) { run(S, true); }
