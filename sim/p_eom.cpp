// C18 the motion of the lines obeys the lumped-mass equations
#include "eom.hpp"
namespace {
// One Euler step from an observed state: every acceleration must be the one of the model
void single_steps(Sim& S)
{
	ModelOpts o;
	o.outputs = o.logfile = false; o.ic = o.always_ic = S.chance(1, 4); o.fixed_dt = true; o.schemes = { "Euler" }; o.surface = true;
	o.external = S.chance(1, 5);
	Model m = make_model(S, "a", o);
	if (m.waveKin == 1) m.currents = 0;
	m.install();
	Motion q = make_motion(S, m, 1.5);
	std::vector<double> x, xd;
	q.at(0, x, xd);
	Sys s;
	Model keep = m;
	if (o.external && keep.currents == 0) { std::string& t = keep.files[keep.file]; size_t e = t.find(" Currents\n"); if (e != std::string::npos) { size_t b = t.rfind('\n', e) + 1; t.erase(b, e + 10 - b); } keep.install(); }
	start(S, s, keep, q);
	Lib L(s);
	unsigned nw = 0;
	std::vector<double> U, Ud;
	if (o.external) {
		int r = api([&] { return MoorDyn_ExternalWaveKinInit(s.md, &nw); });
		if (r) throw Violation{ "init", fmt("ExternalWaveKinInit returns %d", r) };
		U.assign(3 * nw, 0); Ud.assign(3 * nw, 0);
	}
	double h = 0;
	api([&] { return MoorDyn_GetDt(s.md, &h); });
	std::vector<LineRef> ref;
	for (size_t l = 0; l < m.lines.size(); l++) ref.push_back(line_ref(m, (int)l));
	const int n = S.range(4, S.thorough() ? 60 : 30);
	long checked = 0;
	double scale = S.chance(1, 4) ? 5 : 1;
	for (int k = 0; k < n; k++) {
		// some coupling steps to get somewhere, then a pair of internal steps with the host moving uniformly
		int skip = (int)S.draw(20);
		for (int j = 0; j < skip; j++) {
			q.at(s.t, x, xd);
			if (s.step_x(x, xd, h) || !s.finite()) throw Discard{ "diverged" };
		}
		if (S.chance(1, 6)) {
			int l = (int)S.draw((uint32_t)m.lines.size());
			MoorDynLine ll = L.line(l);
			int what = (int)S.draw(4);
			if (what == 0) { double len = ref[l].L * S.real(0.97, 1.04); api([&] { return MoorDyn_SetLineUnstretchedLength(ll, len); }); ref[l].L = len; S.mark("len"); }
			else if (what == 1 && !ref[l].t->eatab) { double EA = ref[l].t->EA * S.real(0.5, 1.0); api([&] { return MoorDyn_SetLineConstantEA(ll, EA); }); ref[l].EA = EA; S.mark("EA"); }
			else if (what == 2) {
				ref[l].pressure = true;
				ref[l].pin.clear();
				for (int i = 0; i <= ref[l].N; i++) ref[l].pin.push_back(S.real(0, 2e6));
				api([&] { return MoorDyn_SetLinePressBend(ll, 1); });
				api([&] { return MoorDyn_SetLinePressInt(ll, ref[l].pin.data()); });
				S.mark("press");
			} else if (what == 3 && ref[l].pressure) { ref[l].pressure = false; api([&] { return MoorDyn_SetLinePressBend(ll, 0); }); }
			S.fault("line command");
		}
		if (o.external) {
			for (unsigned i = 0; i < 3 * nw; i++) { U[i] = scale * S.real(-0.6, 0.6); Ud[i] = scale * S.real(-0.6, 0.6); }
			int r = api([&] { return MoorDyn_ExternalWaveKinSet(s.md, U.data(), Ud.data(), s.t); });
			if (r) throw Violation{ "set", fmt("ExternalWaveKinSet returns %d", r) };
		}
		q.at(s.t, x, xd);
		if (S.chance(1, 8)) for (double& d : xd) d *= 4;
		if (s.step_x(x, xd, h) || !s.finite()) throw Discard{ "diverged" };
		std::vector<double> x1 = x;
		for (size_t i = 0; i < x1.size(); i++) x1[i] += xd[i] * h;
		const State a = read(L);
		// what the model gives here
		std::vector<std::vector<Kin>> w(m.lines.size());
		unsigned at = 0;
		for (size_t l = 0; l < m.lines.size(); l++) for (auto& p : a.r[l]) {
			if (o.external) { Kin kk; kk.U = { U[at], U[at + 1], U[at + 2] }; kk.Ud = { Ud[at], Ud[at + 1], Ud[at + 2] }; at += 3; w[l].push_back(kk); }
			else w[l].push_back(L.kin(p));
		}
		for (size_t r = 0; r < m.rods.size(); r++) at += 3 * (m.rods[r].n + 1);
		std::vector<Vec3> Up;
		for (auto& p : a.pr) { if (o.external) { Up.push_back({ U[at], U[at + 1], U[at + 2] }); at += 3; } else Up.push_back(L.kin(p).U); }
		Env e; e.m = &m; e.bottom = [&](double xx, double yy) { return L.bottom(xx, yy); };
		std::vector<std::vector<LineOut>> out(1, std::vector<LineOut>(m.lines.size()));
		for (size_t l = 0; l < m.lines.size(); l++) {
			for (int en = 0; en < 2; en++) {
				const MEnd& me = en ? m.lines[l].b : m.lines[l].a;
				if (!me.rod) continue;
				const Vec3 d = unit(L.rodnode(me.idx, m.rods[me.idx].n) - L.rodnode(me.idx, 0));
				if (en) { ref[l].cantB = true; ref[l].qB = me.end ? -1 * d : d; }
				else { ref[l].cantA = true; ref[l].qA = me.end ? d : -1 * d; }
			}
			out[0][l] = line_rhs(e, ref[l], a.r[l], a.v[l], w[l]);
		}
		// segments that exactly touch the surface may be judged either way
		const int nties = e.tied ? 16 : 1;
		for (e.tie = 1; e.tie < nties; e.tie++) {
			out.emplace_back();
			for (size_t l = 0; l < m.lines.size(); l++) out.back().push_back(line_rhs(e, ref[l], a.r[l], a.v[l], w[l]));
		}
		S.mark(fmt("%d %d %s", skip, (int)e.tied, o.external ? "ext" : ""));
		if (s.step_x(x1, xd, h)) throw Discard{ "diverged" };
		const State b = read(L);
		auto same = [&](Vec3 v0, Vec3 v1, Vec3 acc, double nz) { return close(v1, v0 + h * acc, 1e-10 + 2e-9 * (norm(v0) + h * norm(acc)) + h * nz); };
		for (size_t l = 0; l < m.lines.size(); l++)
			for (int i = 1; i < m.lines[l].n; i++) {
				checked++;
				if (!close(b.r[l][i], a.r[l][i] + h * a.v[l][i], 1e-10 * (1 + norm(a.v[l][i]))))
					throw Violation{ "position", fmt("t=%.17g line %d node %d moved from %s to %s in a step of %g s with velocity %s", s.t, (int)l + 1, i, str(a.r[l][i]).c_str(), str(b.r[l][i]).c_str(), h, str(a.v[l][i]).c_str()) };
				const Vec3& A0 = out[0][l].acc[i];
				bool ok = false;
				for (auto& alt : out) ok |= same(a.v[l][i], b.v[l][i], alt[l].acc[i], noise(ref[l]));
				if (ok) continue;
				if (e.near < 1e-7) { S.probe("at a switch of the model"); continue; }
				const Vec3 got = (1 / h) * (b.v[l][i] - a.v[l][i]);
				throw Violation{ "acceleration", fmt("t=%.17g line %d node %d at %s: acceleration %s, the model gives %s", s.t, (int)l + 1, i, str(a.r[l][i]).c_str(), str(got).c_str(), str(A0).c_str()) };
			}
		for (size_t p = 0; p < m.points.size(); p++) {
			if (m.points[p].type != P_FREE) continue;
			checked++;
			double nz = 0;
			for (size_t l = 0; l < m.lines.size(); l++) nz = std::max(nz, noise(ref[l]) * ref[l].t->w * ref[l].L / ref[l].N / (1 + m.points[p].mass));
			std::vector<Vec3> acc(nties);
			for (int t = 0; t < nties; t++) {
				Vec3 F; M3 M;
				for (size_t l = 0; l < m.lines.size(); l++) {
					if (!m.lines[l].a.rod && m.lines[l].a.idx == (int)p) { F = F + out[t][l].F[0]; M = M + out[t][l].M[0]; }
					if (!m.lines[l].b.rod && m.lines[l].b.idx == (int)p) { F = F + out[t][l].F.back(); M = M + out[t][l].M.back(); }
				}
				acc[t] = point_acc(m, m.points[p], a.pv[p], Up[p], F, M);
			}
			if (!close(b.pr[p], a.pr[p] + h * a.pv[p], 1e-10 * (1 + norm(a.pv[p]))))
				throw Violation{ "position", fmt("t=%.17g point %d moved from %s to %s in a step of %g s with velocity %s", s.t, (int)p + 1, str(a.pr[p]).c_str(), str(b.pr[p]).c_str(), h, str(a.pv[p]).c_str()) };
			bool ok = false;
			for (auto& alt : acc) ok |= same(a.pv[p], b.pv[p], alt, nz);
			if (ok) continue;
			if (e.near < 1e-7) { S.probe("at a switch of the model"); continue; }
			throw Violation{ "acceleration", fmt("t=%.17g point %d: acceleration %s, the model gives %s", s.t, (int)p + 1, str((1 / h) * (b.pv[p] - a.pv[p])).c_str(), str(acc[0]).c_str()) };
		}
		bool below = false, above = false;
		for (auto& l : a.r) for (auto& p : l) { if (p.z < L.bottom(p.x, p.y)) below = true; if (p.z > 0) above = true; }
		if (below) S.probe("nodes in the seabed");
		if (above) S.probe("nodes above the surface");
		if (e.tied) S.probe("segments exactly at the surface");
	}
	S.probe("single step checks");
	S.simtime += s.t;
	S.nontrivial = checked > 0;
	Obs ob; s.observe(ob); trace_obs(S, ob);
	s.close();
}

// The whole history of a system of lines and points against a reference integrator
struct Vecs { std::vector<Vec3> r, v; };
Vecs operator+(Vecs a, const Vecs& b) { for (size_t i = 0; i < a.r.size(); i++) { a.r[i] = a.r[i] + b.r[i]; a.v[i] = a.v[i] + b.v[i]; } return a; }
Vecs operator*(double k, Vecs a) { for (size_t i = 0; i < a.r.size(); i++) { a.r[i] = k * a.r[i]; a.v[i] = k * a.v[i]; } return a; }

struct RefSim {
	const Model& m;
	const Water& water;
	Env e;
	std::vector<LineRef> ref;
	std::vector<double> rate, Lstart;
	std::vector<double> hx, hxd; // host data of this coupling step
	Vecs y, d0, d1;              // state, latest derivatives
	int nsteps = 0;
	double t = 0;
	bool broken_ab = false;
	RefSim(const Model& mm, const Water& w) : m(mm), water(w)
	{
		e.m = &m;
		e.bottom = [this](double x, double yy) { return water.bottom(x, yy); };
		for (size_t l = 0; l < m.lines.size(); l++) ref.push_back(line_ref(m, (int)l));
		rate.assign(ref.size(), 0.0);
		for (auto& l : ref) Lstart.push_back(l.L);
	}
	void take(const State& s)
	{
		y.r.clear(); y.v.clear();
		for (size_t l = 0; l < ref.size(); l++) for (int i = 1; i < ref[l].N; i++) { y.r.push_back(s.r[l][i]); y.v.push_back(s.v[l][i]); }
		for (size_t p = 0; p < m.points.size(); p++) if (m.points[p].type == P_FREE) { y.r.push_back(s.pr[p]); y.v.push_back(s.pv[p]); }
		if (d0.r.size() != y.r.size()) { d0 = 0.0 * y; d1 = d0; }
	}
	Vecs f(const Vecs& s, double tl, double tt)
	{
		std::vector<Vec3> pr(m.points.size()), pv(m.points.size());
		size_t at = 0;
		for (auto& l : ref) at += l.N - 1;
		size_t hi = 0;
		for (size_t p = 0; p < m.points.size(); p++) {
			if (m.points[p].type == P_FREE) { pr[p] = s.r[at]; pv[p] = s.v[at]; at++; }
			else if (m.points[p].type == P_CPL) { pv[p] = { hxd[hi], hxd[hi + 1], hxd[hi + 2] }; pr[p] = Vec3{ hx[hi], hx[hi + 1], hx[hi + 2] } + tl * pv[p]; hi += 3; }
			else pr[p] = m.points[p].p;
		}
		Vecs o; o.r = s.v; o.v.resize(s.v.size());
		std::vector<Vec3> F(m.points.size()); std::vector<M3> M(m.points.size());
		at = 0;
		for (size_t l = 0; l < ref.size(); l++) {
			LineRef& L = ref[l];
			L.L = Lstart[l] + rate[l] * tl;
			std::vector<Vec3> r(L.N + 1), v(L.N + 1);
			const int a = m.lines[l].a.idx, b = m.lines[l].b.idx;
			r[0] = pr[a]; v[0] = pv[a]; r[L.N] = pr[b]; v[L.N] = pv[b];
			for (int i = 1; i < L.N; i++) { r[i] = s.r[at + i - 1]; v[i] = s.v[at + i - 1]; }
			std::vector<Kin> w;
			for (auto& p : r) w.push_back(water.at(p, tt));
			LineOut out = line_rhs(e, L, r, v, w);
			for (int i = 1; i < L.N; i++) o.v[at + i - 1] = out.acc[i];
			F[a] = F[a] + out.F[0]; M[a] = M[a] + out.M[0];
			F[b] = F[b] + out.F[L.N]; M[b] = M[b] + out.M[L.N];
			at += L.N - 1;
		}
		for (size_t p = 0; p < m.points.size(); p++)
			if (m.points[p].type == P_FREE) { o.v[at] = point_acc(m, m.points[p], pv[p], water.at(pr[p], tt).U, F[p], M[p]); at++; }
		return o;
	}
	std::vector<Vecs> hist; // earlier derivatives, latest first
	void step(const std::string& sch, double tl, double h)
	{
		if (sch == "Euler") y = y + h * f(y, tl, t);
		else if (sch == "Heun") { // the derivative at the predicted end of the step replaces half of the old one
			const Vecs p = y + h * d0, n = f(p, tl, t);
			y = p + 0.5 * h * (n + -1.0 * d0);
			d0 = n;
		} else if (sch == "RK2") { const Vecs k1 = f(y, tl, t); y = y + h * f(y + 0.5 * h * k1, tl + 0.5 * h, t + 0.5 * h); }
		else if (sch == "RK4") {
			const Vecs k1 = f(y, tl, t), k2 = f(y + 0.5 * h * k1, tl + 0.5 * h, t + 0.5 * h), k3 = f(y + 0.5 * h * k2, tl + 0.5 * h, t + 0.5 * h), k4 = f(y + h * k3, tl + h, t + h);
			y = y + (h / 6) * (k1 + k4) + (h / 3) * (k2 + k3);
		} else if (sch.substr(0, 2) == "AB") {
			const int order = sch[2] - '0';
			const Vecs n = f(y, tl, t);
			hist.insert(hist.begin(), n);
			if ((int)hist.size() > order) hist.pop_back();
			static const double c[5][4] = { {}, { 1 }, { 1.5, -0.5 }, { 23. / 12, -16. / 12, 5. / 12 }, { 55. / 24, -59. / 24, 37. / 24, -9. / 24 } };
			const int k = (int)hist.size();
			for (int i = 0; i < k; i++) y = y + (h * c[k][i]) * (broken_ab && i > 1 ? hist[1] : hist[i]);
		} else if (sch.substr(0, 3) == "ACA") { // average acceleration, by fixed point iteration
			const int it = atoi(sch.c_str() + 3);
			Vecs n = d0, prev = d0;
			auto to = [&] { Vecs o = y; for (size_t i = 0; i < y.r.size(); i++) { o.r[i] = y.r[i] + h * (d0.r[i] + (0.25 * h) * (d0.v[i] + n.v[i])); o.v[i] = y.v[i] + (0.5 * h) * (d0.v[i] + n.v[i]); } return o; };
			for (int i = 0; i < it; i++) {
				n = f(to(), tl + h, t + h);
				if (i < it - 1) {
					const double rx = 0.9 * (1 - 1.0 / it) + 0.15 * 0.5 * (1 - std::tanh(4 * ((i + 1.0) / it - 0.5)));
					n = (1 - rx) * n + rx * prev; prev = n;
				}
			}
			y = to();
			d0 = n;
		} else { // implicit schemes by fixed point iteration
			const bool mid = sch[0] == 'M';
			const int it = atoi(sch.c_str() + (mid ? 8 : 6));
			const double k = mid ? 0.5 : 1.0;
			Vecs prev = d0;
			for (int i = 0; i < it; i++) {
				d0 = f(y + (k * h) * d0, tl + k * h, t + k * h);
				if (i < it - 1) { const double rx = 0.9 * (1 - 1.0 / it); d0 = (1 - rx) * d0 + rx * prev; prev = d0; }
			}
			y = y + h * d0;
		}
		t += h;
	}
	void couple(const std::string& sch, double dt, double dtM)
	{
		double tl = 0;
		while (dt > 0) {
			const double h = std::min(dt, dtM);
			step(sch, tl, h);
			tl += h;
			dt -= h;
		}
		for (size_t l = 0; l < ref.size(); l++) { Lstart[l] += rate[l] * tl; ref[l].L = Lstart[l]; }
	}
};

void histories(Sim& S)
{
	ModelOpts o;
	o.bodies = o.rods = false; o.outputs = o.logfile = false; o.ic = false; o.fixed_dt = true; o.surface = true;
	o.schemes = { "RK2", "Euler", "Heun", "RK4", "AB2", "AB3", "AB4", "BEuler3", "Midpoint3", "BEuler7", "Midpoint6", "BEuler1", "ACA5", "ACA2", "ACA1" };
	o.ic = o.always_ic = S.chance(1, 5);
	if (o.ic) o.schemes = { "RK2", "Euler", "RK4" }; // (nothing is left of the generation of initial conditions)
	Model m = make_model(S, "a", o);
	m.install();
	Motion q = make_motion(S, m, 1.5);
	Water water(m);
	Sys s;
	start(S, s, m, q);
	Lib L(s);
	double dtM = 0;
	api([&] { return MoorDyn_GetDt(s.md, &dtM); });
	// reference simulations that still agree: how touching segments are judged, order of the multistep schemes
	std::vector<RefSim> ref;
	const bool ab = m.scheme == "AB3" || m.scheme == "AB4";
	for (int tie = 0; tie < ties(m); tie++) for (int br = 0; br < (ab ? 2 : 1); br++) { ref.emplace_back(m, water); ref.back().e.tie = tie; ref.back().broken_ab = br; }
	for (auto& r : ref) { r.e.bottom = [&water](double x, double y) { return water.bottom(x, y); }; r.take(read(L)); }
	std::vector<bool> alive(ref.size(), true);
	const int n = S.range(3, S.thorough() ? 120 : 50);
	const double span = water.span();
	int done = 0;
	for (int k = 0; k < n; k++) {
		double dt = pick_dt(S, m, dtM * S.range(1, 4));
		if (s.t + dt >= span - 1e-6) break;
		if (S.chance(1, 10)) {
			int l = (int)S.draw((uint32_t)m.lines.size());
			double v = S.chance(1, 3) ? 0 : S.rreal(-0.5, 0.8, 0.01);
			api([&] { return MoorDyn_SetLineUnstretchedLengthVel(L.line(l), v); });
			for (auto& r : ref) r.rate[l] = v;
			S.fault("pay-out command");
		}
		std::vector<double> x, xd;
		q.at(s.t, x, xd);
		if (S.chance(1, 10)) { for (double& d : xd) d = -d; S.fault("host reverses"); }
		const double t0 = s.t;
		S.mark(fmt("%s %g", m.scheme.c_str(), dt));
		if (s.step_x(x, xd, dt) || !s.finite()) throw Discard{ "diverged" };
		const State b = read(L);
		bool any = false, near = false;
		std::string msg;
		for (size_t i = 0; i < ref.size(); i++) {
			if (!alive[i]) continue;
			RefSim& r = ref[i];
			r.hx = x; r.hxd = xd; r.e.near = 1e9;
			r.couple(m.scheme, dt, dtM);
			double nz = 0;
			for (auto& lr : r.ref) nz = std::max(nz, noise(lr));
			const Vecs want = r.y;
			r.take(b); // the next step starts from what the library has
			bool ok = true;
			for (size_t j = 0; j < want.r.size() && ok; j++) {
				const double vs = norm(want.v[j]), tr = 1e-8 * (1 + vs) + dt * dt * nz, tv = 1e-7 * (1 + vs) + dt * nz;
				if (close(want.r[j], r.y.r[j], tr) && close(want.v[j], r.y.v[j], tv)) continue;
				ok = false;
				size_t at = j; int l = 0;
				while (l < (int)m.lines.size() && at >= (size_t)m.lines[l].n - 1) at -= m.lines[l++].n - 1;
				std::string who = l < (int)m.lines.size() ? fmt("line %d node %d", l + 1, (int)at + 1) : fmt("free point #%d", (int)at + 1);
				if (msg.empty()) msg = fmt("scheme %s, step %d from t=%.17g by %g s: %s is at %s moving %s, the model gives %s moving %s", m.scheme.c_str(), k, t0, dt, who.c_str(),
					str(r.y.r[j]).c_str(), str(r.y.v[j]).c_str(), str(want.r[j]).c_str(), str(want.v[j]).c_str());
			}
			if (!ok && r.e.near < 1e-6) { near = true; ok = true; }
			if (!ok) alive[i] = false;
			any |= ok;
		}
		if (near) { S.probe("at a switch of the model"); throw Discard{ "at a switch of the model" }; }
		if (!any) {
			if (ref.size() < 16) for (auto& r : ref) if (r.e.tied) throw Discard{ "inner nodes exactly at the surface" };
			throw Violation{ "history", msg };
		}
		done++;
	}
	S.probe("history of scheme " + m.scheme);
	if (ab) {
		bool textbook = false, broken = false;
		for (size_t i = 0; i < ref.size(); i++) if (alive[i]) (ref[i].broken_ab ? broken : textbook) = true;
		if (!textbook && broken) S.probe("multistep scheme of reduced order (known)");
	}
	S.simtime += s.t;
	S.nontrivial = done > 0;
	Obs ob; s.observe(ob); trace_obs(S, ob);
	s.close();
}
}
PROPERTY(C18)
{
	if (S.chance(1, 2)) single_steps(S); else histories(S);
}
