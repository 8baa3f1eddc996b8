// C13 slicing of time by the host
#include "plan.hpp"

// Motion with constant velocity, in numbers that need no rounding
struct LinMotion {
	std::vector<double> x0;
	std::vector<std::vector<double>> v; // per sector
	std::vector<long> at;               // first internal step of each sector
	double dtM;
	void get(long k, std::vector<double>& x, std::vector<double>& xd) const
	{
		x.assign(x0.size() + 64, 0.0); xd.assign(x0.size() + 64, 0.0);
		for (size_t i = 0; i < x0.size(); i++) {
			double p = x0[i];
			size_t s = 0;
			for (; s < at.size(); s++) {
				long end = s + 1 < at.size() ? at[s + 1] : k;
				if (end >= k) { p += v[s][i] * (double)(k - at[s]) * dtM; break; }
				p += v[s][i] * (double)(end - at[s]) * dtM;
			}
			if (s >= at.size()) s = at.size() - 1;
			// at the boundary of a sector the new velocity counts
			if (s + 1 < at.size() && at[s + 1] == k) s++;
			x[i] = p; xd[i] = v[s][i];
		}
	}
};

PROPERTY(C13)
{
	ModelOpts o;
	o.pow2dt = true;
	o.outputs = S.chance(1, 4);
	o.logfile = false;
	Model m = make_model(S, "a", o);
	m.install();
	S.ev("model %s dtM %g", m.summary.c_str(), m.dtM);
	S.mark(m.summary);
	bool pinned = false;
	for (auto& b : m.bodies) if (b.type == B_CPLPIN) pinned = true;
	for (auto& r : m.rods) if (r.type == R_CPLPIN || (r.body >= 0 && m.bodies[r.body].type == B_CPLPIN)) pinned = true;
	bool cplrigid = pinned;
	for (auto& b : m.bodies) if (b.type == B_CPL) cplrigid = true;
	for (auto& r : m.rods) if (r.type == R_CPL) cplrigid = true;
	const bool many = S.chance(1, 8);
	long total = many ? S.range(200, S.thorough() ? 4000 : 1500) : S.range(8, S.thorough() ? 400 : 120);
	LinMotion q;
	q.dtM = m.dtM;
	auto dy = [](double a) { return std::floor(a * 1024 + 0.5) / 1024; };
	for (size_t i = 0; i < m.x0.size(); i++) q.x0.push_back(dy(m.x0[i]));
	// the acceleration of a coupled pinned object is taken from the change of velocity between coupling steps: keep it at none
	int sectors = pinned ? 1 : S.range(1, 3);
	bool inertial = cplrigid && sectors > 1;
	for (int s = 0; s < sectors; s++) {
		q.at.push_back(s * (total / sectors));
		std::vector<double> v;
		for (size_t i = 0; i < m.x0.size(); i++) v.push_back(S.chance(3, 4) ? dy(S.real(-1, 1) * (m.dof_dir[i] >= 3 ? 0.2 : 1.0)) : 0.0);
		q.v.push_back(v);
	}
	std::vector<long> pay_at; std::vector<int> pay_line; std::vector<double> pay_rate;
	for (int s = 0; s < sectors; s++)
		if (S.chance(1, 3)) { pay_at.push_back(q.at[s]); pay_line.push_back((int)S.draw((uint32_t)m.lines.size())); pay_rate.push_back(S.rreal(-0.3, 0.5, 0.01)); }
	// instants every slicing stops at: boundaries of the sectors and the end
	std::vector<long> stops(q.at.begin() + 1, q.at.end());
	stops.push_back(total);
	int nruns = S.range(2, 3);
	std::vector<std::vector<Obs>> res;
	std::vector<std::vector<long>> insts;
	std::vector<long> first; // the first slicing
	// a system in which rounding grows without bound settles nothing: the first slicing again, with the lengths of the lines changed in the 12th digit
	auto sensitive = [&](size_t upto) {
		fs().img.clear();
		m.install();
		Sys s;
		if (!s.create(m)) return true;
		s.m = &m;
		std::vector<double> x, xd;
		q.get(0, x, xd);
		s.f.assign(m.ncpl() + 64, 0.0);
		s.rc = api([&] { return m.noic ? MoorDyn_Init_NoIC(s.md, x.data(), xd.data()) : MoorDyn_Init(s.md, x.data(), xd.data()); });
		if (s.rc) return true;
		for (unsigned l = 1; l <= m.lines.size(); l++) {
			double L = 0;
			MoorDyn_GetLineUnstretchedLength(MoorDyn_GetLine(s.md, l), &L);
			MoorDyn_SetLineUnstretchedLength(MoorDyn_GetLine(s.md, l), L * (1 + 1e-12));
		}
		long k = 0;
		size_t st = 0;
		for (long n : first) {
			for (size_t p = 0; p < pay_at.size(); p++)
				if (pay_at[p] == k) api([&] { return MoorDyn_SetLineUnstretchedLengthVel(MoorDyn_GetLine(s.md, pay_line[p] + 1), pay_rate[p]); });
			q.get(k, x, xd);
			if (s.step_x(x, xd, (double)n * m.dtM) || !s.finite()) return true;
			k += n;
			if (k != stops[st]) continue;
			Obs o;
			o.with_labels = true;
			s.observe(o);
			const Obs& a = res[0][st];
			for (size_t i = 0; i < a.v.size() && i < o.v.size(); i++) {
				bool force = a.lab[i].find("force") != std::string::npos || a.lab[i].find("tension") != std::string::npos;
				if (!(std::fabs(a.v[i] - o.v[i]) <= (force ? 1.0 : 1e-5) * (1 + 1e-3 * std::fabs(a.v[i])))) return true;
			}
			if (++st > upto) return false;
		}
		return false;
	};
	for (int run = 0; run < nruns; run++) {
		fs().img.clear();
		m.install();
		Sys s;
		if (!s.create(m)) throw Discard{ "create failed" };
		s.m = &m;
		std::vector<double> x, xd;
		q.get(0, x, xd);
		s.f.assign(m.ncpl() + 64, 0.0);
		s.rc = api([&] { return m.noic ? MoorDyn_Init_NoIC(s.md, x.data(), xd.data()) : MoorDyn_Init(s.md, x.data(), xd.data()); });
		if (s.rc || !s.finite()) throw Discard{ fmt("init %d", s.rc) };
		long k = 0;
		size_t st = 0;
		int style = run == 0 ? (int)S.draw(2) : 2 + (int)S.draw(3);
		std::string pat;
		std::vector<Obs> obs;
		int longest = style == 2 ? 3 : style == 3 ? 10 : many ? 1200 : 60;
		while (k < total) {
			for (size_t p = 0; p < pay_at.size(); p++)
				if (pay_at[p] == k) api([&] { return MoorDyn_SetLineUnstretchedLengthVel(MoorDyn_GetLine(s.md, pay_line[p] + 1), pay_rate[p]); });
			long n = style == 0 ? 1 : style == 1 ? stops[st] - k : 1 + (long)S.draw((uint32_t)longest);
			n = std::min(n, stops[st] - k);
			q.get(k, x, xd);
			int r = s.step_x(x, xd, (double)n * m.dtM);
			if (r || !s.finite()) throw Discard{ "unstable" };
			k += n;
			pat += fmt("%ld ", n);
			if (run == 0) first.push_back(n);
			if (run == 0) S.simtime += (double)n * m.dtM;
			if (k == stops[st]) {
				obs.emplace_back();
				obs.back().with_labels = true;
				s.observe(obs.back());
				trace_obs(S, obs.back());
				st++;
			}
		}
		S.ev("slicing %d: %s", run, pat.c_str());
		S.mark(pat.substr(0, 40));
		s.close();
		res.push_back(obs);
		if (run) for (size_t j = 0; j < obs.size(); j++) {
			const Obs &a = res[0][j], &b = obs[j];
			if (diff_obs(a, b).empty()) { S.probe("identical to the last bit"); continue; }
			S.probe("identical up to rounding");
			if (a.v.size() != b.v.size()) throw Violation{ "slices", "different number of values" };
			for (size_t i = 0; i < a.v.size(); i++) {
				// the inertial loads of prescribed bodies and rods come from the change of velocity over the last coupling step: not a function of the motion alone
				if (inertial && (a.lab[i].rfind("coupling force", 0) == 0 || a.lab[i].rfind("body force", 0) == 0 || a.lab[i].rfind("rod force", 0) == 0)) continue;
				bool force = a.lab[i].find("force") != std::string::npos || a.lab[i].find("tension") != std::string::npos;
				double tol = force ? 1.0 : 1e-5, d = std::fabs(a.v[i] - b.v[i]);
				if (d <= tol * (1 + 1e-3 * std::fabs(a.v[i]))) continue;
				if (sensitive(j)) throw Discard{ "sensitive to rounding" };
				throw Violation{ "slices", fmt("at t=%g, %s is %.12g with one slicing and %.12g with another (scheme %s, dtM %g)", (double)stops[j] * m.dtM, a.lab[i].c_str(), a.v[i], b.v[i], m.scheme.c_str(), m.dtM) };
			}
		}
	}
	S.nontrivial = true;
	S.probe("scheme " + m.scheme);
}

// ---------------------------------------------------------------- C19 settings changed while the simulation runs
namespace {
struct R19 {
	std::vector<Obs> obs; // after every coupling step from the change on
	Obs end;
	FsImage files;
	double t = 0;
};
Model with_dt(Model m, double dt)
{
	std::string& s = m.files[m.file];
	size_t e = s.find(" dtM"), b = s.rfind('\n', e) + 1;
	s = s.substr(0, b) + fmt("%.17g", dt) + s.substr(e);
	m.dtM = dt;
	return m;
}
std::string files_diff(const FsImage& a, const FsImage& b)
{
	for (auto& kv : a) {
		auto it = b.find(kv.first);
		if (it == b.end()) return "file " + kv.first + " is missing";
		if (it->second != kv.second) return "file " + kv.first + " differs";
	}
	return a.size() == b.size() ? "" : "another set of files";
}
bool is_local(const std::string& s) { return s[0] == 'L'; }
bool memoryless(const std::string& s) { return s == "Euler" || s == "RK2" || s == "RK4"; }

// Run with the coupling steps n1 (before the change) and n2 (after), in units of u
R19 run19(Sim& S, const Model& m, const LinMotion& q, double u, const std::vector<long>& n1, const std::vector<long>& n2, const std::function<void(Sys&)>& change)
{
	fs().img.clear();
	m.install();
	Sys s;
	R19 R;
	if (!s.create(m)) throw Discard{ "create failed" };
	std::vector<double> x, xd;
	q.get(0, x, xd);
	s.f.assign(m.ncpl() + 64, 0.0);
	s.rc = api([&] { return m.noic ? MoorDyn_Init_NoIC(s.md, x.data(), xd.data()) : MoorDyn_Init(s.md, x.data(), xd.data()); });
	if (s.rc || !s.finite()) throw Discard{ fmt("init %d", s.rc) };
	long k = 0;
	auto go = [&](long n) {
		q.get(k, x, xd);
		if (s.step_x(x, xd, (double)n * u) || !s.finite()) throw Discard{ "unstable" };
		k += n;
		if (!(std::fabs(s.t - (double)k * u) <= 1e-9)) throw Violation{ "clock", fmt("the clock is at %.12g after %.12g s of steps", s.t, (double)k * u) };
	};
	for (long n : n1) go(n);
	// the change itself must not be seen
	Obs a, b;
	a.with_labels = true;
	s.observe(a);
	FsImage fa = fs().img;
	change(s);
	s.observe(b);
	std::string d = diff_obs(a, b);
	if (!d.empty()) throw Violation{ "state", fmt("changing the settings at t=%.9g changed the simulation: ", s.t) + d };
	d = files_diff(fa, fs().img);
	if (!d.empty()) throw Violation{ "files", fmt("changing the settings at t=%.9g: ", s.t) + d };
	for (long n : n2) {
		go(n);
		R.obs.emplace_back();
		R.obs.back().with_labels = true;
		s.observe(R.obs.back());
	}
	R.end = R.obs.back();
	R.t = s.t;
	s.close();
	R.files = fs().img;
	return R;
}
std::vector<long> slices(Sim& S, long total, long longest)
{
	std::vector<long> v;
	while (total > 0) { long n = std::min(total, 1 + (long)S.draw((uint32_t)longest)); v.push_back(n); total -= n; }
	return v;
}
std::string cmp_tol(const Obs& a, const Obs& b, double pos, double force)
{
	if (a.v.size() != b.v.size()) return "different number of values";
	for (size_t i = 0; i < a.v.size(); i++) {
		bool f = a.lab[i].find("force") != std::string::npos || a.lab[i].find("tension") != std::string::npos;
		if (f && force < 0) continue;
		double tol = f ? force : pos;
		if (!(std::fabs(a.v[i] - b.v[i]) <= tol * (1 + 1e-3 * std::fabs(a.v[i])))) return fmt("%s is %.12g instead of %.12g", a.lab[i].c_str(), b.v[i], a.v[i]);
	}
	return "";
}
void set_scheme(Sys& s, const std::string& name)
{
	int r = api([&] { return MoorDyn_SetTimeScheme(s.md, name.c_str()); });
	if (r) throw Violation{ "refused", fmt("SetTimeScheme(\"%s\") returns %d %s", name.c_str(), r, r == ESCAPED ? g_escape.c_str() : "") };
}
std::string get_scheme(Sys& s)
{
	char buf[256] = "";
	api([&] { return MoorDyn_GetTimeScheme(s.md, buf, nullptr); });
	return buf;
}
}

PROPERTY(C19)
{
	ModelOpts o;
	o.pow2dt = true;
	o.logfile = false;
	int kind = (int)S.draw(6);
	static const std::vector<std::string> ML = { "RK2", "Euler", "RK4" };
	if (kind == 0 || kind == 5) o.schemes = ML;
	if (kind == 2) o.ic = false; // the generation of initial conditions depends on the internal step
	Model m = make_model(S, "a", o);
	S.ev("model %s dtM %g", m.summary.c_str(), m.dtM);
	S.mark(m.summary);
	LinMotion q;
	auto dy = [](double a) { return std::floor(a * 1024 + 0.5) / 1024; };
	for (size_t i = 0; i < m.x0.size(); i++) q.x0.push_back(dy(m.x0[i]));
	q.at = { 0 };
	std::vector<double> v;
	for (size_t i = 0; i < m.x0.size(); i++) v.push_back(S.chance(3, 4) ? dy(S.real(-1, 1) * (m.dof_dir[i] >= 3 ? 0.2 : 1.0)) : 0.0);
	q.v = { v };
	double u = m.dtM;
	long N1 = S.range(1, 60), N2 = S.range(1, 60);
	long longest = S.pick(std::vector<long>{ 20, 4, 60, 1 });
	int payline = S.chance(1, 3) ? (int)S.draw((uint32_t)m.lines.size()) : -1;
	double payrate = payline >= 0 ? S.rreal(-0.3, 0.5, 0.01) : 0;
	auto pay = [&](Sys& s) { if (payline >= 0) api([&] { return MoorDyn_SetLineUnstretchedLengthVel(MoorDyn_GetLine(s.md, payline + 1), payrate); }); };
	S.mark(fmt("%d %ld %ld %ld", kind, N1, N2, longest));
	const std::string &Y = S.pick(ALL_SCHEMES), &Z = S.pick(ALL_SCHEMES);
	if (kind <= 1) { // scheme changed: there and back, or by a detour
		std::vector<long> n1 = slices(S, N1, longest), n2 = slices(S, N2, longest);
		q.dtM = u;
		bool detour = S.chance(1, 2), again = S.chance(1, 2);
		std::string target = kind == 0 ? m.scheme : Y, n0, nY;
		R19 a = run19(S, m, q, u, n1, n2, [&](Sys& s) { pay(s); n0 = get_scheme(s); if (kind == 1) set_scheme(s, Y); nY = get_scheme(s); });
		R19 b = run19(S, m, q, u, n1, n2, [&](Sys& s) {
			pay(s);
			if (detour || kind == 1) set_scheme(s, Z);
			double c0 = 0, c1 = 0, h = 0;
			api([&] { return MoorDyn_GetCFL(s.md, &c0); });
			api([&] { return MoorDyn_GetDt(s.md, &h); });
			set_scheme(s, target);
			api([&] { return MoorDyn_GetCFL(s.md, &c1); });
			if (c0 != c1) throw Violation{ "limit", fmt("SetTimeScheme(\"%s\") turns the limiting number from %.17g into %.17g", target.c_str(), c0, c1) };
			if (again) { api([&] { return MoorDyn_SetDt(s.md, h); }); S.fault("internal step set again"); } // what is set again is what was
			if (get_scheme(s) != nY) throw Violation{ "name", "after SetTimeScheme(\"" + target + "\") the scheme is said to be " + get_scheme(s) };
		});
		S.fault(kind == 0 ? "scheme set again" : "scheme changed by a detour");
		S.ev("scheme %s -> %s%s, %zu + %zu coupling steps", m.scheme.c_str(), (detour || kind == 1) ? (Z + " -> ").c_str() : "", target.c_str(), n1.size(), n2.size());
		for (size_t i = 0; i < a.obs.size(); i++) {
			trace_obs(S, a.obs[i]);
			std::string d = diff_obs(a.obs[i], b.obs[i]);
			if (!d.empty()) throw Violation{ "continuation", fmt("step %zu after %s -> %s%s: ", i + 1, m.scheme.c_str(), (detour || kind == 1) ? (Z + " -> ").c_str() : "", target.c_str()) + d };
		}
		std::string d = files_diff(a.files, b.files);
		if (!d.empty()) throw Violation{ "files", "after the run, " + d };
		S.simtime += a.t;
	} else if (kind == 2) { // internal step changed
		if (is_local(m.scheme)) throw Discard{ "local scheme" };
		int f = S.range(1, 4);
		bool finer = S.chance(2, 3);
		// the coarser step is the estimated one
		double D1 = finer ? u : std::ldexp(u, -2), D2 = finer ? std::ldexp(u, -f) : u, unit = std::min(D1, D2);
		if (!finer) f = 2;
		long c1 = (long)(D1 / unit), c2 = (long)(D2 / unit);
		std::vector<long> n1 = slices(S, N1, longest), n2 = slices(S, N2, longest), e1, e2;
		for (long& n : n1) { for (long j = 0; c1 == 1 && j < n; j++) e1.push_back(1); n *= c1; }
		for (long& n : n2) { for (long j = 0; c2 == 1 && j < n; j++) e2.push_back(1); n *= c2; }
		if (c1 != 1) e1 = n1;
		if (c2 != 1) e2 = n2;
		q.dtM = unit;
		Model ma = with_dt(m, D1), mb = with_dt(m, std::max(D1, D2));
		R19 a = run19(S, ma, q, unit, n1, n2, [&](Sys& s) {
			pay(s);
			int r = api([&] { return MoorDyn_SetDt(s.md, D2); });
			double got = -1;
			api([&] { return MoorDyn_GetDt(s.md, &got); });
			if (r || got != D2) throw Violation{ "refused", fmt("SetDt(%g) returns %d and GetDt then tells %g", D2, r, got) };
		});
		R19 b = run19(S, mb, q, unit, e1, e2, [&](Sys& s) { pay(s); });
		S.fault("internal step changed");
		S.ev("dt %g -> %g", D1, D2);
		trace_obs(S, a.end);
		std::string d = cmp_tol(b.end, a.end, 1e-5, 1.0);
		if (!d.empty()) throw Violation{ "step size", fmt("after SetDt(%g) instead of %g (scheme %s), at t=%g ", D2, D1, m.scheme.c_str(), a.t) + d };
		S.simtime += a.t;
	} else if (kind == 3) { // the limiting number sets the internal step
		if (is_local(m.scheme) && m.scheme != "LEuler") throw Discard{ "local scheme" };
		std::vector<long> n1 = slices(S, N1, longest), n2 = slices(S, N2, longest);
		q.dtM = u;
		double fac = S.real(0.1, 0.9), dt = 0;
		R19 a = run19(S, m, q, u, n1, n2, [&](Sys& s) {
			pay(s);
			double c = 0, c2 = 0, d0 = 0;
			api([&] { return MoorDyn_GetCFL(s.md, &c); });
			api([&] { return MoorDyn_GetDt(s.md, &d0); });
			int r = api([&] { return MoorDyn_SetCFL(s.md, c * fac); });
			api([&] { return MoorDyn_GetCFL(s.md, &c2); });
			api([&] { return MoorDyn_GetDt(s.md, &dt); });
			if (r || std::fabs(c2 - c * fac) > 1e-12 * c) throw Violation{ "refused", fmt("SetCFL(%g) returns %d and GetCFL then tells %g", c * fac, r, c2) };
			if (!(std::fabs(dt - d0 * fac) <= 1e-9 * d0)) throw Violation{ "limit", fmt("the limiting number changed by the factor %g and the internal step from %g to %g", fac, d0, dt) };
		});
		R19 b = run19(S, m, q, u, n1, n2, [&](Sys& s) {
			pay(s);
			if (m.scheme != "LEuler") { api([&] { return MoorDyn_SetDt(s.md, dt); }); return; }
			// how often each line is updated follows the limit, whichever way it came about
			double c = 0;
			api([&] { return MoorDyn_GetCFL(s.md, &c); });
			set_scheme(s, Z);
			api([&] { return MoorDyn_SetCFL(s.md, c * fac); });
			set_scheme(s, "LEuler");
		});
		S.fault("step limiting number changed");
		for (size_t i = 0; i < a.obs.size(); i++) {
			trace_obs(S, a.obs[i]);
			std::string d = diff_obs(a.obs[i], b.obs[i]);
			if (!d.empty()) throw Violation{ "continuation", fmt("step %zu after SetCFL (internal step %.9g) and after SetDt(%.9g): ", i + 1, dt, dt) + d };
		}
		S.simtime += a.t;
	} else if (kind == 4) { // another scheme follows the same path, up to the error of the schemes
		std::vector<long> b1 = slices(S, N1, longest), b2 = slices(S, N2, longest);
		double dev[2] = { 0, 0 };
		std::string d;
		for (int fine = 0; fine < 2; fine++) {
			int e = fine ? 6 : 3;
			std::vector<long> n1 = b1, n2 = b2;
			double w = std::ldexp(u, -e);
			for (auto* n : { &n1, &n2 }) for (long& k : *n) k <<= e;
			q.dtM = w;
			Model mm = with_dt(m, w);
			R19 a = run19(S, mm, q, w, n1, n2, [&](Sys& s) { pay(s); });
			R19 b = run19(S, mm, q, w, n1, n2, [&](Sys& s) { pay(s); set_scheme(s, Y); });
			trace_obs(S, b.end);
			for (size_t i = 0; i < a.end.v.size(); i++) {
				const std::string& lab = a.end.lab[i];
				if (lab.find("force") != std::string::npos || lab.find("tension") != std::string::npos) continue;
				double x = a.end.v[i], y = b.end.v[i], r = std::fabs(x - y);
				if (lab.rfind("body position", 0) == 0) r = std::min(r, std::fabs(r - 2 * M_PI)); // angles
				r /= (lab.find("velocity") != std::string::npos ? 0.4 : 0.1) * (1 + 0.02 * std::fabs(x));
				if (!(r <= dev[fine])) { dev[fine] = r; d = fmt("%s is %.12g instead of %.12g", lab.c_str(), y, x); }
			}
			if (!fine) { S.simtime += a.t; S.fault("scheme changed"); }
			if (dev[0] <= 1) break;
			if (!fine) S.probe("refined");
		}
		// the error of a scheme shrinks with the step
		if (dev[1] > 0.5 * dev[0] && dev[0] > 1) throw Violation{ "path", fmt("%s -> %s, at t=%g, with small and with very small steps: ", m.scheme.c_str(), Y.c_str(), (double)(N1 + N2) * u) + d };
	} else { // the change fails for lack of memory
		std::vector<long> n1 = slices(S, N1, longest), n2 = slices(S, N2, longest);
		q.dtM = u;
		bool hit = false;
		R19 a = run19(S, m, q, u, n1, n2, [&](Sys& s) { pay(s); });
		R19 b = run19(S, m, q, u, n1, n2, [&](Sys& s) {
			pay(s);
			g_mem.n = 0; g_mem.failed = 0; g_mem.fail_at = (long)S.draw(200);
			int r = api([&] { return MoorDyn_SetTimeScheme(s.md, Y.c_str()); });
			g_mem.fail_at = -1;
			hit = g_mem.failed > 0;
			S.ev("SetTimeScheme(%s) with a failing allocation: %d", Y.c_str(), r);
			if (hit && r == ESCAPED) throw Violation{ "escape", "an exception left SetTimeScheme: " + g_escape };
			if (!hit && r) throw Violation{ "refused", fmt("SetTimeScheme(\"%s\") returns %d", Y.c_str(), r) };
			if (!r) set_scheme(s, m.scheme);
		});
		if (hit) S.fault("allocation failure during the change");
		for (size_t i = 0; i < a.obs.size(); i++) {
			trace_obs(S, a.obs[i]);
			std::string d = diff_obs(a.obs[i], b.obs[i]);
			if (!d.empty()) throw Violation{ "continuation", fmt("step %zu after a failed SetTimeScheme: ", i + 1) + d };
		}
		S.simtime += a.t;
	}
	S.nontrivial = true;
	S.probe("scheme " + m.scheme);
}
