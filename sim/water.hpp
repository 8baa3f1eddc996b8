// Reference water and seabed: what the environment files of a model say, evaluated independently of the library.
#pragma once
#include "model.hpp"
#include <complex>
#include <algorithm>

struct Kin { Vec3 U, Ud; double zeta = 0, pdyn = 0; };

// linear interpolation on an axis, held constant outside: lower index and factor
inline void bracket(const std::vector<double>& a, double x, size_t& i, double& f)
{
	i = 0; f = 0;
	if (a.size() < 2 || x <= a.front()) return;
	if (x >= a.back()) { i = a.size() - 2; f = 1; return; }
	while (i + 2 < a.size() && x > a[i + 1]) i++;
	f = (x - a[i]) / (a[i + 1] - a[i]);
}
inline size_t upper(const std::vector<double>& a, size_t i) { return std::min(i + 1, a.size() - 1); }

struct Water {
	const Model& m;
	std::vector<double> k;             // wave numbers of the components
	std::vector<double> om, be;        // of the grid modes
	// grid: [x][y][z][t]
	std::vector<Vec3> gU, gA; std::vector<double> gZ, gP;
	size_t nt = 0; double gdt = 0;
	static double wavenumber(double w, double g, double h)
	{
		if (w == 0) return 0;
		double lo = 0, hi = w * w / g + w / std::sqrt(g * h) + 1;
		for (int i = 0; i < 200; i++) { double x = 0.5 * (lo + hi); (g * x * std::tanh(x * h) < w * w ? lo : hi) = x; }
		return 0.5 * (lo + hi);
	}
	// The documented method gives wave numbers to seven digits: what that leaves open at up to 120 m from the origin
	struct Mode { double a, w, k; };
	std::vector<Mode> modes;
	struct Slack { double zeta = 0, U = 0, Ud = 0, pdyn = 0; };
	Slack slack() const
	{
		Slack o;
		double top = 0; // tables above the still water carry on with the profile
		if (nt) top = std::max(0.0, m.gz.back());
		for (auto& q : modes) {
			if (q.w == 0 || q.k == 0) continue;
			const double d = 2.5e-7 * q.a * (1 + (120 + top) * q.k), c = std::exp(q.k * top) / std::tanh(q.k * mean);
			o.zeta += d; o.U += d * q.w * c; o.Ud += d * q.w * q.w * c; o.pdyn += d * m.rho * m.g * c;
		}
		return o;
	}
	double mean = 0; // depth that the waves are computed for
	explicit Water(const Model& mm) : m(mm)
	{
		mean = m.depth;
		if (m.seafloor3d) { mean = 0; for (double z : m.bz) mean -= z / (double)m.bz.size(); }
		for (auto& s : m.spec) k.push_back(wavenumber(s.w, m.g, mean));
		if (m.waveKin == 2 || m.waveKin == 3) grid();
		else for (size_t i = 0; i < m.spec.size(); i++) modes.push_back({ std::hypot(m.spec[i].re, m.spec[i].im), std::fabs(m.spec[i].w), std::fabs(k[i]) });
	}
	double bottom(double x, double y) const
	{
		if (!m.seafloor3d) return -m.depth;
		size_t i, j; double fx, fy;
		bracket(m.bx, x, i, fx); bracket(m.by, y, j, fy);
		const size_t n = m.by.size(), i1 = upper(m.bx, i), j1 = upper(m.by, j);
		return (1 - fx) * ((1 - fy) * m.bz[i * n + j] + fy * m.bz[i * n + j1]) + fx * ((1 - fy) * m.bz[i1 * n + j] + fy * m.bz[i1 * n + j1]);
	}
	// vertical profiles of linear waves
	static void profiles(double kk, double z, double h, double& ss, double& cs, double& cc)
	{
		if (kk == 0) { ss = 1; cs = 0; cc = 1; return; } // only used with zero frequency
		const double up = std::exp(kk * z), dn = std::exp(-kk * (z + 2 * h)), e2 = std::exp(-2 * kk * h);
		ss = (up - dn) / (1 - e2);
		cs = (up + dn) / (1 - e2);
		cc = (up + dn) / (1 + e2);
	}
	void grid()
	{
		using C = std::complex<double>;
		const C I(0, 1);
		std::vector<C> a;
		double dw;
		if (m.waveKin == 2) {
			// the spectrum at evenly spaced frequencies, as far apart as the closest two of the file
			std::vector<double> fr;
			dw = 1e9;
			for (auto& s : m.spec) { if (fr.size()) dw = std::min(dw, s.w - fr.back()); fr.push_back(s.w); }
			const size_t n = (size_t)std::floor(fr.back() / dw + 1e-9) + 1;
			for (size_t q = 0; q < n; q++) {
				size_t i; double f;
				bracket(fr, (double)q * dw, i, f);
				const auto &s = m.spec[i], &u = m.spec[upper(fr, i)];
				a.push_back((1 - f) * C(s.re, s.im) + f * C(u.re, u.im));
				be.push_back((1 - f) * s.beta + f * u.beta);
			}
			nt = 2 * (a.size() - 1);
			gdt = 2 * M_PI / dw / (double)nt;
		} else {
			gdt = m.dtWave;
			std::vector<double> ts, el; for (auto& p : m.elev) ts.push_back(p.first);
			for (int j = 0; j * gdt <= ts.back() + 1e-9; j++) { size_t i; double f; bracket(ts, j * gdt, i, f); el.push_back((1 - f) * m.elev[i].second + f * m.elev[i + 1].second); }
			nt = el.size() / 2 * 2;
			dw = 2 * M_PI / (gdt * (double)nt);
			for (size_t q = 0; q <= nt / 2; q++) {
				C s = 0;
				for (size_t j = 0; j < nt; j++) s += el[j] * std::exp(-I * (2 * M_PI * (double)(q * j % nt) / (double)nt));
				if ((double)q * dw > M_PI * (1 + 1e-12)) s = 0;
				a.push_back(2.0 / (double)nt * s);
				be.push_back(0);
			}
		}
		const size_t nw = a.size();
		for (size_t q = 0; q < nw; q++) om.push_back((double)q * dw);
		std::vector<double> kk;
		for (double w : om) kk.push_back(wavenumber(w, m.g, mean));
		for (size_t q = 0; q < nw; q++) modes.push_back({ std::abs(a[q]), om[q], kk[q] });
		const size_t X = m.gx.size(), Y = m.gy.size(), Z = m.gz.size();
		gZ.assign(X * Y * nt, 0); gP.assign(X * Y * Z * nt, 0); gU.assign(X * Y * Z * nt, Vec3{}); gA.assign(X * Y * Z * nt, Vec3{});
		std::vector<C> ph(nt);
		for (size_t j = 0; j < nt; j++) ph[j] = std::exp(I * (2 * M_PI * (double)j / (double)nt));
		for (size_t x = 0; x < X; x++) for (size_t y = 0; y < Y; y++) for (size_t q = 0; q < nw; q++) {
			if (a[q] == C(0, 0)) continue;
			const double half = q == 0 || q == nw - 1 ? 0.5 : 1.0;
			const C e = a[q] * std::exp(-I * kk[q] * (std::cos(be[q]) * m.gx[x] + std::sin(be[q]) * m.gy[y]));
			// the first and the last frequency of a discrete transform only have a real part
			auto re = [&](C v, size_t j) { return half < 1 ? half * (v.real() * ph[q * j % nt].real()) : (v * ph[q * j % nt]).real(); };
			for (size_t j = 0; j < nt; j++) gZ[(x * Y + y) * nt + j] += re(e, j);
			for (size_t z = 0; z < Z; z++) {
				double ss, cs, cc;
				profiles(kk[q], m.gz[z], mean, ss, cs, cc);
				const C ux = om[q] * e * cs * std::cos(be[q]), uy = om[q] * e * cs * std::sin(be[q]), uz = I * om[q] * e * ss, p = m.rho * m.g * e * cc;
				for (size_t j = 0; j < nt; j++) {
					const size_t at = ((x * Y + y) * Z + z) * nt + j;
					gU[at] = gU[at] + Vec3{ re(ux, j), re(uy, j), re(uz, j) };
					gA[at] = gA[at] + Vec3{ re(I * om[q] * ux, j), re(I * om[q] * uy, j), re(I * om[q] * uz, j) };
					gP[at] += re(p, j);
				}
			}
		}
		if (m.currents && m.unify)
			for (size_t x = 0; x < X; x++) for (size_t y = 0; y < Y; y++) for (size_t z = 0; z < Z; z++) for (size_t j = 0; j < nt; j++) {
				const bool uniform = m.currents != 5;
				const size_t at = ((x * Y + y) * Z + z) * nt + j;
				gU[at] = gU[at] + current({ uniform ? 0 : m.gx[x], uniform ? 0 : m.gy[y], m.gz[z] }, (double)j * gdt);
			}
	}
	// How long the tables cover the simulation (afterwards they repeat)
	double span(bool repeats = false) const
	{
		double t = 1e9;
		if (nt > 1 && (!repeats || m.ct.size() > 1)) t = std::min(t, (double)(nt - 1) * gdt);
		if (m.ct.size() > 1) t = std::min(t, m.ct.back());
		// times of a unified grid that the current table does not cover
		if (nt > 1 && m.currents && m.unify && m.ct.size() > 1) t = std::min(t, std::floor(m.ct.back() / gdt - 1e-9) * gdt);
		return t;
	}
	// Waves of a discrete spectrum repeat; nothing says how they get from their last sample to their first
	bool between(double t) const
	{
		if (nt < 2) return false;
		const double x = std::fmod(t / gdt, (double)nt);
		return x > (double)nt - 1 - 1e-6 && x < (double)nt - 1e-9;
	}
	Vec3 current(Vec3 p, double t) const
	{
		size_t i[4]; double f[4];
		bracket(m.cx, p.x, i[0], f[0]); bracket(m.cy, p.y, i[1], f[1]); bracket(m.cz, p.z, i[2], f[2]); bracket(m.ct, t, i[3], f[3]);
		Vec3 u;
		for (int c = 0; c < 16; c++) {
			double w = 1; size_t at = 0;
			const std::vector<double>* ax[4] = { &m.cx, &m.cy, &m.cz, &m.ct };
			for (int d = 0; d < 4; d++) {
				const bool up = c >> d & 1;
				w *= up ? f[d] : 1 - f[d];
				at = at * ax[d]->size() + (up ? upper(*ax[d], i[d]) : i[d]);
			}
			if (w != 0) u = u + w * m.cu[at];
		}
		return u;
	}
	Kin at(Vec3 p, double t) const
	{
		Kin o;
		const double h = mean, bot = bottom(p.x, p.y);
		if (m.waveKin == 7) {
			for (size_t q = 0; q < m.spec.size(); q++) {
				auto& s = m.spec[q];
				o.zeta += std::hypot(s.re, s.im) * std::sin(s.w * t - k[q] * (std::cos(s.beta) * p.x + std::sin(s.beta) * p.y) + std::atan2(s.im, s.re));
			}
			const double z = std::min(0.0, h * (p.z - bot) / (o.zeta - bot) - h);
			for (size_t q = 0; q < m.spec.size(); q++) {
				auto& s = m.spec[q];
				if (k[q] == 0) continue;
				double ss, cs, cc;
				profiles(k[q], z, h, ss, cs, cc);
				const double a = std::hypot(s.re, s.im), th = s.w * t - k[q] * (std::cos(s.beta) * p.x + std::sin(s.beta) * p.y) + std::atan2(s.im, s.re);
				o.U = o.U + a * s.w * Vec3{ std::cos(s.beta) * cs * std::sin(th), std::sin(s.beta) * cs * std::sin(th), ss * std::cos(th) };
				o.Ud = o.Ud + a * s.w * s.w * Vec3{ std::cos(s.beta) * cs * std::cos(th), std::sin(s.beta) * cs * std::cos(th), -ss * std::sin(th) };
			}
		}
		if (nt) {
			double tt = std::fmod(t / gdt, (double)nt); if (tt > (double)nt - 1e-9) tt = 0;
			size_t i[3], j0 = (size_t)tt; double f[3], ft = tt - (double)j0;
			const size_t j1 = std::min(j0 + 1, nt - 1); // not asked in between
			bracket(m.gx, p.x, i[0], f[0]); bracket(m.gy, p.y, i[1], f[1]);
			const size_t Y = m.gy.size(), Z = m.gz.size();
			for (int c = 0; c < 4; c++) {
				const size_t x = c & 1 ? upper(m.gx, i[0]) : i[0], y = c & 2 ? upper(m.gy, i[1]) : i[1];
				const double w = (c & 1 ? f[0] : 1 - f[0]) * (c & 2 ? f[1] : 1 - f[1]);
				o.zeta += w * ((1 - ft) * gZ[(x * Y + y) * nt + j0] + ft * gZ[(x * Y + y) * nt + j1]);
			}
			const double z = std::min(0.0, h * (p.z - bot) / (o.zeta - bot) - h);
			bracket(m.gz, z, i[2], f[2]);
			for (int c = 0; c < 8; c++) {
				const size_t x = c & 1 ? upper(m.gx, i[0]) : i[0], y = c & 2 ? upper(m.gy, i[1]) : i[1], zz = c & 4 ? upper(m.gz, i[2]) : i[2];
				const double w = (c & 1 ? f[0] : 1 - f[0]) * (c & 2 ? f[1] : 1 - f[1]) * (c & 4 ? f[2] : 1 - f[2]);
				const size_t a = ((x * Y + y) * Z + zz) * nt;
				o.U = o.U + w * ((1 - ft) * gU[a + j0] + ft * gU[a + j1]);
				o.Ud = o.Ud + w * ((1 - ft) * gA[a + j0] + ft * gA[a + j1]);
				o.pdyn += w * ((1 - ft) * gP[a + j0] + ft * gP[a + j1]);
			}
		}
		if (m.currents && !(nt && m.unify)) o.U = o.U + current(p, t);
		return o;
	}
};
