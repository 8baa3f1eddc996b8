// A schedule of coupling steps and commands that can be replayed on several systems
#pragma once
#include "host.hpp"
#include <algorithm>
// A schedule of coupling steps, fixed in advance so that it can be replayed on several systems
struct Plan {
	std::vector<double> dt;
	std::vector<std::vector<double>> x, xd; // host data at the start of each step
	std::vector<int> payline;               // line whose pay-out is commanded before the step (-1 none)
	std::vector<double> payrate;
	std::vector<int> paymode;               // 0 the rate of pay-out, 1 the length, 2 the stiffness, 3 the internal pressure
	// only lengths and rates, which are part of the state; the others are settings of the host
	Plan& lengths_only() { for (size_t i = 0; i < paymode.size(); i++) if (paymode[i] > 1) payline[i] = -1; return *this; }
};
inline Plan make_plan(Sim& S, const Model& m, const Motion& q, int n, double base, double t0, bool pay, bool longer = true)
{
	Plan p;
	double t = t0;
	// now and then a long step, during which the host stands still
	size_t nodes = 1 + 4 * m.bodies.size();
	for (auto& l : m.lines) nodes += l.n + 1;
	for (auto& r : m.rods) nodes += r.n + 1;
	const int lng = longer && S.chance(1, 20) ? (int)S.draw((uint32_t)n) : -1;
	for (int i = 0; i < n; i++) {
		double dt = pick_dt(S, m, base);
		std::vector<double> x, xd;
		q.at(t, x, xd);
		if (i == lng) { dt = std::max(dt, m.dtEst * S.real(2000, 20000) / (double)nodes); std::fill(xd.begin(), xd.end(), 0.0); }
		p.dt.push_back(dt); p.x.push_back(x); p.xd.push_back(xd);
		int pl = -1, pm = 0; double pr = 0;
		if (pay && S.chance(1, 5)) { pl = (int)S.draw((uint32_t)m.lines.size()); pr = S.rreal(-0.3, 0.5, 0.01); }
		if (pl >= 0 && S.chance(1, 3)) {
			pm = 1 + (int)S.draw(3);
			const auto& l = m.lines[pl];
			const auto& T = m.lt[l.ltype];
			if (pm == 1) pr = l.len * S.real(0.98, 1.04);
			else if (pm == 2 && !T.eatab) pr = T.EA * S.real(0.5, 1.0);
			else { pm = 3; pr = S.chance(1, 4) ? -1 : S.real(0, 2e6); }
		}
		p.payline.push_back(pl); p.payrate.push_back(pr); p.paymode.push_back(pm);
		t += dt;
	}
	return p;
}
inline void command_as(Sys& s, const Plan& p, int i, int line)
{
	auto l = MoorDyn_GetLine(s.md, line + 1);
	const double v = p.payrate[i];
	if (p.paymode[i] == 0) api([&] { return MoorDyn_SetLineUnstretchedLengthVel(l, v); });
	if (p.paymode[i] == 1) api([&] { return MoorDyn_SetLineUnstretchedLength(l, v); });
	if (p.paymode[i] == 2) api([&] { return MoorDyn_SetLineConstantEA(l, v); });
	if (p.paymode[i] == 3) {
		std::vector<double> pin(s.m->lines[line].n + 1, v);
		if (v < 0) api([&] { return MoorDyn_SetLinePressBend(l, 0); });
		else { api([&] { return MoorDyn_SetLinePressInt(l, pin.data()); }); api([&] { return MoorDyn_SetLinePressBend(l, 1); }); }
	}
}
inline void command(Sys& s, const Plan& p, int i)
{
	if (p.payline[i] >= 0)
		command_as(s, p, i, p.payline[i]);
}
// the settings a host had made before step `upto` of its plan, made again (they are not part of a saved state)
inline void settings(Sys& s, const Plan& p, int upto)
{
	for (int pass = 0; pass < 2; pass++)
		for (size_t i = 0; i < p.paymode.size(); i++) {
			const int l = p.payline[i];
			if (l < 0 || p.paymode[i] < 2) continue;
			if (pass) { if ((int)i < upto) command(s, p, (int)i); }
			else if (p.paymode[i] == 2) api([&] { return MoorDyn_SetLineConstantEA(MoorDyn_GetLine(s.md, l + 1), s.m->lt[s.m->lines[l].ltype].EA); });
			else api([&] { return MoorDyn_SetLinePressBend(MoorDyn_GetLine(s.md, l + 1), 0); });
		}
}
inline bool do_step(Sys& s, const Plan& p, int i)
{
	command(s, p, i);
	int r = s.step_x(p.x[i], p.xd[i], p.dt[i]);
	return r == MOORDYN_SUCCESS && s.finite();
}

