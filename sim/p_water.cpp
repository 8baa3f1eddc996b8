// C21 the water and the seabed that act are the ones the input files describe
#include "plan.hpp"
#include "water.hpp"
extern "C" {
#include "Waves.h"
#include "Seafloor.h"
}
namespace {
std::string str(Vec3 a) { return fmt("(%.9g,%.9g,%.9g)", a.x, a.y, a.z); }
struct Probe {
	Sys& s;
	const Water& w;
	MoorDynWaves waves;
	MoorDynSeafloor floor;
	long n = 0;
	Probe(Sys& ss, const Water& ww) : s(ss), w(ww)
	{
		waves = apip([&] { return MoorDyn_GetWaves(s.md); });
		floor = apip([&] { return MoorDyn_GetSeafloor(s.md); });
		if (!waves) throw Violation{ "query", "there is no waves object" };
		if ((floor != nullptr) != w.m.seafloor3d) throw Violation{ "query", w.m.seafloor3d ? "there is no seabed object" : "there is a seabed object although the seabed is flat" };
	}
	void seabed(Sim& S)
	{
		if (!floor) return;
		double d = 0, top = -1e9;
		api([&] { return MoorDyn_GetAverageDepth(floor, &d); });
		if (!(std::fabs(d + w.mean) < 1e-4)) throw Violation{ "depth", fmt("mean depth %.9g, the file gives %.9g", d, -w.mean) };
		for (double z : w.m.bz) top = std::max(top, z);
		api([&] { return MoorDyn_GetMinDepth(floor, &d); });
		if (!(std::fabs(d - top) < 1e-4)) throw Violation{ "depth", fmt("highest seabed %.9g, the file gives %.9g", d, top) };
		for (int i = 0; i < 3; i++) {
			double x = S.real(-90, 90), y = S.real(-90, 90);
			if (S.chance(1, 4)) { x = S.pick(w.m.bx); if (S.chance(1, 2)) y = S.pick(w.m.by); }
			int r = api([&] { return MoorDyn_GetDepthAt(floor, x, y, &d); });
			if (r) throw Violation{ "query", fmt("GetDepthAt returns %d", r) };
			const double want = w.bottom(x, y);
			if (!(std::fabs(d - want) < 1e-4)) throw Violation{ "depth", fmt("seabed at (%g, %g) is at %.9g, the file gives %.9g", x, y, d, want) };
			n++;
		}
	}
	void water(Sim& S, double t, const char* when)
	{
		if (w.between(t)) return;
		if (w.nt && t > (double)w.nt * w.gdt) S.probe("repeated waves");
		for (int i = 0; i < 4; i++) {
			Vec3 p = { S.real(-80, 80), S.real(-80, 80), S.chance(1, 5) ? S.real(-2, 6) : S.real(-w.m.depth - 2, 0) };
			if (S.chance(1, 6) && w.nt) { p.x = S.pick(w.m.gx); p.y = S.pick(w.m.gy); if (S.chance(1, 2)) p.z = S.pick(w.m.gz); }
			if (S.chance(1, 6) && w.m.currents) { p.x = S.pick(w.m.cx); p.y = S.pick(w.m.cy); if (S.chance(1, 2)) p.z = S.pick(w.m.cz); }
			if (S.chance(1, 8)) p.x = p.y = 0;
			Kin k; double U[3], A[3];
			int r = api([&] { return MoorDyn_GetWavesKin(waves, p.x, p.y, p.z, U, A, &k.zeta, &k.pdyn, floor); });
			if (r) throw Violation{ "query", fmt("GetWavesKin returns %d", r) };
			k.U = { U[0], U[1], U[2] }; k.Ud = { A[0], A[1], A[2] };
			const Kin want = w.at(p, t);
			const Water::Slack sl = w.slack();
			auto off = [&](double a, double b, double scale, double slack) { return !(std::fabs(a - b) <= 2e-6 * scale + 1e-6 * std::fabs(b) + slack); };
			auto voff = [&](Vec3 a, Vec3 b, double s) { return off(a.x, b.x, 1, s) || off(a.y, b.y, 1, s) || off(a.z, b.z, 1, s); };
			const std::string at = fmt("%s, t=%.9g at %s: ", when, t, str(p).c_str());
			if (off(k.zeta, want.zeta, 1, sl.zeta)) throw Violation{ "elevation", at + fmt("elevation %.9g, the files give %.9g", k.zeta, want.zeta) };
			if (voff(k.U, want.U, sl.U)) throw Violation{ "velocity", at + "water velocity " + str(k.U) + ", the files give " + str(want.U) };
			if (w.m.waveKin && !w.m.currents && voff(k.Ud, want.Ud, sl.Ud)) throw Violation{ "acceleration", at + "water acceleration " + str(k.Ud) + ", the files give " + str(want.Ud) };
			if (w.m.waveKin != 7 && off(k.pdyn, want.pdyn, w.m.rho * w.m.g, sl.pdyn)) throw Violation{ "pressure", at + fmt("dynamic pressure %.9g, the files give %.9g", k.pdyn, want.pdyn) };
			S.obs(U, sizeof U); S.obs(&k.zeta, 8);
			n++;
		}
	}
};
}
PROPERTY(C21)
{
	ModelOpts o;
	o.outputs = o.logfile = false; o.env = true; o.short_waves = S.chance(1, 4);
	Model m = make_model(S, "a", o);
	m.install();
	Motion q = make_motion(S, m, 1);
	Water w(m);
	// the disk delivers the files in pieces of any size
	const bool pieces = S.chance(1, 4);
	if (pieces) {
		const size_t least = 1 + S.draw(60);
		auto cnt = std::make_shared<size_t>(0);
		fs().hook = [least, cnt](const FsOp& op) {
			FsAct a;
			if (op.kind == FS_READ) { a.kind = FA_SHORT; a.n = least + (++*cnt * 37) % 101; }
			return a;
		};
		S.fault("short reads");
	}
	auto s = std::make_unique<Sys>();
	start(S, *s, m, q);
	fs().hook = nullptr;
	auto P = std::make_unique<Probe>(*s, w);
	const double span = w.span(true);
	P->seabed(S);
	P->water(S, 0, "at the start");
	const int n = S.range(3, S.thorough() ? 60 : 25);
	const double pace = S.chance(1, 3) ? S.real(0.3, 0.9) : 0; // long steps to reach far into the tables
	std::vector<std::pair<double, std::vector<uint64_t>>> saved;
	long checks = 0;
	std::string scheme = m.scheme;
	const char* when = "after a step";
	for (int k = 0; k < n; k++) {
		const int what = (int)S.draw(12);
		if (what == 0) { saved.push_back({ s->t, s->serialize() }); }
		else if (what == 1 && !saved.empty()) {
			auto& z = saved[S.draw((uint32_t)saved.size())];
			if (s->deserialize(z.second)) throw Violation{ "rollback", "the state is refused" };
			s->t = z.first;
			S.fault("rollback");
			when = "after a rollback";
			P->water(S, s->t, when); checks += 4;
		} else if (what == 2) {
			static const std::vector<std::string> sch{ "Euler", "RK2", "RK4", "Heun", "AB2", "AB4", "BEuler3", "LEuler" };
			const std::string nm = S.pick(sch);
			int r = api([&] { return MoorDyn_SetTimeScheme(s->md, nm.c_str()); });
			if (r) throw Violation{ "scheme", fmt("SetTimeScheme returns %d", r) };
			saved.clear(); // states of another scheme
			scheme = nm;
			S.fault("scheme changed");
			when = "after a change of scheme";
			P->water(S, s->t, when); checks += 4;
		} else if (what == 3) { // the process dies and another one goes on from its checkpoint
			const double t = s->t;
			auto z = s->serialize();
			auto f = std::make_unique<Sys>();
			if (S.chance(1, 2)) { s->close(); }
			else { api([&] { return MoorDyn_Close(s->md); }); }
			if (!f->create(m) || f->init(q, true)) throw Violation{ "restart", "the same model does not start again" };
			api([&] { return MoorDyn_SetTimeScheme(f->md, scheme.c_str()); });
			if (f->deserialize(z)) throw Violation{ "restart", "the state is refused" };
			s = std::move(f);
			s->t = t;
			P = std::make_unique<Probe>(*s, w);
			S.fault("restart from a checkpoint");
			when = "after a restart";
			P->seabed(S);
			P->water(S, s->t, when); checks += 4;
		} else {
			double dt = pace > 0 ? pace * S.real(0.5, 1) : pick_dt(S, m, 0.05);
			if (what == 4) dt = 0;
			if (s->t + dt >= span - 1e-6) { S.probe("end of the tables"); if (saved.empty()) break; continue; }
			S.mark(fmt("%g", dt));
			std::vector<double> x, xd;
			q.at(s->t, x, xd);
			if (s->step_x(x, xd, dt) || !s->finite()) throw Discard{ "unstable" };
			P->water(S, s->t, when); checks += 4;
			if (S.chance(1, 4)) P->seabed(S);
			when = "after a step";
		}
	}
	S.simtime += s->t;
	S.probe(fmt("waves %d, currents %d%s%s", m.waveKin, m.currents, m.currents && m.waveKin && m.unify ? " unified" : "", m.seafloor3d ? ", bathymetry" : ""));
	S.nontrivial = checks > 0 && (m.waveKin || m.currents || m.seafloor3d);
	s->close();
}
