// C14 wave kinematics supplied by the host
#include "plan.hpp"
extern "C" {
#include "Line.h"
#include "Point.h"
#include "Rod.h"
#include "Body.h"
}
namespace {
struct NodeId { int kind, obj, node; }; // 0 line, 1 rod, 2 point, 3 body
struct Nodes {
	std::vector<NodeId> id;
	std::vector<double> r, v;
};
// all nodes as the query functions show them: lines, rods, points, the ground, bodies
Nodes nodes(const Sys& s)
{
	const Model& m = *s.m;
	Nodes N;
	double p[3], v[3];
	auto add = [&](int k, int o, int n) { N.id.push_back({ k, o, n }); for (int j = 0; j < 3; j++) { N.r.push_back(p[j]); N.v.push_back(v[j]); } };
	for (size_t l = 0; l < m.lines.size(); l++) {
		MoorDynLine L = apip([&] { return MoorDyn_GetLine(s.md, (unsigned)l + 1); });
		unsigned n = 0; api([&] { return MoorDyn_GetLineN(L, &n); });
		for (unsigned i = 0; i <= n; i++) { api([&] { return MoorDyn_GetLineNodePos(L, i, p); }); api([&] { return MoorDyn_GetLineNodeVel(L, i, v); }); add(0, (int)l, (int)i); }
	}
	for (size_t l = 0; l < m.rods.size(); l++) {
		MoorDynRod R = apip([&] { return MoorDyn_GetRod(s.md, (unsigned)l + 1); });
		unsigned n = 0; api([&] { return MoorDyn_GetRodN(R, &n); });
		for (unsigned i = 0; i <= n; i++) { api([&] { return MoorDyn_GetRodNodePos(R, i, p); }); api([&] { return MoorDyn_GetRodNodeVel(R, i, v); }); add(1, (int)l, (int)i); }
	}
	for (size_t l = 0; l < m.points.size(); l++) {
		MoorDynPoint P = apip([&] { return MoorDyn_GetPoint(s.md, (unsigned)l + 1); });
		api([&] { return MoorDyn_GetPointPos(P, p); }); api([&] { return MoorDyn_GetPointVel(P, v); }); add(2, (int)l, 0);
	}
	p[0] = p[1] = p[2] = v[0] = v[1] = v[2] = 0;
	add(4, 0, 0); // the ground counts as a body at the origin
	for (size_t l = 0; l < m.bodies.size(); l++) {
		MoorDynBody B = apip([&] { return MoorDyn_GetBody(s.md, (unsigned)l + 1); });
		api([&] { return MoorDyn_GetBodyPos(B, p); }); api([&] { return MoorDyn_GetBodyVel(B, v); }); add(3, (int)l, 0);
	}
	return N;
}
const char* KN[] = { "line", "rod", "point", "body", "the ground" };
std::string name(const NodeId& i) { return i.kind < 2 ? fmt("%s %d node %d", KN[i.kind], i.obj + 1, i.node) : fmt("%s %d", KN[i.kind], i.obj + 1); }
int begin(Sys& s, const Model& m, const Plan& p, bool ext)
{
	fs().img.clear();
	m.install();
	if (!s.create(m)) throw Discard{ "create failed" };
	s.m = &m;
	s.f.assign(m.ncpl() + 64, 0.0);
	s.rc = api([&] { return m.noic ? MoorDyn_Init_NoIC(s.md, p.x[0].data(), p.xd[0].data()) : MoorDyn_Init(s.md, p.x[0].data(), p.xd[0].data()); });
	if (s.rc || !s.finite()) throw Discard{ fmt("init %d", s.rc) };
	unsigned n = 0;
	if (ext) {
		int r = api([&] { return MoorDyn_ExternalWaveKinInit(s.md, &n); });
		if (r) throw Violation{ "init", fmt("ExternalWaveKinInit returns %d", r) };
	}
	return (int)n;
}
void supply(Sys& s, const std::vector<double>& U, const std::vector<double>& Ud, double t)
{
	int r = api([&] { return MoorDyn_ExternalWaveKinSet(s.md, U.data(), Ud.data(), t); });
	if (r) throw Violation{ "set", fmt("ExternalWaveKinSet returns %d %s", r, g_escape.c_str()) };
}
// The same model without the option WaveKin
Model without(Model m)
{
	std::string& s = m.files[m.file];
	size_t e = s.find("1 WaveKin\n");
	if (e != std::string::npos) s.erase(e, 10);
	m.waveKin = 0;
	return m;
}
// Its lines write the water velocity at the nodes and nothing else
Model show_u(Model m)
{
	std::string& s = m.files[m.file];
	size_t b = s.find("ID LineType AttachA");
	b = s.find('\n', s.find('\n', b) + 1) + 1;
	for (auto& l : m.lines) {
		size_t e = s.find('\n', b), k = s.rfind(' ', e);
		s.replace(k + 1, e - k - 1, "U");
		l.flags = "U";
		b = s.find('\n', b) + 1;
	}
	return m;
}
std::vector<double> last_row(const std::string& f)
{
	std::vector<double> v;
	size_t e = f.find_last_not_of(" \n\t\r");
	if (e == std::string::npos) return v;
	size_t b = f.rfind('\n', e);
	const char* c = f.c_str() + (b == std::string::npos ? 0 : b + 1);
	for (;;) {
		char* q;
		double x = strtod(c, &q);
		if (q == c) break;
		v.push_back(x);
		c = q;
		if (*c == '\n') break;
		while (*c == '\t' || *c == ' ') c++;
		if (*c == '\n' || !*c) break;
	}
	return v;
}
int find(std::vector<int>& g, int i) { while (g[i] != i) i = g[i]; return i; }
} // namespace

static void mode_history(Sim& S)
{
	ModelOpts o;
	o.external = true;
	o.outputs = false;
	o.logfile = false;
	o.currents = S.chance(1, 3);
	Model m = show_u(make_model(S, "a", o));
	S.ev("history: model %s", m.summary.c_str());
	S.mark("history " + m.summary);
	Motion q = make_motion(S, m);
	int n = S.range(1, 8);
	Plan p = make_plan(S, m, q, n, S.real(0.01, 0.08), 0.0, true);
	// which steps are preceded by a supply, and how the redundant twin repeats it
	std::vector<int> sup(n), again(n);
	std::vector<double> amp(n), tt(n);
	for (int i = 0; i < n; i++) {
		sup[i] = S.chance(2, 3); again[i] = (int)S.draw(3); amp[i] = S.rreal(0.1, 1.5, 0.1);
		tt[i] = S.chance(1, 4) ? S.real(0, 100) : -1;
	}
	uint32_t salt = S.draw(1000);
	auto field = [&](int step, size_t k, int what) { // any field: each node its own value
		uint64_t h = fnv(FNV0, &k, sizeof k); h = fnv(h, &step, sizeof step); h = fnv(h, &what, sizeof what); h = fnv(h, &salt, sizeof salt);
		return amp[step] * ((double)(h >> 16 & 0xffff) / 32768.0 - 1.0);
	};
	std::vector<Obs> ref;
	std::vector<std::vector<double>> seenU;
	for (int twin = 0; twin < 2; twin++) {
		Sys s;
		int np = begin(s, m, p, true);
		std::vector<double> U(3 * (size_t)np, 0.0), Ud = U, r(3 * (size_t)np + 3, 0.0);
		bool given = false;
		for (int i = 0; i < n; i++) {
			if (twin == 0) {
				unsigned k = 0;
				api([&] { return MoorDyn_ExternalWaveKinGetN(s.md, &k); });
				if ((int)k != np) throw Violation{ "number", fmt("the number of points went from %d to %u", np, k) };
				r.assign(r.size(), 1e30);
				int rc = api([&] { return MoorDyn_ExternalWaveKinGetCoordinates(s.md, r.data()); });
				if (rc) throw Violation{ "coordinates", fmt("GetCoordinates returns %d", rc) };
				Nodes N = nodes(s);
				if (N.r.size() != 3 * (size_t)np) throw Violation{ "number", fmt("%d points are asked for, the system has %zu nodes", np, N.id.size()) };
				for (size_t j = 0; j < N.r.size(); j++)
					if (!same_bits(N.r[j], r[j])) throw Violation{ "coordinates", fmt("before step %d, coordinate %zu of %s is %.12g, handed out as %.12g", i + 1, j % 3, name(N.id[j / 3]).c_str(), N.r[j], r[j]) };
				if (r[N.r.size()] != 1e30) throw Violation{ "coordinates", "more coordinates than announced" };
			}
			if (sup[i]) {
				for (size_t j = 0; j < U.size(); j++) { U[j] = field(i, j, 0); Ud[j] = field(i, j, 1); }
				if (twin && again[i] == 2) { // corrected at once
					auto V = U; for (auto& x : V) x = -3 * x + 1;
					supply(s, V, Ud, s.t);
				}
				supply(s, U, Ud, tt[i] >= 0 && twin ? tt[i] : s.t);
				given = true;
				if (twin == 0) S.fault("supply"); 
			} else {
				if (twin == 0) S.fault("late supply");
				if (twin && given && again[i]) supply(s, U, Ud, s.t); // what was supplied stays
			}
			if (!do_step(s, p, i)) throw Discard{ "unstable" };
			if (!twin) S.simtime += p.dt[i];
			Obs ob; ob.with_labels = true;
			s.observe(ob);
			if (!twin) { ref.push_back(ob); trace_obs(S, ob); }
			else {
				std::string d = diff_obs(ref[i], ob);
				if (!d.empty()) throw Violation{ "repeat", fmt("supplying the same values again changes the run: after step %d, ", i + 1) + d };
			}
			if (!twin) seenU.push_back(U);
		}
		s.close();
		if (!twin && !m.currents) { // the values in the files of the lines: a row after every step
			size_t k = 0;
			for (size_t l = 0; l < m.lines.size(); l++) {
				const std::string& f = fs().img[fmt("%s_Line%zu.out", m.base.c_str(), l + 1)];
				size_t w = 3 * (size_t)(m.lines[l].n + 1);
				std::vector<std::vector<double>> rows;
				for (size_t b = 0; b < f.size();) {
					size_t e = f.find('\n', b);
					if (e == std::string::npos) e = f.size();
					std::vector<double> row = last_row(f.substr(b, e - b));
					if (row.size() == w + 1) rows.push_back(row);
					b = e + 1;
				}
				if (rows.size() >= seenU.size()) for (size_t i = 0; i < seenU.size(); i++) {
					auto& row = rows[rows.size() - seenU.size() + i];
					for (size_t j = 0; j < w; j++)
						if (std::fabs(row[j + 1] - seenU[i][3 * k + j]) > 1e-4 * (1 + std::fabs(seenU[i][3 * k + j])))
							throw Violation{ "value", fmt("after step %zu line %zu node %zu saw water velocity %g (component %zu), %g was supplied", i + 1, l + 1, j / 3, row[j + 1], j % 3, seenU[i][3 * k + j]) };
					S.probe("velocities in files compared");
				}
				k += (size_t)m.lines[l].n + 1;
			}
		}
	}
	S.nontrivial = true;
}

static void mode_still(Sim& S)
{
	ModelOpts o;
	o.external = true;
	o.outputs = S.chance(1, 2);
	o.logfile = false;
	o.currents = S.chance(1, 2);
	Model m = make_model(S, "a", o), w = without(m);
	S.ev("still water: model %s", m.summary.c_str());
	S.mark("still " + m.summary);
	Motion q = make_motion(S, m);
	int n = S.range(1, 5);
	Plan p = make_plan(S, m, q, n, S.real(0.01, 0.08), 0.0, true);
	std::vector<int> sup(n);
	for (int i = 0; i < n; i++) sup[i] = S.chance(2, 3);
	std::vector<Obs> ref;
	for (int twin = 0; twin < 2; twin++) {
		Sys s;
		int np = begin(s, twin ? w : m, p, !twin);
		std::vector<double> U(3 * (size_t)np, 0.0);
		for (int i = 0; i < n; i++) {
			if (!twin && sup[i]) { supply(s, U, U, s.t); S.fault("supply of still water"); }
			if (!do_step(s, p, i)) throw Discard{ "unstable" };
			if (!twin) S.simtime += p.dt[i];
			Obs ob; ob.with_labels = true;
			s.observe(ob);
			if (!twin) { ref.push_back(ob); trace_obs(S, ob); }
			else {
				std::string d = diff_obs(ref[i], ob);
				if (!d.empty()) throw Violation{ "still", fmt("still water supplied by the host is not no waves: after step %d, ", i + 1) + d };
			}
		}
		s.close();
	}
	S.nontrivial = true;
}

static void mode_uniform(Sim& S)
{
	ModelOpts o;
	o.external = true;
	o.outputs = false;
	o.logfile = false;
	o.currents = false;
	o.ic = false;
	Model m = make_model(S, "a", o);
	S.ev("uniform: model %s", m.summary.c_str());
	S.mark("uniform " + m.summary);
	Motion q = make_motion(S, m);
	int n = S.range(1, 4);
	Plan p = make_plan(S, m, q, n, S.real(0.01, 0.05), 0.0, true);
	// shares of a uniform stream: supplied by the host and read as current
	double c[2] = { S.rreal(-1.2, 1.2, 0.01), S.rreal(-1.2, 1.2, 0.01) };
	int how[2] = { 0, 1 + (int)S.draw(2) }; // 0: all external, 1: all current, 2: half and half
	std::vector<Obs> ref;
	for (int twin = 0; twin < 2; twin++) {
		double e = how[twin] == 0 ? 1 : how[twin] == 1 ? 0 : 0.5;
		Model x = how[twin] == 1 ? without(m) : m;
		if (e < 1) {
			std::string& s = x.files[x.file];
			size_t k = s.find(" WtrDpth");
			k = s.find('\n', k) + 1;
			s.insert(k, "1 Currents\n");
			x.files[x.dir + "current_profile.txt"] = "currents\ncurrents\ncurrents\n" + fmt("%.17g %.17g %.17g 0\n", -3 * m.depth, c[0] * (1 - e), c[1] * (1 - e)) + fmt("%.17g %.17g %.17g 0\n", 60.0, c[0] * (1 - e), c[1] * (1 - e));
		}
		Sys s;
		int np = begin(s, x, p, how[twin] != 1);
		std::vector<double> U(3 * (size_t)np, 0.0), Ud = U;
		for (int i = 0; i < np; i++) { U[3 * i] = c[0] * e; U[3 * i + 1] = c[1] * e; }
		for (int i = 0; i < n; i++) {
			if (how[twin] != 1 && !i) supply(s, U, Ud, s.t);
			if (!do_step(s, p, i)) throw Discard{ "unstable" };
			if (!twin) S.simtime += p.dt[i];
			Obs ob; ob.with_labels = true;
			s.observe(ob, O_KIN);
			if (!twin) { ref.push_back(ob); trace_obs(S, ob); }
			else {
				std::string d = diff_obs_tol(ref[i], ob, 1e-5, 1e-5);
				if (d.empty()) continue;
				// a system in which rounding grows without bound settles nothing: the host's supply again, changed in the 12th digit
				s.close();
				Sys v;
				int nv = begin(v, m, p, true);
				std::vector<double> V(3 * (size_t)nv, 0.0), Vd = V;
				for (int k = 0; k < nv; k++) { V[3 * k] = c[0] * (1 + 1e-12); V[3 * k + 1] = c[1] * (1 - 1e-12); }
				for (int k = 0; k <= i; k++) {
					if (!k) supply(v, V, Vd, v.t);
					if (!do_step(v, p, k)) throw Discard{ "unstable" };
					Obs o2; o2.with_labels = true;
					v.observe(o2, O_KIN);
					if (!diff_obs_tol(ref[k], o2, 1e-5, 1e-5).empty()) throw Discard{ "sensitive to rounding" };
				}
				throw Violation{ "uniform", fmt("a uniform stream (%g, %g) supplied by the host acts differently from the same %s: after step %d, ", c[0], c[1], how[1] == 1 ? "current" : "stream given half as current", i + 1) + d };
			}
		}
		s.close();
	}
	S.fault(how[1] == 1 ? "stream as current" : "stream shared with current");
	S.nontrivial = true;
}

static void mode_leak(Sim& S)
{
	ModelOpts o;
	o.external = true;
	o.outputs = false;
	o.logfile = false;
	o.currents = S.chance(1, 4);
	o.ic = false;
	o.fixed_dt = true;
	o.schemes = { "Euler" };
	Model m = make_model(S, "a", o);
	S.ev("one node: model %s", m.summary.c_str());
	S.mark("leak " + m.summary);
	Motion q = make_motion(S, m);
	int warm = S.range(0, 3); // steps in still water first
	Plan p = make_plan(S, m, q, warm + 1, S.real(0.01, 0.05), 0.0, true);
	p.dt[warm] = m.dtM;
	// what moves together
	std::vector<NodeId> ids;
	std::vector<double> v[2], r0;
	uint32_t pickk = S.draw(1u << 16);
	Vec3 u{ S.rreal(-1.5, 1.5, 0.01), S.rreal(-1.5, 1.5, 0.01), S.rreal(-1.5, 1.5, 0.01) };
	bool acc = S.chance(1, 3);
	size_t k = 0;
	for (int twin = 0; twin < 2; twin++) {
		Sys s;
		int np = begin(s, m, p, true);
		std::vector<double> U(3 * (size_t)np, 0.0), Ud = U;
		k = pickk % (uint32_t)np;
		for (int i = 0; i < warm; i++) if (!do_step(s, p, i)) throw Discard{ "unstable" };
		if (!twin) { Nodes N = nodes(s); ids = N.id; r0 = N.r; if (N.id.size() != (size_t)np) throw Violation{ "number", fmt("%d points are asked for, the system has %zu nodes", np, N.id.size()) }; }
		if (twin) { auto& X = acc ? Ud : U; X[3 * k] = u.x; X[3 * k + 1] = u.y; X[3 * k + 2] = u.z; }
		supply(s, U, Ud, s.t);
		api([&] { return MoorDyn_GetDt(s.md, &p.dt[warm]); }); // a single internal step
		if (!do_step(s, p, warm)) throw Discard{ "unstable" };
		S.simtime += m.dtM;
		v[twin] = nodes(s).v;
		s.close();
	}
	S.obs(v[0].data(), v[0].size() * 8); S.obs(v[1].data(), v[1].size() * 8);
	std::vector<int> g(ids.size());
	for (size_t i = 0; i < g.size(); i++) g[i] = (int)i;
	auto at = [&](int kind, int obj, int node) { for (size_t i = 0; i < ids.size(); i++) if (ids[i].kind == kind && ids[i].obj == obj && (node < 0 || ids[i].node == node)) return (int)i; return 0; };
	auto join = [&](int a, int b) { g[find(g, a)] = find(g, b); };
	for (size_t i = 0; i < ids.size(); i++) if (ids[i].kind == 1) join((int)i, at(1, ids[i].obj, 0));
	for (size_t i = 0; i < m.points.size(); i++) if (m.points[i].type == P_BODY) join(at(2, (int)i, 0), at(3, m.points[i].body, 0));
	for (size_t i = 0; i < m.rods.size(); i++) if (m.rods[i].body >= 0) join(at(1, (int)i, 0), at(3, m.rods[i].body, 0));
	for (size_t i = 0; i < m.lines.size(); i++)
		for (int e = 0; e < 2; e++) {
			const MEnd& en = e ? m.lines[i].b : m.lines[i].a;
			join(at(0, (int)i, e ? m.lines[i].n : 0), en.rod ? at(1, en.idx, 0) : at(2, en.idx, 0));
		}
	bool moved = false;
	for (size_t i = 0; i < ids.size(); i++) {
		bool same = !memcmp(&v[0][3 * i], &v[1][3 * i], 24);
		if (find(g, (int)i) == find(g, (int)k)) { moved |= !same; continue; }
		if (!same) throw Violation{ "leak", fmt("water %s supplied at %s alone moved %s (velocity %.17g %.17g %.17g instead of %.17g %.17g %.17g)", acc ? "acceleration" : "velocity", name(ids[k]).c_str(), name(ids[i]).c_str(), v[1][3 * i], v[1][3 * i + 1], v[1][3 * i + 2], v[0][3 * i], v[0][3 * i + 1], v[0][3 * i + 2]) };
	}
	S.fault(acc ? "acceleration at one node" : "velocity at one node");
	// inner nodes of lines well under water must feel it
	double um = norm(u);
	if (ids[k].kind == 0 && ids[k].node > 0 && ids[k].node < m.lines[ids[k].obj].n && r0[3 * k + 2] < -1.5 && um > 0.2) {
		S.probe("inner node of a line");
		if (!moved) throw Violation{ "unused", fmt("water %s supplied at %s has no effect", acc ? "acceleration" : "velocity", name(ids[k]).c_str()) };
	}
	// so must free points with drag, and free rods
	if (ids[k].kind == 2 && m.points[ids[k].obj].type == P_FREE && r0[3 * k + 2] < -1.5 && um > 0.2 && !acc && m.points[ids[k].obj].cda > 1e-3) {
		S.probe("free point");
		if (!moved) throw Violation{ "unused", fmt("water %s supplied at %s has no effect", acc ? "acceleration" : "velocity", name(ids[k]).c_str()) };
	}
	if (ids[k].kind == 1 && m.rods[ids[k].obj].type == R_FREE && m.rods[ids[k].obj].n > 0 && r0[3 * k + 2] < -2.5 && um > 0.3) {
		S.probe("free rod");
		if (!moved) throw Violation{ "unused", fmt("water %s supplied at %s has no effect", acc ? "acceleration" : "velocity", name(ids[k]).c_str()) };
	}
	S.nontrivial = true;
}

PROPERTY(C14)
{
	switch (S.draw(4)) {
		case 0: mode_history(S); break;
		case 1: mode_still(S); break;
		case 2: mode_uniform(S); break;
		default: mode_leak(S);
	}
}
