#include "model.hpp"
#include <sstream>
#include <algorithm>

const std::vector<std::string> ALL_SCHEMES = { "RK2", "Euler", "Heun", "RK4", "AB2", "AB3", "AB4", "LEuler", "LAB2", "LAB3",
	"LAB4", "BEuler3", "Midpoint3", "Anderson3", "ACA3", "Wilson3", "BEuler7", "Midpoint6", "ACA5", "Wilson6", "Anderson6" };

static const double DEG = 3.14159265358979323846 / 180.0;

// Rotation of the library: R = Rx(roll) * Ry(pitch) * Rz(yaw) acting on body coordinates (checked by C11)
Vec3 rot_euler(Vec3 a, Vec3 v)
{
	const double c1 = cos(a.x), s1 = sin(a.x), c2 = cos(a.y), s2 = sin(a.y), c3 = cos(a.z), s3 = sin(a.z);
	Vec3 r = { c3 * v.x - s3 * v.y, s3 * v.x + c3 * v.y, v.z };
	Vec3 q = { c2 * r.x + s2 * r.z, r.y, -s2 * r.x + c2 * r.z };
	return { q.x, c1 * q.y - s1 * q.z, s1 * q.y + c1 * q.z };
}

void Model::install() const
{
	for (auto& kv : files) {
		fs().img[kv.first] = kv.second;
		if (getenv("SIM_FILES")) fprintf(stderr, "==== %s\n%s\n", kv.first.c_str(), kv.second.c_str());
	}
}

Vec3 Model::endpos(const MEnd& e) const
{
	if (!e.rod) {
		const MPoint& p = points[e.idx];
		if (p.type == P_BODY) return bodies[p.body].p + rot_euler(DEG * bodies[p.body].ang, p.p);
		return p.p;
	}
	const MRod& r = rods[e.idx];
	Vec3 q = e.end ? r.b : r.a;
	if (r.type == R_BODY || r.type == R_BODYPIN) return bodies[r.body].p + rot_euler(DEG * bodies[r.body].ang, q);
	return q;
}

static std::string num(double v) { return fmt("%.10g", v); }

Model make_model(Sim& S, const std::string& name, const ModelOpts& o)
{
	Model m;
	m.dir = "/sim/" + name + "/";
	m.file = m.dir + "m.txt";
	m.base = m.dir + "m";
	std::ostringstream sum;

	// ------------------------------------------------------------ environment
	m.depth = S.rreal(25, 60, 0.5);
	m.kb = S.rreal(1e4, 2e5, 10);
	m.cb = S.rreal(1e3, 1e4, 10);
	if (o.fluids && S.chance(1, 4)) { m.g = S.rreal(1.6, 12, 0.01); m.rho = S.rreal(900, 1100, 1); }
	if (o.seafloor3d && S.chance(1, o.env ? 2 : 8)) m.seafloor3d = true;
	if (o.friction && S.chance(1, 5)) { m.fric = S.rreal(0.05, 0.6, 0.01); m.fricDamp = S.rreal(50, 400, 1); m.statDyn = S.rreal(1, 2, 0.1); }
	if (!o.still && o.waves) {
		static const int wk[] = { 0, 0, 0, 7, 3, 2 };
		m.waveKin = wk[o.env ? 2 + S.draw(4) : S.draw(6)];
	}
	if (o.external) m.waveKin = 1;
	if (!o.still && o.currents && S.chance(1, o.env ? 2 : 4)) { static const int cu[] = { 1, 2, 5 }; m.currents = cu[S.draw(3)]; }
	const auto& sch = o.schemes.empty() ? ALL_SCHEMES : o.schemes;
	m.scheme = sch[S.draw((uint32_t)sch.size())];

	// ------------------------------------------------------------ types
	int nlt = S.range(1, 2);
	for (int i = 0; i < nlt; i++) {
		MLineType t;
		t.d = S.rreal(0.05, 0.2);
		t.w = S.rreal(15, 150, 0.1);
		t.EA = S.rreal(1e5, 2e6, 100);
		t.BA = S.chance(1, 3) ? S.rreal(1e2, 5e3, 1) : -S.rreal(0.1, 0.8, 0.01);
		t.EI = 0;
		t.Cd = S.rreal(0.8, 2.0, 0.01); t.Ca = S.rreal(0.5, 1.2, 0.01);
		t.CdAx = S.rreal(0.0, 0.5, 0.01); t.CaAx = S.rreal(0.0, 0.5, 0.01);
		if (o.damped) { t.Cd = 12; t.CdAx += 1; t.BA = -0.8; }
		if (o.bending && S.chance(1, 4)) t.EI = S.rreal(1e2, 2e4, 1);
		if (o.ea_tables && S.chance(1, 6)) {
			t.eatab = true;
			t.ea.push_back({ 0, 0 });
			double e = 0, T = 0;
			int n = S.range(2, 5);
			for (int k = 0; k < n; k++) { double de = S.rreal(0.01, 0.08, 0.001), sl = S.rreal(1e5, 1.5e6, 100); e += de; T += de * sl; t.ea.push_back({ e, T }); }
		}
		m.lt.push_back(t);
	}
	// ------------------------------------------------------------ bodies
	const bool wide = o.wide && S.chance(1, 50);
	int nb = o.bodies ? (int)S.draw(wide ? 5 : 3) : 0;
	for (int i = 0; i < nb; i++) {
		MBody b;
		static const BType bt[] = { B_CPL, B_FREE, B_CPLPIN, B_FIXED, B_FREE, B_CPL };
		b.type = bt[S.draw(6)];
		if (!o.coupled && (b.type == B_CPL || b.type == B_CPLPIN)) b.type = B_FREE;
		b.p = { S.rreal(-10, 10, 0.1), S.rreal(-10, 10, 0.1), S.rreal(-14, -4, 0.1) };
		b.ang = { 0, 0, 0 };
		if (S.chance(1, 2)) b.ang = { S.rreal(-20, 20, 0.5), S.rreal(-20, 20, 0.5), S.rreal(-90, 90, 1) };
		b.mass = S.rreal(2000, 10000, 10);
		b.vol = b.mass / 1025.0 * S.rreal(0.8, 1.3, 0.01);
		b.vol = std::floor(b.vol * 1000) / 1000;
		m.bodies.push_back(b);
	}
	// ------------------------------------------------------------ rods
	int nr = o.rods ? (int)S.draw(wide ? 6 : 3) : 0;
	for (int i = 0, k = nr ? S.range(1, 2) : 0; i < k; i++) {
		MRodType t;
		t.d = S.rreal(0.2, 0.6, 0.01); t.w = S.rreal(80, 350, 1); t.Cd = S.rreal(0.5, 1.5, 0.01); t.Ca = S.rreal(0.5, 1.2, 0.01);
		t.CdEnd = S.rreal(0, 1.2, 0.01); t.CaEnd = S.rreal(0, 1, 0.01);
		if (o.damped) { t.Cd = 10; t.CdEnd = 10; }
		m.rt.push_back(t);
	}
	for (int i = 0; i < nr; i++) {
		MRod r;
		static const RType ty[] = { R_CPL, R_FREE, R_PINNED, R_FIXED, R_CPLPIN, R_BODY, R_BODYPIN };
		r.type = ty[S.draw(7)];
		if (!o.coupled && (r.type == R_CPL || r.type == R_CPLPIN)) r.type = R_PINNED;
		if ((r.type == R_BODY || r.type == R_BODYPIN)) {
			if (m.bodies.empty()) r.type = R_FREE;
			else r.body = (int)S.draw((uint32_t)m.bodies.size());
		}
		r.len = S.rreal(3, 8, 0.1);
		r.n = S.range(1, wide ? 12 : 4);
		r.rtype = (int)S.draw((uint32_t)m.rt.size());
		double th = 0, ph = 0;
		const bool down = S.chance(1, 4); // described from its upper end
		if (r.type != R_CPL && S.chance(2, 3)) { th = S.real(0, 1.2); ph = S.real(-3, 3); }
		if (down) th = 3.14159265358979323846 - th;
		Vec3 q = { sin(th) * cos(ph), sin(th) * sin(ph), cos(th) };
		if (r.body >= 0) r.a = { S.rreal(-2, 2, 0.1), S.rreal(-2, 2, 0.1), S.rreal(-2, 2, 0.1) };
		else r.a = { S.rreal(-20, 20, 0.1), S.rreal(-20, 20, 0.1), S.rreal(-20, -9, 0.1) };
		if (r.body < 0 && down) r.a.z += r.len;
		if (r.body < 0 && o.surface_rods && S.chance(1, 3)) r.a.z = std::round(-S.real(-0.1, 1.1) * r.len * q.z * 100) / 100;
		if (o.zero_rods && (r.type == R_FREE || r.type == R_FIXED || r.type == R_CPL || r.type == R_BODY) && S.chance(1, 6)) { r.n = 0; r.len = 0; }
		Vec3 b = r.a + r.len * q;
		r.b = { std::round(b.x * 1e3) / 1e3, std::round(b.y * 1e3) / 1e3, std::round(b.z * 1e3) / 1e3 };
		m.rods.push_back(r);
	}
	// ------------------------------------------------------------ points
	int nl = wide ? S.range(6, 16) : S.range(1, o.max_lines);
	int np = S.range(2, 3 + nl);
	for (int i = 0; i < np; i++) {
		MPoint p;
		p.mass = p.vol = p.cda = p.ca = 0;
		static const PType ty[] = { P_FIXED, P_CPL, P_FREE, P_BODY, P_CPL };
		p.type = i == 0 ? P_FIXED : i == 1 ? P_CPL : ty[S.draw(5)];
		if (i - 1 < o.force_cpl_point && i >= 1) p.type = P_CPL;
		if (p.type == P_CPL && !o.coupled) p.type = P_FIXED;
		if (p.type == P_FREE && !o.free_points) p.type = P_FIXED;
		if (p.type == P_BODY) {
			if (m.bodies.empty()) p.type = P_FIXED;
			else p.body = (int)S.draw((uint32_t)m.bodies.size());
		}
		switch (p.type) {
			case P_FIXED:
				p.p = { S.rreal(-40, 40, 0.5), S.rreal(-40, 40, 0.5), S.chance(1, 4) ? -S.rreal(2, 15, 0.5) : -(m.seafloor3d ? m.depth - 3.5 : m.depth) };
				break;
			case P_CPL: p.p = { S.rreal(-15, 15, 0.5), S.rreal(-15, 15, 0.5), -S.rreal(1, 12, 0.5) }; break;
			case P_FREE:
				p.p = { S.rreal(-20, 20, 0.5), S.rreal(-20, 20, 0.5), -S.rreal(5, 20, 0.5) };
				p.mass = S.rreal(150, 2000, 1);
				p.vol = S.chance(1, 2) ? S.rreal(0.1, 2.5, 0.01) : 0.0;
				p.cda = S.rreal(0, 3, 0.1);
				p.ca = S.rreal(0, 1, 0.1);
				if (o.damped) p.cda += 25;
				break;
			case P_BODY: p.p = { S.rreal(-4, 4, 0.1), S.rreal(-4, 4, 0.1), S.rreal(-3, 3, 0.1) }; break;
		}
		if (o.surface && (p.type == P_FIXED || p.type == P_CPL) && S.chance(1, 4)) p.p.z = S.chance(1, 2) ? 0.0 : S.rreal(0.5, 8, 0.5);
		if (p.type != P_FREE && S.chance(1, 4)) { // clump weights, buoys
			p.mass = S.rreal(50, 1000, 1);
			p.vol = S.chance(1, 2) ? S.rreal(0.1, 1.5, 0.01) : 0.0;
			p.cda = S.rreal(0, 2, 0.1);
			p.ca = S.rreal(0, 1, 0.1);
		}
		m.points.push_back(p);
	}
	// ------------------------------------------------------------ lines
	std::vector<MEnd> ends;
	for (size_t i = 0; i < m.points.size(); i++) ends.push_back({ false, (int)i, 0 });
	for (size_t i = 0; i < m.rods.size(); i++) { ends.push_back({ true, (int)i, 0 }); ends.push_back({ true, (int)i, 1 }); }
	for (int i = 0; i < nl; i++) {
		MLine l;
		size_t a = S.draw((uint32_t)ends.size()), b = S.draw((uint32_t)ends.size());
		if (i == 0) { a = 0; b = b == 0 ? 1 : b; }
		if (a == b) b = (a + 1) % ends.size();
		// look for a partner far enough away
		for (size_t k = 0; k < ends.size() && (b == a || norm(m.endpos(ends[a]) - m.endpos(ends[b])) < 6.0); k++) b = (b + 1) % ends.size();
		double d = norm(m.endpos(ends[a]) - m.endpos(ends[b]));
		double slack = S.rreal(0.99, 1.25, 0.005);
		l.n = S.range(1, wide ? 24 : o.max_segs);
		l.ltype = (int)S.draw((uint32_t)nlt);
		if (a == b || d < 6.0) { if (i == 0) { d = 10; } else continue; }
		l.a = ends[a]; l.b = ends[b];
		l.len = std::round(d * slack * 100) / 100;
		l.n = std::max(1, std::min(l.n, (int)(l.len / (wide ? 2.0 : 3.0))));
		l.flags = "-";
		m.lines.push_back(l);
	}
	for (size_t i = 0; i < m.rods.size(); i++) { // a rod without length has no mass of its own
		bool held = false;
		for (auto& l : m.lines) for (const MEnd* e : { &l.a, &l.b }) if (e->rod && e->idx == (int)i) held = true;
		if (!held && m.rods[i].n == 0 && m.rods[i].type == R_FREE) m.rods[i].type = R_FIXED;
	}
	// ------------------------------------------------------------ internal step
	double om = 20.0;
	for (auto& l : m.lines) {
		const MLineType& t = m.lt[l.ltype];
		double EA = t.EA;
		if (t.eatab) { EA = 0; for (size_t k = 1; k < t.ea.size(); k++) EA = std::max(EA, (t.ea[k].second - t.ea[k - 1].second) / (t.ea[k].first - t.ea[k - 1].first)); }
		double seg = l.len / l.n;
		double w = 2 * sqrt(EA / t.w) / seg;
		double ba = t.BA > 0 ? t.BA : -t.BA * seg * sqrt(EA * t.w);
		w = std::max(w, 4 * ba / (t.w * seg * seg));
		w = std::max(w, 4 * sqrt(t.EI / t.w) / (seg * seg));
		w = std::max(w, m.cb * t.d / t.w);
		w = std::max(w, sqrt(m.kb * t.d / t.w));
		om = std::max(om, w);
		for (int e = 0; e < 2; e++) {
			const MEnd& en = e ? l.b : l.a;
			double M = 0;
			if (!en.rod && m.points[en.idx].type == P_FREE) M = m.points[en.idx].mass;
			if (en.rod && m.rods[en.idx].n) M = m.rt[m.rods[en.idx].rtype].w * m.rods[en.idx].len / 4;
			if (M > 0) om = std::max(om, sqrt(3 * EA / seg / M));
		}
	}
	int k = 6;
	while (k < 13 && std::ldexp(1.0, -k) * om > 0.4) k++;
	m.dtEst = std::ldexp(1.0, -k);
	int dtmode = (o.pow2dt || o.fixed_dt) ? 0 : (int)S.draw(3);
	if (dtmode == 0) m.dtM = m.dtEst;
	else if (dtmode == 1) m.dtM = m.dtEst * S.rreal(0.4, 1.0, 0.01);
	else m.cfl = S.rreal(0.15, 0.45, 0.01);
	if (o.fixed_dt && !o.pow2dt && S.chance(1, 2)) m.dtM = m.dtEst * S.rreal(0.4, 1.0, 0.01);
	// ------------------------------------------------------------ initial conditions
	int ic = o.always_ic ? 4 + (int)S.draw(2) : o.ic ? (int)S.draw(6) : 0;
	m.noic = ic < 4;
	m.legacy_ic = ic == 5;
	// ------------------------------------------------------------ outputs
	if (o.outputs) {
		static const double dto[] = { 0, 0, 0.05, 0.1, 0.25, 0.03 };
		m.dtOut = dto[S.draw(6)];
		m.writeUnits = S.chance(1, 4) ? 0 : 1;
		static const char* lf[] = { "-", "p", "pv", "t", "ptsd", "pvUDctsd", "c", "pKvUDtcsdb", "pb" };
		for (auto& l : m.lines) l.flags = lf[S.draw(9)];
		for (auto& r : m.rods) { static const char* rf[] = { "-", "p", "pv", "pvf" }; r.flags = rf[S.draw(4)]; }
		int no = (int)S.draw(wide ? 40 : 6);
		for (int i = 0; i < no; i++) {
			static const char* q[] = { "px", "py", "pz", "vx", "vy", "vz", "fx", "fy", "fz", "ten", "ax", "ay", "az" };
			int kind = (int)S.draw(7);
			int li = (int)S.draw((uint32_t)m.lines.size());
			if (kind == 0) m.outs.push_back(fmt("FairTen%d", 1 + li));
			else if (kind == 1) m.outs.push_back(fmt("AnchTen%d", 1 + li));
			else if (kind == 2) m.outs.push_back(fmt("Point%d%s", 1 + (int)S.draw((uint32_t)m.points.size()), q[S.draw(13)]));
			else if (kind == 3) m.outs.push_back(fmt("L%dN%d%s", 1 + li, (int)S.draw((uint32_t)m.lines[li].n + 1), q[S.draw(10)]));
			else if (kind == 4) m.outs.push_back(S.chance(1, 2) ? fmt("L%dN%c%s", 1 + li, S.chance(1, 2) ? 'B' : 'A', q[S.draw(9)]) : fmt("L%dten%c", 1 + li, S.chance(1, 2) ? 'b' : 'a'));
			else if (kind == 5 && !m.bodies.empty()) {
				static const char* qb[] = { "px", "py", "pz", "vx", "vy", "vz", "fx", "fy", "fz", "mx", "my", "mz", "rx", "ry", "rz", "rvx", "rvy", "rvz", "ax", "ay", "az", "rax", "ray", "raz" };
				m.outs.push_back(fmt("Body%d%s", 1 + (int)S.draw((uint32_t)m.bodies.size()), qb[S.draw(24)]));
			} else if (!m.rods.empty()) {
				int ri = (int)S.draw((uint32_t)m.rods.size());
				static const char* qr[] = { "px", "py", "pz", "fx", "fy", "fz", "mx", "my", "mz", "sub", "tena", "tenb", "vx", "vy", "vz", "ax", "ay", "az", "rx", "ry", "rvx", "rvy", "rax", "ray" };
				const int how = (int)S.draw(5);
				m.outs.push_back(how < 2 ? fmt("Rod%dN%d%s", 1 + ri, (int)S.draw((uint32_t)m.rods[ri].n + 1), q[S.draw(9)]) : how == 2 ? fmt("Rod%dN%c%s", 1 + ri, S.chance(1, 2) ? 'B' : 'A', q[S.draw(9)]) : fmt("Rod%d%s", 1 + ri, qr[S.draw(24)]));
			}
		}
	} else for (auto& r : m.rods) r.flags = "-";
	if (o.logfile && S.chance(1, 4)) m.writeLog = S.range(1, 3);

	// ============================================================ the file
	auto& T = m.sections;
	T.push_back("--------------------- MoorDyn Input File ----------------------------");
	T.push_back("simulated model");
	T.push_back("---------------------- LINE TYPES -----------------------------------");
	T.push_back("TypeName Diam Mass/m EA BA/-zeta EI Cd Ca CdAx CaAx");
	T.push_back("(name) (m) (kg/m) (N) (N-s/-) (N-m^2) (-) (-) (-) (-)");
	for (size_t i = 0; i < m.lt.size(); i++) {
		auto& t = m.lt[i];
		std::string ea = num(t.EA);
		if (t.eatab) {
			ea = fmt("ea%d.txt", (int)i);
			std::string c = "----curve----\nStrain Tension\n(-) (N)";
			for (auto& p : t.ea) c += "\n" + num(p.first) + " " + num(p.second);
			m.files[m.dir + ea] = c;
		}
		T.push_back(fmt("type%d %s %s %s %s %s %s %s %s %s", (int)i, num(t.d).c_str(), num(t.w).c_str(), ea.c_str(), num(t.BA).c_str(),
			num(t.EI).c_str(), num(t.Cd).c_str(), num(t.Ca).c_str(), num(t.CdAx).c_str(), num(t.CaAx).c_str()));
	}
	if (!m.rt.empty()) {
		T.push_back("---------------------- ROD TYPES ------------------------------------");
		T.push_back("TypeName Diam Mass/m Cd Ca CdEnd CaEnd");
		T.push_back("(name) (m) (kg/m) (-) (-) (-) (-)");
		for (size_t i = 0; i < m.rt.size(); i++) {
			auto& t = m.rt[i];
			T.push_back(fmt("rod%d %s %s %s %s %s %s", (int)i, num(t.d).c_str(), num(t.w).c_str(), num(t.Cd).c_str(), num(t.Ca).c_str(), num(t.CdEnd).c_str(), num(t.CaEnd).c_str()));
		}
	}
	if (!m.bodies.empty()) {
		T.push_back("---------------------- BODIES ---------------------------------------");
		T.push_back("ID Attachment X0 Y0 Z0 r0 p0 y0 Mass CG* I* Volume CdA* Ca*");
		T.push_back("(#) (word) (m) (m) (m) (deg) (deg) (deg) (kg) (m) (kg-m^2) (m^3) (m^2) (-)");
		for (size_t i = 0; i < m.bodies.size(); i++) {
			auto& b = m.bodies[i];
			const char* ty[] = { "Fixed", "Free", "Coupled", "CoupledPinned" };
			int cgm = (int)S.draw(3);
			const char* cg = cgm == 0 ? "0" : cgm == 1 ? "-0.5" : "0.2|-0.1|-0.4";
			const char* in = cgm == 0 ? "4e4" : cgm == 1 ? "3e4|5e4|4e4" : "6e4";
			int cdm = (int)S.draw(5);
			const char* cd = cdm == 0 ? "5" : cdm == 1 ? "4|300" : cdm == 2 ? "0" : cdm == 3 ? "6|4|9" : "3|5|7|200|300|100";
			const char* ca = cdm == 1 ? "0.5|0.7|0.9" : "0.8";
			auto& mb = m.bodies[i];
			mb.cg = cgm == 0 ? Vec3{ 0, 0, 0 } : cgm == 1 ? Vec3{ 0, 0, -0.5 } : Vec3{ 0.2, -0.1, -0.4 };
			mb.I = cgm == 0 ? Vec3{ 4e4, 4e4, 4e4 } : cgm == 1 ? Vec3{ 3e4, 5e4, 4e4 } : Vec3{ 6e4, 6e4, 6e4 };
			mb.ca = cdm == 1 ? Vec3{ 0.5, 0.7, 0.9 } : Vec3{ 0.8, 0.8, 0.8 };
			if (cdm == 0) mb.cdt = mb.cdr = { 5, 5, 5 };
			if (cdm == 1) { mb.cdt = { 4, 4, 4 }; mb.cdr = { 300, 300, 300 }; }
			if (cdm == 3) mb.cdt = mb.cdr = { 6, 4, 9 };
			if (cdm == 4) { mb.cdt = { 3, 5, 7 }; mb.cdr = { 200, 300, 100 }; }
			if (o.damped) { cd = "100|20000"; mb.cdt = { 100, 100, 100 }; mb.cdr = { 2e4, 2e4, 2e4 }; }
			T.push_back(fmt("%d %s %s %s %s %s %s %s %s %s %s %s %s %s", (int)i + 1, ty[b.type], num(b.p.x).c_str(), num(b.p.y).c_str(), num(b.p.z).c_str(),
				num(b.ang.x).c_str(), num(b.ang.y).c_str(), num(b.ang.z).c_str(), num(b.mass).c_str(), cg, in, num(b.vol).c_str(), cd, ca));
		}
	}
	if (!m.rods.empty()) {
		T.push_back("---------------------- RODS ----------------------------------------");
		T.push_back("ID RodType Attachment Xa Ya Za Xb Yb Zb NumSegs RodOutputs");
		T.push_back("(#) (name) (word/ID) (m) (m) (m) (m) (m) (m) (-) (-)");
		for (size_t i = 0; i < m.rods.size(); i++) {
			auto& r = m.rods[i];
			std::string ty;
			switch (r.type) {
				case R_FIXED: ty = "Fixed"; break;
				case R_PINNED: ty = "Pinned"; break;
				case R_FREE: ty = "Free"; break;
				case R_CPL: ty = "Coupled"; break;
				case R_CPLPIN: ty = "CoupledPinned"; break;
				case R_BODY: ty = fmt("Body%d", r.body + 1); break;
				case R_BODYPIN: ty = fmt("Body%dPinned", r.body + 1); break;
			}
			T.push_back(fmt("%d rod%d %s %s %s %s %s %s %s %d %s", (int)i + 1, r.rtype, ty.c_str(), num(r.a.x).c_str(), num(r.a.y).c_str(), num(r.a.z).c_str(),
				num(r.b.x).c_str(), num(r.b.y).c_str(), num(r.b.z).c_str(), r.n, r.flags.c_str()));
		}
	}
	T.push_back("---------------------- POINTS ---------------------------------------");
	T.push_back("ID Attachment X Y Z M V CdA CA");
	T.push_back("(-) (-) (m) (m) (m) (kg) (m^3) (m^2) (-)");
	for (size_t i = 0; i < m.points.size(); i++) {
		auto& p = m.points[i];
		std::string ty = p.type == P_FIXED ? "Fixed" : p.type == P_CPL ? "Coupled" : p.type == P_FREE ? "Free" : fmt("Body%d", p.body + 1);
		T.push_back(fmt("%d %s %s %s %s %s %s %s %s", (int)i + 1, ty.c_str(), num(p.p.x).c_str(), num(p.p.y).c_str(), num(p.p.z).c_str(), num(p.mass).c_str(),
			num(p.vol).c_str(), num(p.cda).c_str(), num(p.ca).c_str()));
	}
	T.push_back("---------------------- LINES ----------------------------------------");
	T.push_back("ID LineType AttachA AttachB UnstrLen NumSegs Outputs");
	T.push_back("(#) (name) (#) (#) (m) (-) (-)");
	auto en = [](const MEnd& e) { return e.rod ? fmt("R%d%c", e.idx + 1, e.end ? 'B' : 'A') : fmt("%d", e.idx + 1); };
	for (size_t i = 0; i < m.lines.size(); i++) {
		auto& l = m.lines[i];
		T.push_back(fmt("%d type%d %s %s %s %d %s", (int)i + 1, l.ltype, en(l.a).c_str(), en(l.b).c_str(), num(l.len).c_str(), l.n, l.flags.c_str()));
	}
	T.push_back("---------------------- OPTIONS --------------------------------------");
	if (m.writeLog) T.push_back(fmt("%d writeLog", m.writeLog));
	if (m.dtM > 0) T.push_back(num(m.dtM) + " dtM");
	if (m.cfl > 0) T.push_back(num(m.cfl) + " CFL");
	T.push_back(m.scheme + " tScheme");
	T.push_back(num(m.kb) + " kBot");
	T.push_back(num(m.cb) + " cBot");
	T.push_back(num(m.depth) + " WtrDpth");
	if (m.g != 9.80665) { T.push_back(num(m.g) + " g"); T.push_back(num(m.rho) + " WtrDnsty"); }
	if (!m.noic) {
		T.push_back(num(S.rreal(0.1, 0.3, 0.05)) + " dtIC");
		T.push_back(num(S.rreal(0.4, 1.5, 0.1)) + " TmaxIC");
		T.push_back("4.0 CdScaleIC");
		T.push_back("0.01 threshIC");
		if (m.legacy_ic) T.push_back("1 ICgenDynamic");
	}
	if (m.waveKin) T.push_back(fmt("%d WaveKin", m.waveKin));
	if (m.waveKin == 3) T.push_back("0.5 dtWave");
	if (m.currents) {
		T.push_back(fmt("%d Currents", m.currents));
		if (S.chance(1, 2)) { m.unify = false; T.push_back("0 UnifyCurrentGrid"); }
	}
	if (m.fric > 0) {
		T.push_back(num(m.fric) + " FrictionCoefficient");
		T.push_back(num(m.fricDamp) + " FricDamp");
		T.push_back(num(m.statDyn) + " StatDynFricScale");
	}
	if (m.seafloor3d) T.push_back(m.dir + "bathy.txt SeafloorFile");
	if (m.dtOut > 0) T.push_back(num(m.dtOut) + " dtOut");
	if (!m.writeUnits) T.push_back("0 WriteUnits");
	T.push_back("---------------------- OUTPUTS --------------------------------------");
	for (auto& c : m.outs) T.push_back(c);
	T.push_back("------------------------- need this line ----------------------------");
	std::string txt;
	for (auto& l : T) txt += l + "\n";
	m.files[m.file] = txt;

	// ------------------------------------------------------------ auxiliary files
	if (m.waveKin == 2 || m.waveKin == 7) {
		std::string s;
		int n = S.range(3, 6);
		double dw = o.short_waves ? S.rreal(0.8, 1.5, 0.01) : S.rreal(0.2, 0.5, 0.01), w = 0;
		const bool even = m.waveKin == 2 || S.chance(1, 2);
		for (int i = 0; i < n; i++) {
			double a = i == 0 ? 0 : S.rreal(-0.4, 0.4, 0.01), b = i == 0 ? 0 : S.rreal(-0.4, 0.4, 0.01);
			double be = S.rreal(-3, 3, 0.1);
			if (w > 1.5) { a *= 0.1; b *= 0.1; } // short waves
			a = atof(num(a).c_str()); b = atof(num(b).c_str());
			if (even) w = i * dw;
			s += num(w) + " " + num(a) + " " + num(b) + " " + num(be) + "\n";
			m.spec.push_back({ w, a, b, be });
			if (!even) w = atof(num(w + (S.chance(1, 5) ? S.rreal(1, 2, 0.1) : S.rreal(0.1, 0.5, 0.01))).c_str());
		}
		m.files[m.dir + "wave_frequencies.txt"] = s;
	}
	if (m.waveKin == 2 || m.waveKin == 3) {
		// axes given as a list, as first, last and number, or as a single point
		std::string txt = "grid\ngrid\ngrid\n";
		auto axis = [&](std::vector<double>& g, double lo, double hi, int least, int most, bool single) {
			const int n = S.range(least, most);
			if (single) { g = { 0 }; txt += "0\n0\n"; return; }
			if (S.chance(1, 3)) {
				for (int i = 0; i < n; i++) g.push_back(i == n - 1 ? hi : lo + i * ((hi - lo) / (n - 1)));
				txt += "2\n" + num(lo) + " " + num(hi) + " " + fmt("%d", n) + "\n";
				return;
			}
			txt += "1\n";
			for (int i = 0; i < n; i++) {
				double v = lo + i * (hi - lo) / (n - 1);
				if (i > 0 && i < n - 1) v += S.rreal(-0.3, 0.3, 0.01) * (hi - lo) / (n - 1);
				g.push_back(atof(num(v).c_str()));
				txt += (i ? " " : "") + num(v);
			}
			txt += "\n";
		};
		axis(m.gx, -60 + S.range(-20, 25), 60 + S.range(-25, 20), 2, 5, S.chance(1, 12));
		axis(m.gy, -60 + S.range(-20, 25), 60 + S.range(-25, 20), 2, 4, S.chance(1, 8));
		axis(m.gz, -m.depth, o.short_waves && S.chance(1, 2) ? S.range(1, 6) : 0, 3, 6, false);
		m.files[m.dir + "water_grid.txt"] = txt;
	}
	if (m.waveKin == 3) {
		std::string s;
		double A = S.rreal(0.1, 0.8, 0.01), w = S.rreal(0.5, 1.2, 0.01);
		double A2 = S.chance(1, 2) ? S.rreal(0.1, 0.4, 0.01) : 0, w2 = S.rreal(1.2, 2.5, 0.01);
		const int how = (int)S.draw(3), N = o.short_waves ? S.range(8, 20) : S.range(40, 70); // sampled as used, finer, or irregularly
		for (double t = 0; t <= 0.5 * N; ) {
			m.elev.push_back({ t, atof(num(A * sin(w * t) + A2 * sin(w2 * t)).c_str()) });
			s += num(t) + " " + num(m.elev.back().second) + "\n";
			if (t >= 0.5 * N) break;
			t = std::min(0.5 * N, t + (how == 0 ? 0.5 : how == 1 ? 0.25 : 0.125 * S.range(1, 4)));
		}
		m.files[m.dir + "wave_elevation.txt"] = s;
	}
	if (m.currents == 1) {
		std::string s = "currents\ncurrents\ncurrents\n";
		int n = S.range(2, 4), cols = S.chance(1, 4) ? 2 + (int)S.draw(2) : 4;
		m.cx = m.cy = m.ct = { 0 };
		for (int i = 0; i < n; i++) {
			Vec3 u = { S.rreal(-1, 1, 0.01), cols > 2 ? S.rreal(-1, 1, 0.01) : 0, cols > 3 && S.chance(1, 3) ? S.rreal(-0.2, 0.2, 0.01) : 0 };
			double z = -m.depth + (m.depth + 5) * i / (n - 1);
			m.cz.push_back(atof(num(z).c_str())); m.cu.push_back(u);
			s += num(z) + " " + num(u.x) + (cols > 2 ? " " + num(u.y) : "") + (cols > 3 ? " " + num(u.z) : "") + "\n";
		}
		m.files[m.dir + "current_profile.txt"] = s;
	}
	if (m.currents == 2) {
		std::string s = "currents\ncurrents\n2\n3\n";
		int n = S.range(2, 3), nt = S.range(2, 4), cols = 1 + (int)S.draw(3);
		m.cx = m.cy = { 0 };
		for (int i = 0; i < n; i++) { m.cz.push_back(std::floor(-m.depth + (m.depth + 5) * i / (n - 1))); s += num(m.cz.back()) + " "; }
		s += "\n(m/s)\n";
		m.cu.assign(n * nt, Vec3{});
		double tt = 0;
		for (int j = 0; j < nt; j++) {
			m.ct.push_back(tt);
			s += num(tt);
			tt += S.chance(1, 3) ? 4 : 2;
			for (int c = 0; c < cols; c++)
				for (int i = 0; i < n; i++) {
					double v = S.rreal(-0.8, 0.8, 0.01) * (c == 2 ? 0.2 : 1);
					(c == 0 ? m.cu[i * nt + j].x : c == 1 ? m.cu[i * nt + j].y : m.cu[i * nt + j].z) = atof(num(v).c_str());
					s += " " + num(v);
				}
			s += "\n";
		}
		m.files[m.dir + "current_profile_dynamic.txt"] = s;
	}
	if (m.currents == 5) {
		m.cx = { -60., 60. }; m.cy = { -60. + S.range(-20, 25), 60. + S.range(-25, 20) }; m.cz = { -m.depth, 5 }; m.ct = { 0, 8 };
		if (S.chance(1, 2)) { m.cx = { -60. + S.range(-20, 25), S.rreal(-10, 10, 1), 60 }; m.ct = { 0, 4, 8 }; }
		auto axis = [&](const std::vector<double>& v) { std::string q; for (double x : v) q += (q.empty() ? "" : " ") + num(x); return q + "\n"; };
		std::string s = fmt("%d %d %d %d\n", (int)m.cx.size(), (int)m.cy.size(), (int)m.cz.size(), (int)m.ct.size()) + axis(m.cx) + axis(m.cy) + axis(m.cz) + axis(m.ct);
		for (double x : m.cx) for (double y : m.cy) for (double z : m.cz) for (double tt : m.ct) {
			Vec3 u = { S.rreal(-0.8, 0.8, 0.01), S.rreal(-0.8, 0.8, 0.01), S.chance(1, 4) ? S.rreal(-0.1, 0.1, 0.01) : 0 };
			m.cu.push_back(u);
			s += num(x) + " " + num(y) + " " + num(z) + " " + num(tt) + " " + num(u.x) + " " + num(u.y) + " " + num(u.z) + "\n";
		}
		m.files[m.dir + "current_profile_4d.txt"] = s;
	}
	if (m.seafloor3d) {
		// (read in single precision: only values that have one)
		auto axis = [&](std::vector<double>& g) {
			const int n = S.range(2, 4), lo = -60 + S.range(-20, 25), hi = 60 + S.range(-25, 20);
			std::string t;
			for (int i = 0; i < n; i++) {
				double v = lo + i * (hi - lo) / (n - 1.0);
				if (i > 0 && i < n - 1) v += S.range(-40, 40) / 4.0;
				g.push_back(std::round(v * 4) / 4);
				t += (i ? " " : "") + num(g.back());
			}
			return t + "\n";
		};
		const std::string tx = axis(m.bx), ty = axis(m.by);
		std::string s = fmt("%d %d\n", (int)m.bx.size(), (int)m.by.size()) + tx + ty;
		std::vector<std::string> rows;
		for (double x : m.bx) for (double y : m.by) {
			m.bz.push_back(std::round(-(m.depth + S.rreal(-3, 5, 0.1)) * 8) / 8);
			rows.push_back(num(x) + " " + num(y) + " " + num(m.bz.back()) + "\n");
		}
		if (S.chance(1, 2)) for (size_t i = rows.size(); i > 1; i--) std::swap(rows[i - 1], rows[S.draw((uint32_t)i)]);
		for (auto& r : rows) s += r;
		m.files[m.dir + "bathy.txt"] = s;
	}
	// ------------------------------------------------------------ coupled degrees of freedom, in host order
	auto add = [&](int obj, int dir, double v) { m.x0.push_back(v); m.dof_obj.push_back(obj); m.dof_dir.push_back(dir); };
	for (size_t i = 0; i < m.bodies.size(); i++) {
		auto& b = m.bodies[i];
		if (b.type != B_CPL && b.type != B_CPLPIN) continue;
		add((int)i, 0, b.p.x); add((int)i, 1, b.p.y); add((int)i, 2, b.p.z);
		{ add((int)i, 3, b.ang.x * DEG); add((int)i, 4, b.ang.y * DEG); add((int)i, 5, b.ang.z * DEG); }
	}
	for (size_t i = 0; i < m.rods.size(); i++) {
		auto& r = m.rods[i];
		if (r.type != R_CPL && r.type != R_CPLPIN) continue;
		add(1000 + (int)i, 0, r.a.x); add(1000 + (int)i, 1, r.a.y); add(1000 + (int)i, 2, r.a.z);
		if (r.type == R_CPL) for (int k2 = 3; k2 < 6; k2++) add(1000 + (int)i, k2, 0.0);
	}
	for (size_t i = 0; i < m.points.size(); i++) {
		auto& p = m.points[i];
		if (p.type != P_CPL) continue;
		add(2000 + (int)i, 0, p.p.x); add(2000 + (int)i, 1, p.p.y); add(2000 + (int)i, 2, p.p.z);
	}
	sum << m.scheme << " wk" << m.waveKin << " cur" << m.currents << (m.seafloor3d ? " bathy" : "") << (m.fric > 0 ? " fric" : "") << " ic"
	    << (m.noic ? 0 : m.legacy_ic ? 2 : 1) << " dt" << dtmode << " B[";
	for (auto& b : m.bodies) sum << b.type;
	sum << "] R[";
	for (auto& r : m.rods) sum << r.type;
	sum << "] P[";
	for (auto& p : m.points) sum << p.type;
	sum << "] L[";
	for (auto& l : m.lines) sum << en(l.a) << "-" << en(l.b) << "/" << l.n << (m.lt[l.ltype].eatab ? "t" : "") << (m.lt[l.ltype].EI > 0 ? "b" : "") << (m.lt[l.ltype].BA > 0 ? "c" : "") << " ";
	sum << "]";
	m.summary = sum.str();
	return m;
}

void Motion::at(double t, std::vector<double>& x, std::vector<double>& xd) const
{
	x.assign(x0.size() + 64, 0.0);
	xd.assign(x0.size() + 64, 0.0);
	for (size_t i = 0; i < x0.size(); i++) {
		x[i] = x0[i];
		if (still) continue;
		x[i] += amp[i] * (sin(om[i] * t + ph[i]) - sin(ph[i]));
		xd[i] = amp[i] * om[i] * cos(om[i] * t + ph[i]);
	}
}
Motion make_motion(Sim& S, const Model& m, double scale)
{
	Motion q;
	q.x0 = m.x0;
	for (size_t i = 0; i < m.x0.size(); i++) {
		bool rot = m.dof_dir[i] >= 3;
		q.amp.push_back(S.chance(3, 4) ? scale * S.real(0.02, rot ? 0.15 : 1.0) : 0.0);
		q.om.push_back(S.real(0.3, 2.5));
		q.ph.push_back(S.real(0, 6.28));
	}
	return q;
}
