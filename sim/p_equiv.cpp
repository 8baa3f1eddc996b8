// C24 equivalent descriptions of the same system; C25 the same system elsewhere
#include "plan.hpp"
#include <algorithm>
#include <sstream>

namespace {
const double DEG = 3.14159265358979323846 / 180.0;
typedef std::vector<std::string> Row;
struct Sec { std::string name, head; std::vector<std::string> titles; std::vector<Row> rows; };
struct Doc {
	std::vector<std::string> front;
	std::vector<Sec> secs;
	Sec* get(const std::string& n) { for (auto& s : secs) if (s.name == n) return &s; return nullptr; }
};
Row words(const std::string& s)
{
	Row r; std::istringstream i(s); std::string w;
	while (i >> w) r.push_back(w);
	return r;
}
Doc parse(const Model& m)
{
	Doc d;
	size_t i = 0;
	for (; i < 2; i++) d.front.push_back(m.sections[i]);
	for (; i < m.sections.size(); i++) {
		if (m.sections[i].find("---") != std::string::npos) {
			Sec s;
			s.head = m.sections[i];
			std::string n = s.head;
			n.erase(std::remove(n.begin(), n.end(), '-'), n.end());
			size_t a = n.find_first_not_of(' '), b = n.find_last_not_of(' ');
			s.name = n.substr(a, b - a + 1);
			if (s.name != "OPTIONS" && s.name != "OUTPUTS" && s.name != "need this line") { s.titles = { m.sections[i + 1], m.sections[i + 2] }; i += 2; }
			d.secs.push_back(s);
		} else d.secs.back().rows.push_back(words(m.sections[i]));
	}
	return d;
}
template<class F> std::string text(const Doc& d, F space)
{
	std::string t;
	for (auto& l : d.front) t += l + "\n";
	for (auto& s : d.secs) {
		t += s.head + "\n";
		for (auto& l : s.titles) t += l + "\n";
		for (auto& r : s.rows) {
			for (size_t i = 0; i < r.size(); i++) t += (i ? space() : std::string()) + r[i];
			t += "\n";
		}
	}
	return t;
}
std::string plain(const Doc& d) { return text(d, [] { return std::string(" "); }); }
std::string cased(Sim& S, std::string w)
{
	int k = (int)S.draw(4);
	for (size_t i = 0; i < w.size(); i++) {
		if (k == 1) w[i] = (char)toupper(w[i]);
		if (k == 2) w[i] = (char)tolower(w[i]);
		if (k == 3) w[i] = (char)(S.chance(1, 2) ? toupper(w[i]) : tolower(w[i]));
	}
	return w;
}
bool is_number(const std::string& w) { char* e; strtod(w.c_str(), &e); return !w.empty() && *e == 0; }
std::string respell(Sim& S, const std::string& w)
{
	if (!is_number(w)) return w;
	double v = strtod(w.c_str(), nullptr);
	switch (S.draw(7)) {
		case 1: return fmt("%.16e", v);
		case 2: return fmt("%.17g", v);
		case 3: return w.find_first_of(".eE") == std::string::npos ? w + ".0" : w;
		case 4: return w.find_first_of("eE") == std::string::npos ? w + (w.find('.') == std::string::npos ? ".000" : "000") : w;
		case 5: return fmt("%.16E", v);
		case 6: return v >= 0 && w[0] != '-' ? "0" + w : w;
	}
	return w;
}
std::string attachment(Sim& S, const std::string& w, int kind) // 0 body, 1 rod, 2 point
{
	std::vector<std::string> o;
	if (w == "Fixed") o = { "Fixed", "Anchor", "Fix" };
	else if (w == "Coupled") { o = { "Coupled", "Vessel", "Ves", "Cpld" }; if (kind == 2) o.push_back("Fairlead"); }
	else if (w == "CoupledPinned") o = { "CoupledPinned", "VesselPinned", "VesPin", "CpldPin" };
	else if (w == "Pinned") o = { "Pinned", "Pin" };
	else if (w == "Free") { o = { "Free" }; if (kind == 1) { o.push_back("Point"); o.push_back("Con"); } if (kind == 2) { o.push_back("Point"); o.push_back("Con"); o.push_back("Connect"); } }
	else if (w.rfind("Body", 0) == 0) {
		o = { w };
		size_t p = w.find("Pinned");
		if (p != std::string::npos) o.push_back(w.substr(0, p) + "Pin");
	} else o = { w };
	return cased(S, S.pick(o));
}
template<class T> void shuffle(Sim& S, std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[S.draw((uint32_t)i)]); }
std::vector<std::string> bars(const std::string& w)
{
	std::vector<std::string> r(1);
	for (char c : w) { if (c == '|') r.emplace_back(); else r.back() += c; }
	return r;
}
std::string barred(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : "|") + x; return r; }

// Another way to write down exactly the same
Doc rewrite(Sim& S, Doc d, std::string& what)
{
	auto flag = [&](const char* n, unsigned num = 1, unsigned den = 2) { bool b = S.chance(num, den); if (b) { what += std::string(n) + " "; S.fault(std::string("rewritten: ") + n); } return b; };
	if (flag("front")) {
		int n = S.range(1, 4);
		static const char* fl[] = { "a comment", "1 2 3", "", "Echo  false", "written by hand" };
		for (int i = 0; i < n; i++) d.front.push_back(fl[S.draw(5)]);
	}
	if (flag("headers")) {
		static const std::map<std::string, std::vector<std::string>> al = {
			{ "LINE TYPES", { "LINE TYPES", "LINE DICTIONARY" } }, { "ROD TYPES", { "ROD TYPES", "ROD DICTIONARY" } }, { "BODIES", { "BODIES", "BODY LIST", "BODY PROPERTIES" } },
			{ "RODS", { "RODS", "ROD LIST", "ROD PROPERTIES" } }, { "POINTS", { "POINTS", "POINT LIST", "POINT PROPERTIES", "CONNECTION PROPERTIES", "NODE PROPERTIES" } }, { "LINES", { "LINES", "LINE LIST", "LINE PROPERTIES" } } };
		for (auto& s : d.secs) {
			auto it = al.find(s.name);
			if (it != al.end()) s.head = std::string(3 + S.draw(20), '-') + " " + S.pick(it->second) + " " + std::string(3 + S.draw(20), '-');
			for (auto& t : s.titles) if (S.chance(1, 3)) t = S.chance(1, 2) ? "whatever" : "";
		}
	}
	if (flag("options order")) shuffle(S, d.get("OPTIONS")->rows);
	if (flag("option names")) {
		static const std::vector<std::vector<std::string>> al = { { "g", "gravity" }, { "Rho", "rho", "WtrDnsty" }, { "kBot", "kbot", "kb" }, { "cBot", "cbot", "cb" }, { "dtIC", "ICdt" }, { "TmaxIC", "ICTmax" },
			{ "CdScaleIC", "ICDfac" }, { "threshIC", "ICthresh" }, { "dtM", "DT" }, { "CFL", "cfl" } };
		for (auto& r : d.get("OPTIONS")->rows) for (auto& a : al) if (std::find(a.begin(), a.end(), r[1]) != a.end()) { r[1] = S.pick(a); break; }
	}
	if (flag("option comments")) for (auto& r : d.get("OPTIONS")->rows) if (S.chance(1, 2)) { r.push_back("-"); r.push_back("the"); r.push_back(S.chance(1, 2) ? "dtM" : "value"); r.push_back("(m)"); if (S.chance(1, 4)) for (int w = S.range(1, 40); w > 0; w--) r.push_back(S.chance(1, 6) ? std::string(1 + S.draw(60), 'x') : "word"); }
	if (flag("option blanks", 1, 3)) { auto& r = d.get("OPTIONS")->rows; r.insert(r.begin() + S.draw((uint32_t)r.size() + 1), S.chance(1, 2) ? Row{} : Row{ "(nothing)" }); }
	if (flag("default options", 1, 3)) {
		auto& R = d.get("OPTIONS")->rows;
		auto has = [&](std::vector<std::string> n) { for (auto& r : R) if (r.size() > 1 && std::find(n.begin(), n.end(), r[1]) != n.end()) return true; return false; };
		auto give = [&](Row r) { R.insert(R.begin() + S.draw((uint32_t)R.size() + 1), r); };
		if (!has({ "g", "gravity" }) && S.chance(1, 2)) give({ "9.80665", "g" });
		if (!has({ "Rho", "rho", "WtrDnsty" }) && S.chance(1, 2)) give({ "1025.0", "rho" });
		if (!has({ "WaveKin" }) && S.chance(1, 2)) give({ "0", "WaveKin" });
		if (!has({ "Currents" }) && S.chance(1, 2)) give({ "0", "Currents" });
		if (!has({ "FrictionCoefficient" }) && S.chance(1, 2)) { give({ "0.0", "FrictionCoefficient" }); give({ "200.0", "FricDamp" }); give({ "1.0", "StatDynFricScale" }); }
		if (!has({ "dtOut" }) && S.chance(1, 2)) give({ "0", "dtOut" });
		if (!has({ "WriteUnits" }) && S.chance(1, 2)) give({ "1", "WriteUnits" });
		if (!has({ "ICgenDynamic" }) && S.chance(1, 2)) give({ "0", "ICgenDynamic" });
		if (!has({ "writeLog" }) && S.chance(1, 2)) give({ "0", "writeLog" });
	}
	for (int k = 0; k < 2; k++) {
		Sec* s = d.get(k ? "ROD TYPES" : "LINE TYPES");
		if (!s) continue;
		Sec* u = d.get(k ? "RODS" : "LINES");
		if (flag("types order")) shuffle(S, s->rows);
		if (flag("types unused", 1, 4)) { Row r = s->rows[0]; r[0] = k ? "rodX" : "typeX"; r[1] = "1.5"; r[2] = "7000"; s->rows.insert(s->rows.begin() + S.draw((uint32_t)s->rows.size() + 1), r); }
		if (flag("types names")) {
			std::map<std::string, std::string> nn;
			int i = 0;
			static const char* nm[] = { "Chain", "polyester", "type1", "A-1", "main_line" };
			int off = (int)S.draw(5);
			for (auto& r : s->rows) { nn[r[0]] = nm[(i++ + off) % 5]; r[0] = nn[r[0]]; }
			for (auto& r : u->rows) if (nn.count(r[1])) r[1] = nn[r[1]];
		}
	}
	if (flag("attachments")) {
		if (Sec* s = d.get("BODIES")) for (auto& r : s->rows) r[1] = attachment(S, r[1], 0);
		if (Sec* s = d.get("RODS")) for (auto& r : s->rows) r[2] = attachment(S, r[2], 1);
		for (auto& r : d.get("POINTS")->rows) r[1] = attachment(S, r[1], 2);
	}
	if (flag("line ends")) for (auto& r : d.get("LINES")->rows) for (int e = 2; e <= 3; e++) {
		if (isdigit(r[e][0])) { static const char* al[] = { "", "P", "Point", "Con", "C" }; r[e] = cased(S, al[S.draw(5)]) + r[e]; }
		else r[e] = cased(S, S.chance(1, 2) ? "Rod" + r[e].substr(1) : r[e]);
	}
	if (flag("body columns")) if (Sec* s = d.get("BODIES")) for (auto& r : s->rows) {
		auto cg = bars(r[9]), I = bars(r[10]), cd = bars(r[12]), ca = bars(r[13]);
		if (cg.size() == 1 && S.chance(1, 2)) cg = { "0", "0", cg[0] };
		if (I.size() == 1 && S.chance(1, 2)) I = { I[0], I[0], I[0] };
		if (ca.size() == 1 && S.chance(1, 2)) ca = { ca[0], ca[0], ca[0] };
		if (cd.size() == 1) { int k = (int)S.draw(4); if (k == 1) cd = { cd[0], cd[0] }; if (k == 2) cd = { cd[0], cd[0], cd[0] }; if (k == 3) cd = std::vector<std::string>(6, cd[0]); }
		else if (cd.size() == 2 && S.chance(1, 2)) cd = { cd[0], cd[0], cd[0], cd[1], cd[1], cd[1] };
		else if (cd.size() == 3 && S.chance(1, 2)) cd = { cd[0], cd[1], cd[2], cd[0], cd[1], cd[2] };
		r[9] = barred(cg); r[10] = barred(I); r[12] = barred(cd); r[13] = barred(ca);
	}
	if (flag("numbers")) {
		for (auto& s : d.secs) for (auto& r : s.rows) {
			if (s.name == "OPTIONS") { static const std::vector<std::string> in = { "WaveKin", "Currents", "writeLog", "WriteUnits", "ICgenDynamic", "UnifyCurrentGrid" }; if (r.size() > 1 && std::find(in.begin(), in.end(), r[1]) == in.end()) r[0] = respell(S, r[0]); }
			if (s.name == "LINE TYPES" || s.name == "ROD TYPES") for (size_t i = 1; i < r.size(); i++) r[i] = respell(S, r[i]);
			if (s.name == "BODIES") for (size_t i = 2; i < r.size(); i++) { auto b = bars(r[i]); for (auto& x : b) x = respell(S, x); r[i] = barred(b); }
			if (s.name == "RODS") for (size_t i = 3; i < 9; i++) r[i] = respell(S, r[i]);
			if (s.name == "POINTS") for (size_t i = 2; i < r.size(); i++) r[i] = respell(S, r[i]);
			if (s.name == "LINES") r[4] = respell(S, r[4]);
		}
	}
	return d;
}

struct Run24 { std::vector<Obs> obs; std::vector<std::vector<uint64_t>> ser; FsImage files; };
Run24 run24(Sim& S, const Model& m, const Motion& q, const Plan& p, const std::vector<int>& back, bool labels, bool first)
{
	Run24 R;
	fs().img.clear();
	m.install();
	Sys s;
	if (!s.create(m)) { if (first) throw Discard{ "create failed" }; throw Violation{ "refused", "the same system described in another way is refused" }; }
	s.init(q);
	if (s.rc) { if (first) throw Discard{ fmt("init %d", s.rc) }; throw Violation{ "refused", fmt("the same system described in another way: Init returns %d", s.rc) }; }
	auto look = [&] {
		R.obs.emplace_back();
		R.obs.back().with_labels = labels;
		s.observe(R.obs.back());
		for (double v : R.obs.back().v) if (first && !(std::fabs(v) <= 1e9)) throw Discard{ "unstable" };
	};
	look();
	std::vector<uint64_t> st;
	double t = 0;
	for (size_t i = 0; i < p.dt.size(); i++) {
		if (i == 0 || !back[i]) { st = s.serialize(); t = s.t; }
		else if (s.deserialize(st) == 0) s.t = t;
		R.ser.push_back(s.serialize());
		command(s, p, (int)i);
		int r = s.step_x(p.x[i], p.xd[i], p.dt[i]);
		if (first && (r || !s.finite())) throw Discard{ "unstable" };
		if (r) throw Violation{ "refused", fmt("the same system described in another way: Step returns %d", r) };
		if (first) S.simtime += p.dt[i];
		look();
	}
	R.ser.push_back(s.serialize());
	s.close();
	R.files = fs().img;
	return R;
}
}

PROPERTY(C24)
{
	ModelOpts o;
	o.logfile = true;
	Model m = make_model(S, "a", o);
	S.ev("model %s", m.summary.c_str());
	S.mark(m.summary);
	Motion q = make_motion(S, m);
	int n = S.range(1, S.thorough() ? 40 : 12);
	Plan p = make_plan(S, m, q, n, 0.05, 0, true);
	std::vector<int> back;
	for (int i = 0; i < n; i++) { back.push_back(S.chance(1, 8)); if (back.back()) S.fault("rollback"); }
	Doc d = parse(m);
	if (plain(d) != m.files[m.file]) throw Discard{ "not the same text" };
	Model m2 = m;
	std::string what;
	std::string cwd;
	Doc e = rewrite(S, d, what);
	bool wide = S.chance(1, 3);
	m2.files[m2.file] = text(e, [&] { return wide ? std::string(1 + S.draw(4), ' ') : std::string(" "); });
	if (S.chance(1, 5)) { // the same file by another name
		static const std::vector<std::string> names{ "m.txt", "./m.txt", "../a/m.txt", "/sim/./a/m.txt", "/sim/b/../a/m.txt", "a/m.txt" };
		m2.named = S.pick(names);
		cwd = m2.named[0] == '/' ? "" : m2.named == "a/m.txt" ? "/sim/" : "/sim/a/";
		what += (what.empty() ? "" : ", ") + ("called " + m2.named);
	}
	S.ev("rewritten: %s", what.c_str());
	S.mark(what);
	Run24 a = run24(S, m, q, p, back, true, true);
	fs().cwd = cwd;
	Run24 b = run24(S, m2, q, p, back, false, false);
	fs().cwd.clear();
	for (size_t i = 0; i < a.obs.size(); i++) {
		trace_obs(S, a.obs[i]);
		std::string df = diff_obs(a.obs[i], b.obs[i]);
		if (!df.empty()) throw Violation{ "rewritten", fmt("after %zu steps of the same system described in another way (%s): ", i, what.c_str()) + df };
	}
	if (a.ser != b.ser) throw Violation{ "state", "the saved state of the same system described in another way (" + what + ") differs" };
	for (auto& kv : a.files) {
		if (kv.first == m.file || kv.first.find(".log") != std::string::npos) continue;
		auto it = b.files.find(kv.first);
		if (it == b.files.end()) throw Violation{ "files", "file " + kv.first + " is missing for the same system described in another way (" + what + ")" };
		if (it->second != kv.second) throw Violation{ "files", "file " + kv.first + " differs for the same system described in another way (" + what + ")" };
	}
	S.nontrivial = !what.empty();
}

// ---------------------------------------------------------------- C25 the same system numbered, placed or turned in another way
namespace {
// x -> Rz(th) M x + T, where M mirrors y
struct Move {
	double th = 0; bool mir = false; Vec3 T;
	Vec3 mirror(Vec3 v) const { return { v.x, mir ? -v.y : v.y, v.z }; }
	Vec3 vec(Vec3 v) const { v = mirror(v); return { cos(th) * v.x - sin(th) * v.y, sin(th) * v.x + cos(th) * v.y, v.z }; }
	Vec3 pos(Vec3 v) const { return vec(v) + T; }
	Vec3 pseudo(Vec3 v) const { return mir ? -1.0 * vec(v) : vec(v); }
	// Euler angles (rad) of the moved body: R' = Rz M R M
	Vec3 euler(Vec3 a) const
	{
		if (mir) a = { -a.x, a.y, -a.z };
		if (th == 0) return a;
		Vec3 X = rot_euler(a, { 1, 0, 0 }), Y = rot_euler(a, { 0, 1, 0 }), Z = rot_euler(a, { 0, 0, 1 });
		auto rz = [&](Vec3 v) { return Vec3{ cos(th) * v.x - sin(th) * v.y, sin(th) * v.x + cos(th) * v.y, v.z }; };
		X = rz(X); Y = rz(Y); Z = rz(Z);
		return { atan2(-Z.y, Z.z), asin(std::max(-1.0, std::min(1.0, Z.x))), atan2(-Y.x, X.x) };
	}
};
struct Relabel { // new index of each object, lines that are described from the other end
	std::vector<int> b, r, p, l;
	std::vector<char> rev;
};
std::vector<int> inverse(const std::vector<int>& v) { std::vector<int> w(v.size()); for (size_t i = 0; i < v.size(); i++) w[v[i]] = (int)i; return w; }
std::vector<int> perm(Sim& S, size_t n, bool on)
{
	std::vector<int> v;
	for (size_t i = 0; i < n; i++) v.push_back((int)i);
	if (on) shuffle(S, v);
	return v;
}
std::string num17(double v) { return fmt("%.17g", v); }
// coupled degrees of freedom of each object in host order
struct Dofs { std::vector<int> at; }; // first dof by body, rod, point (-1)
void dofs(const Model& m, std::vector<int>& b, std::vector<int>& r, std::vector<int>& p)
{
	int k = 0;
	for (auto& x : m.bodies) { bool c = x.type == B_CPL || x.type == B_CPLPIN; b.push_back(c ? k : -1); if (c) k += 6; }
	for (auto& x : m.rods) { bool c = x.type == R_CPL || x.type == R_CPLPIN; r.push_back(c ? k : -1); if (c) k += x.type == R_CPL ? 6 : 3; }
	for (auto& x : m.points) { bool c = x.type == P_CPL; p.push_back(c ? k : -1); if (c) k += 3; }
}
Model transform(const Model& m, const Relabel& L, const Move& g)
{
	Model w = m;
	Doc d = parse(m);
	auto put3 = [](Row& r, int at, Vec3 v) { r[at] = num17(v.x); r[at + 1] = num17(v.y); r[at + 2] = num17(v.z); };
	auto attach = [&](const std::string& s) { // Body#...
		if (s.rfind("Body", 0)) return s;
		size_t e = 4; while (e < s.size() && isdigit(s[e])) e++;
		return fmt("Body%d", L.b[atoi(s.substr(4, e - 4).c_str()) - 1] + 1) + s.substr(e);
	};
	if (Sec* s = d.get("BODIES")) {
		std::vector<Row> o = s->rows;
		for (size_t i = 0; i < o.size(); i++) {
			Row r = o[i];
			MBody b = m.bodies[i];
			b.p = g.pos(b.p);
			b.ang = (1 / DEG) * g.euler(DEG * b.ang);
			b.cg = g.mirror(b.cg);
			r[0] = fmt("%d", L.b[i] + 1);
			put3(r, 2, b.p); put3(r, 5, b.ang);
			if (g.mir) r[9] = num17(b.cg.x) + "|" + num17(b.cg.y) + "|" + num17(b.cg.z);
			s->rows[L.b[i]] = r;
			w.bodies[L.b[i]] = b;
		}
	}
	if (Sec* s = d.get("RODS")) {
		std::vector<Row> o = s->rows;
		for (size_t i = 0; i < o.size(); i++) {
			Row r = o[i];
			MRod q = m.rods[i];
			if (q.body >= 0) { q.body = L.b[q.body]; q.a = g.mirror(q.a); q.b = g.mirror(q.b); }
			else { q.a = g.pos(q.a); q.b = g.pos(q.b); }
			r[0] = fmt("%d", L.r[i] + 1);
			r[2] = attach(r[2]);
			put3(r, 3, q.a); put3(r, 6, q.b);
			s->rows[L.r[i]] = r;
			w.rods[L.r[i]] = q;
		}
	}
	{
		Sec* s = d.get("POINTS");
		std::vector<Row> o = s->rows;
		for (size_t i = 0; i < o.size(); i++) {
			Row r = o[i];
			MPoint q = m.points[i];
			if (q.body >= 0) { q.body = L.b[q.body]; q.p = g.mirror(q.p); }
			else q.p = g.pos(q.p);
			r[0] = fmt("%d", L.p[i] + 1);
			r[1] = attach(r[1]);
			put3(r, 2, q.p);
			s->rows[L.p[i]] = r;
			w.points[L.p[i]] = q;
		}
	}
	{
		Sec* s = d.get("LINES");
		std::vector<Row> o = s->rows;
		for (size_t i = 0; i < o.size(); i++) {
			Row r = o[i];
			MLine q = m.lines[i];
			for (MEnd* e : { &q.a, &q.b }) e->idx = e->rod ? L.r[e->idx] : L.p[e->idx];
			if (L.rev[i]) std::swap(q.a, q.b);
			auto en = [](const MEnd& e) { return e.rod ? fmt("R%d%c", e.idx + 1, e.end ? 'B' : 'A') : fmt("%d", e.idx + 1); };
			r[0] = fmt("%d", L.l[i] + 1); r[2] = en(q.a); r[3] = en(q.b);
			s->rows[L.l[i]] = r;
			w.lines[L.l[i]] = q;
		}
	}
	w.files[w.file] = plain(d);
	if (m.waveKin == 7) {
		std::string t;
		for (auto& s : m.spec) t += num17(s.w) + " " + num17(s.re) + " " + num17(s.im) + " " + num17(std::remainder((g.mir ? -s.beta : s.beta) + g.th, 2 * 3.14159265358979323846)) + "\n";
		w.files[w.dir + "wave_frequencies.txt"] = t;
	}
	if (m.currents == 1) {
		std::string t = "currents\ncurrents\ncurrents\n";
		for (size_t i = 0; i < m.cz.size(); i++) { Vec3 u = g.vec(m.cu[i]); t += num17(m.cz[i]) + " " + num17(u.x) + " " + num17(u.y) + " " + num17(u.z) + "\n"; }
		w.files[w.dir + "current_profile.txt"] = t;
	}
	if (m.currents == 2) {
		std::string t = "currents\ncurrents\n2\n3\n";
		size_t nt = m.ct.size();
		for (double z : m.cz) t += num17(z) + " ";
		t += "\n(m/s)\n";
		for (size_t j = 0; j < nt; j++) {
			t += num17(m.ct[j]);
			for (int c = 0; c < 3; c++) for (size_t i = 0; i < m.cz.size(); i++) { Vec3 u = g.vec(m.cu[i * nt + j]); t += " " + num17(c == 0 ? u.x : c == 1 ? u.y : u.z); }
			t += "\n";
		}
		w.files[w.dir + "current_profile_dynamic.txt"] = t;
	}
	if (m.seafloor3d) { // only moved by whole metres
		auto axis = [&](const std::vector<double>& v, double T) { std::string t; for (double x : v) t += (t.empty() ? "" : " ") + fmt("%.9g", x + T); return t + "\n"; };
		std::string t = fmt("%d %d\n", (int)m.bx.size(), (int)m.by.size()) + axis(m.bx, g.T.x);
		if (!g.mir) {
			t += axis(m.by, g.T.y);
			for (size_t i = 0; i < m.bx.size(); i++) for (size_t j = 0; j < m.by.size(); j++) t += fmt("%.9g %.9g %.9g\n", m.bx[i] + g.T.x, m.by[j] + g.T.y, m.bz[i * m.by.size() + j]);
		} else {
			std::vector<double> y;
			for (size_t j = m.by.size(); j--;) y.push_back(-m.by[j]);
			t += axis(y, g.T.y);
			for (size_t i = 0; i < m.bx.size(); i++) for (size_t j = 0; j < m.by.size(); j++) t += fmt("%.9g %.9g %.9g\n", m.bx[i] + g.T.x, g.T.y - m.by[j], m.bz[i * m.by.size() + j]);
		}
		w.files[w.dir + "bathy.txt"] = t;
	}
	return w;
}
// host data of the transformed system
void host(const Model& m, const Model& w, const Relabel& L, const Move& g, const std::vector<double>& x, const std::vector<double>& v, std::vector<double>& X, std::vector<double>& V)
{
	std::vector<int> b, r, p, B, R, P;
	dofs(m, b, r, p); dofs(w, B, R, P);
	X.assign(x.size(), 0.0); V.assign(v.size(), 0.0);
	auto put = [&](int from, int to, bool rot) {
		Vec3 c = g.pos({ x[from], x[from + 1], x[from + 2] }), u = g.vec({ v[from], v[from + 1], v[from + 2] });
		X[to] = c.x; X[to + 1] = c.y; X[to + 2] = c.z; V[to] = u.x; V[to + 1] = u.y; V[to + 2] = u.z;
		if (!rot) return;
		Vec3 om = g.pseudo({ v[from + 3], v[from + 4], v[from + 5] });
		V[to + 3] = om.x; V[to + 4] = om.y; V[to + 5] = om.z;
	};
	for (size_t i = 0; i < b.size(); i++) if (b[i] >= 0) {
		put(b[i], B[L.b[i]], true);
		Vec3 a = g.euler({ x[b[i] + 3], x[b[i] + 4], x[b[i] + 5] });
		int k = B[L.b[i]];
		X[k + 3] = a.x; X[k + 4] = a.y; X[k + 5] = a.z;
	}
	for (size_t i = 0; i < r.size(); i++) if (r[i] >= 0) {
		bool six = m.rods[i].type == R_CPL;
		int k = R[L.r[i]];
		put(r[i], k, six);
		// the angles of a coupled rod turn it from where it was described: mirrored with it, or none
		if (six) { X[k + 3] = (g.mir ? -1 : 1) * x[r[i] + 3]; X[k + 4] = x[r[i] + 4]; X[k + 5] = (g.mir ? -1 : 1) * x[r[i] + 5]; }
	}
	for (size_t i = 0; i < p.size(); i++) if (p[i] >= 0) put(p[i], P[L.p[i]], false);
}
struct Item { std::string lab; Vec3 v; int kind; }; // 0 position, 1 vector, 2 pseudo vector, 3 scalar in x, 4: axis of a body (mirrored as a vector of the body)
void look(const Sys& s, const Model& m, const Relabel& L, bool moved, std::vector<Item>& out)
{
	const double bad = NAN;
	InLib guard;
	std::vector<int> b, r, p;
	dofs(m, b, r, p);
	auto id = [&](const std::vector<int>& v, size_t i) { return moved ? v[i] : (int)i; };
	for (size_t i = 0; i < m.bodies.size(); i++) {
		int k = id(L.b, i);
		MoorDynBody o = MoorDyn_GetBody(s.md, (unsigned)k + 1);
		double x[6], v[6], F[6];
		for (int j = 0; j < 6; j++) x[j] = v[j] = F[j] = bad;
		MoorDyn_GetBodyState(o, x, v); MoorDyn_GetBodyForce(o, F);
		out.push_back({ fmt("position of body %zu", i + 1), { x[0], x[1], x[2] }, 0 });
		for (int a = 0; a < 3; a++) out.push_back({ fmt("axis %d of body %zu", a, i + 1), rot_euler({ x[3], x[4], x[5] }, { a == 0 ? 1. : 0., a == 1 ? 1. : 0., a == 2 ? 1. : 0. }), 4 + a });
		out.push_back({ fmt("velocity of body %zu", i + 1), { v[0], v[1], v[2] }, 1 });
		out.push_back({ fmt("rotation rate of body %zu", i + 1), { v[3], v[4], v[5] }, 2 });
		out.push_back({ fmt("force on body %zu", i + 1), { F[0], F[1], F[2] }, 1 });
		out.push_back({ fmt("force (moment) on body %zu", i + 1), { F[3], F[4], F[5] }, 2 });
	}
	for (size_t i = 0; i < m.rods.size(); i++) {
		int k = id(L.r, i);
		MoorDynRod o = MoorDyn_GetRod(s.md, (unsigned)k + 1);
		for (int n = 0; n <= m.rods[i].n; n++) {
			double x[3] = { bad, bad, bad }, v[3] = { bad, bad, bad };
			MoorDyn_GetRodNodePos(o, n, x); MoorDyn_GetRodNodeVel(o, n, v);
			out.push_back({ fmt("position of node %d of rod %zu", n, i + 1), { x[0], x[1], x[2] }, 0 });
			out.push_back({ fmt("velocity of node %d of rod %zu", n, i + 1), { v[0], v[1], v[2] }, 1 });
		}
		double F[6] = { bad, bad, bad, bad, bad, bad };
		MoorDyn_GetRodForce(o, F);
		out.push_back({ fmt("force on rod %zu", i + 1), { F[0], F[1], F[2] }, 1 });
		out.push_back({ fmt("force (moment) on rod %zu", i + 1), { F[3], F[4], F[5] }, 2 });
	}
	for (size_t i = 0; i < m.points.size(); i++) {
		int k = id(L.p, i);
		MoorDynPoint o = MoorDyn_GetPoint(s.md, (unsigned)k + 1);
		double x[3] = { bad, bad, bad }, v[3] = { bad, bad, bad }, F[3] = { bad, bad, bad };
		MoorDyn_GetPointPos(o, x); MoorDyn_GetPointVel(o, v); MoorDyn_GetPointForce(o, F);
		out.push_back({ fmt("position of point %zu", i + 1), { x[0], x[1], x[2] }, 0 });
		out.push_back({ fmt("velocity of point %zu", i + 1), { v[0], v[1], v[2] }, 1 });
		out.push_back({ fmt("force on point %zu", i + 1), { F[0], F[1], F[2] }, 1 });
	}
	for (size_t i = 0; i < m.lines.size(); i++) {
		int k = id(L.l, i);
		bool rev = moved && L.rev[i];
		MoorDynLine o = MoorDyn_GetLine(s.md, (unsigned)k + 1);
		double u = bad, mt = bad;
		MoorDyn_GetLineUnstretchedLength(o, &u); MoorDyn_GetLineMaxTen(o, &mt);
		out.push_back({ fmt("unstretched length of line %zu", i + 1), { u, 0, 0 }, 3 });
		out.push_back({ fmt("greatest tension (force) of line %zu", i + 1), { mt, 0, 0 }, 3 });
		for (int n = 0; n <= m.lines[i].n; n++) {
			int j = rev ? m.lines[i].n - n : n;
			double x[3] = { bad, bad, bad }, v[3] = { bad, bad, bad }, F[3] = { bad, bad, bad }, c = bad;
			MoorDyn_GetLineNodePos(o, j, x); MoorDyn_GetLineNodeVel(o, j, v); MoorDyn_GetLineNodeForce(o, j, F); MoorDyn_GetLineNodeCurv(o, j, &c);
			out.push_back({ fmt("position of node %d of line %zu", n, i + 1), { x[0], x[1], x[2] }, 0 });
			out.push_back({ fmt("velocity of node %d of line %zu", n, i + 1), { v[0], v[1], v[2] }, 1 });
			out.push_back({ fmt("force on node %d of line %zu", n, i + 1), { F[0], F[1], F[2] }, 1 });
			if (m.lt[m.lines[i].ltype].EI > 0) out.push_back({ fmt("curvature at node %d of line %zu", n, i + 1), { c, 0, 0 }, 3 });
		}
	}
}
}

PROPERTY(C25)
{
	ModelOpts o;
	o.pow2dt = true;
	o.outputs = false;
	o.logfile = false;
	o.ic = false; // the generation of initial conditions stops at a tolerance
	for (auto& n : ALL_SCHEMES) if (n.rfind("Anderson", 0)) o.schemes.push_back(n); // (its accelerated iteration depends on the components taken one by one and stops at a tolerance)
	int kind = (int)S.draw(3); // 0 renumbered, 1 moved and turned, 2 both
	Model m = make_model(S, "a", o);
	bool renum = kind != 1;
	Relabel L;
	L.b = perm(S, m.bodies.size(), renum); L.r = perm(S, m.rods.size(), renum); L.p = perm(S, m.points.size(), renum); L.l = perm(S, m.lines.size(), renum);
	// a line described from the other end starts with the same shape only if it is taut: the catenary is found up to a tolerance
	Doc doc = parse(m);
	for (size_t i = 0; i < m.lines.size(); i++) {
		L.rev.push_back(renum && S.chance(1, 3));
		if (!L.rev.back()) continue;
		double len = norm(m.endpos(m.lines[i].a) - m.endpos(m.lines[i].b)) * S.rreal(0.97, 0.999, 0.001);
		m.lines[i].len = len;
		doc.get("LINES")->rows[i][4] = fmt("%.17g", len);
	}
	m.files[m.file] = plain(doc);
	m.sections.clear();
	{ std::istringstream in(m.files[m.file]); std::string l; while (std::getline(in, l)) m.sections.push_back(l); }
	Move g;
	// what the environment does not change under
	bool may_turn = !m.seafloor3d, may_mirror = true, may_shift = true;
	if (m.waveKin == 2 || m.waveKin == 3 || m.currents == 5) may_turn = may_mirror = may_shift = false;
	if (m.waveKin == 7) may_shift = false;
	if (kind != 0) {
		g.mir = may_mirror && S.chance(1, 3);
		int how = (int)S.draw(3);
		if (may_turn && how) g.th = how == 1 ? S.range(-1, 2) * 3.14159265358979323846 / 2 : S.real(-3.1, 3.1);
		if (may_shift && S.chance(1, 2)) g.T = { (double)S.range(-300, 300), (double)S.range(-300, 300), 0 };
	}
	S.ev("model %s; %s%s", m.summary.c_str(), renum ? "renumbered, " : "", fmt("turned %g, mirrored %d, shifted %g %g", g.th, g.mir, g.T.x, g.T.y).c_str());
	S.mark(m.summary + fmt("%d %d %d %d", kind, g.mir, g.th != 0, g.T.x != 0));
	if (renum) S.fault("renumbered");
	for (char c : L.rev) if (c) S.fault("line described from the other end");
	if (g.th != 0) S.fault("turned");
	if (g.mir) S.fault("mirrored");
	if (norm(g.T) > 0) S.fault("shifted");
	for (auto& l : m.lines) {
		Vec3 d = m.endpos(l.b) - m.endpos(l.a);
		if (std::hypot(d.x, d.y) < 1e-2 * norm(d)) throw Discard{ "vertical line" };
	}
	Motion q = make_motion(S, m);
	if (g.th != 0) for (size_t i = 0; i < m.x0.size(); i++) if (m.dof_dir[i] >= 3) q.amp[i] = 0; // angles are given about the axes of the frame
	int n = S.range(1, S.thorough() ? 20 : 8);
	Plan p = make_plan(S, m, q, n, 0.05, 0, true, false);
	Model w = transform(m, L, g);
	Sys s, z;
	m.install();
	start(S, s, m, q);
	fs().img.clear();
	w.install();
	if (!z.create(w)) throw Violation{ "refused", "the same system numbered or placed in another way is refused" };
	std::vector<double> X, V;
	host(m, w, L, g, s.x, s.xd, X, V);
	z.f.assign(m.ncpl() + 64, 0.0);
	int rc = api([&] { return m.noic ? MoorDyn_Init_NoIC(z.md, X.data(), V.data()) : MoorDyn_Init(z.md, X.data(), V.data()); });
	if (rc) throw Violation{ "refused", fmt("the same system numbered or placed in another way: Init returns %d", rc) };
	std::vector<int> b, r, pp, B, R, P;
	dofs(m, b, r, pp); dofs(w, B, R, P);
	std::vector<std::vector<Item>> seen;
	// the direction in which a rod leans is taken as none below a millionth: the little that this does depends on the frame
	double loose = 1;
	auto upright = [&](const Sys& y) {
		for (size_t k = 0; k < m.rods.size(); k++) {
			double a[3], b[3];
			MoorDynRod o = MoorDyn_GetRod(y.md, (unsigned)k + 1);
			MoorDyn_GetRodNodePos(o, 0, a);
			MoorDyn_GetRodNodePos(o, (unsigned)m.rods[k].n, b);
			const double h = std::hypot(b[0] - a[0], b[1] - a[1]);
			if ((g.th != 0 || g.mir) && h < 1e-5 * (h + std::fabs(b[2] - a[2]))) loose = 20;
		}
	};
	// a system in which rounding grows without bound, or in which something switches just then, settles nothing:
	// the second system again, turned by a billionth and with the lengths of its lines changed in the 10th digit
	auto sensitive = [&](int upto) {
		s.close(); z.close();
		Move h = g;
		h.th += 1e-9;
		Model y = transform(m, L, h);
		fs().img.clear();
		y.install();
		Sys v;
		if (!v.create(y)) return true;
		v.f.assign(m.ncpl() + 64, 0.0);
		std::vector<double> x0, v0;
		q.at(0.0, x0, v0);
		host(m, y, L, h, x0, v0, X, V);
		if (api([&] { return m.noic ? MoorDyn_Init_NoIC(v.md, X.data(), V.data()) : MoorDyn_Init(v.md, X.data(), V.data()); })) return true;
		for (unsigned l = 1; l <= m.lines.size(); l++) {
			double len = 0;
			MoorDyn_GetLineUnstretchedLength(MoorDyn_GetLine(v.md, l), &len);
			MoorDyn_SetLineUnstretchedLength(MoorDyn_GetLine(v.md, l), len * (1 + 1e-10));
		}
		for (int i = 1; i <= upto; i++) {
			host(m, y, L, h, p.x[i - 1], p.xd[i - 1], X, V);
			if (p.payline[i - 1] >= 0) command_as(v, p, i - 1, L.l[p.payline[i - 1]]);
			if (v.step_x(X, V, p.dt[i - 1])) return true;
			std::vector<Item> A;
			look(v, m, L, true, A);
			for (size_t k = 0; k < A.size(); k++) {
				const bool force = A[k].lab.find("force") != std::string::npos;
				if (!(norm(A[k].v - seen[i][k].v) <= 0.3 * (force ? 1.0 : 1e-5) * (1 + 1e-3 * norm(A[k].v)))) return true;
			}
		}
		return false;
	};
	for (int i = 0; i <= n; i++) {
		if (i) {
			if (!do_step(s, p, i - 1)) throw Discard{ "unstable" };
			host(m, w, L, g, p.x[i - 1], p.xd[i - 1], X, V);
			if (p.payline[i - 1] >= 0) command_as(z, p, i - 1, L.l[p.payline[i - 1]]);
			rc = z.step_x(X, V, p.dt[i - 1]);
			if (rc) throw Violation{ "refused", fmt("the same system numbered or placed in another way: Step returns %d", rc) };
			S.simtime += p.dt[i - 1];
		}
		std::vector<Item> A, C;
		look(s, m, L, false, A); look(z, m, L, true, C);
		seen.push_back(C);
		upright(s);
		if (i) {
			auto put = [&](const std::vector<int>& from, const std::vector<int>& to, const std::vector<int>& map, const char* nm, int nv) {
				for (size_t k = 0; k < from.size(); k++) if (from[k] >= 0) for (int h = 0; h < nv; h++) {
					const double *f0 = &s.f[from[k] + 3 * h], *f1 = &z.f[to[map[k]] + 3 * h];
					A.push_back({ fmt("load (force) %d of %s %zu", h, nm, k + 1), { f0[0], f0[1], f0[2] }, 1 + h });
					C.push_back({ fmt("load (force) %d of %s %zu", h, nm, k + 1), { f1[0], f1[1], f1[2] }, 1 + h });
				}
			};
			put(b, B, L.b, "body", 2); put(pp, P, L.p, "point", 1);
			for (size_t k = 0; k < r.size(); k++) if (r[k] >= 0) { std::vector<int> one(r.size(), -1); one[k] = r[k]; put(one, R, L.r, "rod", m.rods[k].type == R_CPL ? 2 : 1); }
		}
		// the wetting of a rod changes abruptly where its ends touch the water surface
		for (auto& a : A) if (a.lab.find("of rod") != std::string::npos && a.kind == 0 && std::fabs(a.v.z) < 1e-3) throw Discard{ "rod at the surface" };
		for (size_t k = 0; k < A.size(); k++) {
			Vec3 e = A[k].v;
			S.obs(&e, sizeof e);
			switch (A[k].kind) {
				case 0: e = g.pos(e); break;
				case 1: e = g.vec(e); break;
				case 2: e = g.pseudo(e); break;
				case 4: case 6: e = g.vec(e); break;
				case 5: e = g.mir ? -1.0 * g.vec(e) : g.vec(e); break;
			}
			// the catenary a line starts from is found up to a tolerance, and its plane is not defined for vertical lines
			if (i == 0 && A[k].kind == 0 && A[k].lab.find("of line") != std::string::npos && norm(e - C[k].v) > 1e-9) {
				// or not found at all, and then a straight line
				int li = atoi(A[k].lab.c_str() + A[k].lab.rfind(' ')) - 1, nd = atoi(A[k].lab.c_str() + A[k].lab.find("node ") + 5), nn = m.lines[li].n;
				if (norm(e - C[k].v) < 0.03 * m.lines[li].len) throw Discard{ "catenary" };
				for (const Sys* y : { &s, &z }) {
					int id = y == &s ? li : L.l[li], f = y == &z && L.rev[li] ? nn - nd : nd;
					Vec3 p0 = y->node(id, 0), p1 = y->node(id, nn), pn = y->node(id, f);
					if (norm(p0 + ((double)f / nn) * (p1 - p0) - pn) < 1e-9) throw Discard{ "catenary not found" };
				}
			}
			bool force = A[k].lab.find("force") != std::string::npos;
			double tol = loose * (force ? 1.0 : 1e-5) * (1 + 1e-3 * norm(A[k].v)), dd = norm(e - C[k].v);
			if (!(dd <= tol) && i && sensitive(i)) throw Discard{ "sensitive to rounding" };
			if (!(dd <= tol)) throw Violation{ "equivalent", fmt("at t=%g %s is (%.10g, %.10g, %.10g) in the renumbered or moved system instead of (%.10g, %.10g, %.10g)", s.t, A[k].lab.c_str(), C[k].v.x, C[k].v.y, C[k].v.z, e.x, e.y, e.z) };
		}
	}
	s.close(); z.close();
	S.nontrivial = true;
	S.probe("scheme " + m.scheme);
}
