// C08 observing never changes a simulation, C09 output files are a truthful record
#include "plan.hpp"
#include <cerrno>
#include <sstream>
#include <set>

// ------------------------------------------------------------------ C09
// What every output file has to contain at this instant (NaN: no query function tells)
struct Due { double t; bool must, may; std::map<std::string, std::vector<double>> row; std::map<std::string, std::vector<Vec3>> seg; std::map<std::string, std::pair<double, double>> stiff; std::map<std::string, Vec3> total; std::vector<double> slack; };
// Names and units of the columns, as the documentation lists them
struct Head { std::vector<std::string> name, unit; };
static std::string upper(std::string s) { for (char& c : s) c = (char)toupper((unsigned char)c); return s; }
static std::string unit_of(const std::string& chan)
{
	std::string c = upper(chan);
	if (c.find("TEN") != std::string::npos) return "(N)";
	if (c.size() > 3 && c.substr(c.size() - 3) == "SUB") return "(frac)";
	char a = c.back(), b = c[c.size() - 2], d = c[c.size() - 3];
	(void)a;
	if (b == 'P') return "(m)";
	if (b == 'F') return "(N)";
	if (b == 'M') return "(Nm)";
	if (b == 'R') return "(deg)";
	if (b == 'V') return d == 'R' ? "(deg/s)" : "(m/s)";
	return d == 'R' ? "(deg/s2)" : "(m/s2)";
}
static std::map<std::string, Head> heads(const Sys& s)
{
	const Model& m = *s.m;
	std::map<std::string, Head> H;
	auto& h = H[m.base + ".out"];
	for (auto& c : m.outs) { h.name.push_back(c); h.unit.push_back(unit_of(c)); }
	for (size_t i = 0; i < m.bodies.size(); i++) H[m.base + fmt("_Body%d.out", (int)i + 1)] = { { "x", "y", "z", "roll", "pitch", "yaw" }, { "(m)", "(m)", "(m)", "(deg)", "(deg)", "(deg)" } };
	auto vecs = [](Head& h, const char* what, int i, char c, const char* unit) { for (char x : { 'x', 'y', 'z' }) { h.name.push_back(fmt("%s%d%c%c", what, i, c, x)); h.unit.push_back(unit); } };
	for (size_t i = 0; i < m.rods.size(); i++) {
		auto& R = m.rods[i];
		if (R.flags == "-") continue;
		auto& h = H[m.base + fmt("_Rod%d.out", (int)i + 1)];
		for (char c : std::string("pvf"))
			if (R.flags.find(c) != std::string::npos)
				for (int n = 0; n <= R.n; n++) vecs(h, "Node", n, c == 'f' ? 'F' : c, c == 'p' ? "(m)" : c == 'v' ? "(m/s)" : "(N)");
	}
	for (size_t i = 0; i < m.lines.size(); i++) {
		auto& L = m.lines[i];
		if (L.flags == "-") continue;
		auto& h = H[m.base + fmt("_Line%d.out", (int)i + 1)];
		for (char c : std::string("pKvUDtcsdb")) {
			if (L.flags.find(c) == std::string::npos) continue;
			bool seg = c == 't' || c == 'c' || c == 's' || c == 'd';
			for (int n = seg ? 1 : 0; n <= L.n; n++) {
				if (c == 'K') { h.name.push_back(fmt("Node%dKu", n)); h.unit.push_back("(1/m)"); }
				else if (c == 't') { h.name.push_back(fmt("Seg%dTe", n)); h.unit.push_back("(N)"); }
				else if (c == 's') { h.name.push_back(fmt("Seg%dSt", n)); h.unit.push_back("(-)"); }
				else if (c == 'd') { h.name.push_back(fmt("Seg%ddSt", n)); h.unit.push_back("(-/s)"); }
				else vecs(h, seg ? "Seg" : "Node", n, c, c == 'p' ? "(m)" : c == 'v' || c == 'U' ? "(m/s)" : "(N)");
			}
		}
	}
	return H;
}

static double nan_() { return std::nan(""); }
// the solution of A x = b, by elimination with pivots
static double g_slack = 0; // what the rounding of the solution may amount to
static void solve(int n, std::vector<double> A, const double* b, double* x)
{
	double dia = 1e300, f = 0;
	for (int i = 0; i < n; i++) { dia = std::min(dia, std::fabs(A[i * n + i])); f += std::fabs(b[i]); }
	g_slack = 1e-11 * f / dia * 57.3;
	std::vector<double> r(b, b + n);
	for (int i = 0; i < n; i++) {
		int p = i;
		for (int j = i + 1; j < n; j++) if (std::fabs(A[j * n + i]) > std::fabs(A[p * n + i])) p = j;
		for (int k = 0; k < n; k++) std::swap(A[i * n + k], A[p * n + k]);
		std::swap(r[i], r[p]);
		for (int j = i + 1; j < n; j++) {
			double f = A[j * n + i] / A[i * n + i];
			for (int k = i; k < n; k++) A[j * n + k] -= f * A[i * n + k];
			r[j] -= f * r[i];
		}
	}
	for (int i = n - 1; i >= 0; i--) {
		x[i] = r[i];
		for (int k = i + 1; k < n; k++) x[i] -= A[i * n + k] * x[k];
		x[i] /= A[i * n + i];
	}
}
static double channel(const Sys& s, const std::string& c)
{
	int a = 0, b = 0; char q[16] = "";
	double r[3], f[6], R[6], RD[6];
	auto comp = [&](const char* qq) { return qq[1] == 'x' ? 0 : qq[1] == 'y' ? 1 : 2; };
	auto nrm = [](const double* v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); };
	if (sscanf(c.c_str(), "FairTen%d", &a) == 1) { api([&] { return MoorDyn_GetLineNodeForce(MoorDyn_GetLine(s.md, a), s.m->lines[a - 1].n, r); }); return nrm(r); }
	if (sscanf(c.c_str(), "AnchTen%d", &a) == 1) { api([&] { return MoorDyn_GetLineNodeForce(MoorDyn_GetLine(s.md, a), 0, r); }); return nrm(r); }
	if (sscanf(c.c_str(), "Point%d%15s", &a, q) == 2) {
		auto P = MoorDyn_GetPoint(s.md, a);
		if (q[0] == 'a') { // what moves freely moves by the force on it
			if (s.m->points[a - 1].type != P_FREE) return nan_();
			double M[3][3], acc[3];
			api([&] { MoorDyn_GetPointForce(P, r); return MoorDyn_GetPointM(P, M); });
			solve(3, std::vector<double>(&M[0][0], &M[0][0] + 9), r, acc);
			return acc[comp(q)];
		}
		api([&] { return q[0] == 'p' ? MoorDyn_GetPointPos(P, r) : q[0] == 'v' ? MoorDyn_GetPointVel(P, r) : MoorDyn_GetPointForce(P, r); });
		return q[0] == 't' ? nrm(r) : r[comp(q)];
	}
	if (sscanf(c.c_str(), "L%dN%d%15s", &a, &b, q) == 3) {
		auto P = MoorDyn_GetLine(s.md, a);
		bool end = b == 0 || b == s.m->lines[a - 1].n;
		api([&] { return q[0] == 'p' ? MoorDyn_GetLineNodePos(P, b, r) : q[0] == 'v' ? MoorDyn_GetLineNodeVel(P, b, r) : q[0] == 'f' || end ? MoorDyn_GetLineNodeForce(P, b, r) : MoorDyn_GetLineNodeTen(P, b, r); });
		return q[0] == 't' ? nrm(r) : r[comp(q)];
	}
	if (sscanf(c.c_str(), "L%dN%15s", &a, q) == 2 || sscanf(c.c_str(), "L%dten%15s", &a, q) == 2) {
		auto P = MoorDyn_GetLine(s.md, a);
		unsigned n = q[0] == 'A' || q[0] == 'a' ? 0 : (unsigned)s.m->lines[a - 1].n;
		if (q[1] == 0) { api([&] { return MoorDyn_GetLineNodeForce(P, n, r); }); return nrm(r); }
		api([&] { return q[1] == 'p' ? MoorDyn_GetLineNodePos(P, n, r) : q[1] == 'v' ? MoorDyn_GetLineNodeVel(P, n, r) : MoorDyn_GetLineNodeForce(P, n, r); });
		return r[comp(q + 1)];
	}
	if (sscanf(c.c_str(), "Body%d%15s", &a, q) == 2) {
		auto P = MoorDyn_GetBody(s.md, a);
		api([&] { return MoorDyn_GetBodyState(P, R, RD); });
		api([&] { return MoorDyn_GetBodyForce(P, f); });
		const double k = 180.0 / M_PI;
		if (q[0] == 'p') return R[comp(q)];
		if (q[0] == 'v') return RD[comp(q)];
		if (q[0] == 'f') return f[comp(q)];
		if (q[0] == 'm') return f[3 + comp(q)];
		if (q[0] == 'r' && q[1] == 'v') return k * RD[3 + comp(q + 1)];
		if (q[0] == 'r' && q[1] != 'a') return k * R[3 + comp(q)];
		if ((q[0] == 'a' || (q[0] == 'r' && q[1] == 'a')) && s.m->bodies[a - 1].type == B_FREE) {
			double M[6][6], acc[6];
			api([&] { return MoorDyn_GetBodyM(P, M); });
			solve(6, std::vector<double>(&M[0][0], &M[0][0] + 36), f, acc);
			return q[0] == 'a' ? acc[comp(q)] : k * acc[3 + comp(q + 1)];
		}
		if (q[0] == 't') return nrm(f); // "Ten"
		return nan_();
	}
	if (sscanf(c.c_str(), "Rod%dN%d%15s", &a, &b, q) == 3) {
		auto P = MoorDyn_GetRod(s.md, a);
		api([&] { return q[0] == 'p' ? MoorDyn_GetRodNodePos(P, b, r) : MoorDyn_GetRodNodeVel(P, b, r); });
		return q[0] == 'f' ? nan_() : r[comp(q)];
	}
	if (sscanf(c.c_str(), "Rod%dN%15s", &a, q) == 2) {
		auto P = MoorDyn_GetRod(s.md, a);
		b = q[0] == 'A' ? 0 : s.m->rods[a - 1].n;
		api([&] { return q[1] == 'p' ? MoorDyn_GetRodNodePos(P, b, r) : MoorDyn_GetRodNodeVel(P, b, r); });
		return q[1] == 'f' ? nan_() : r[comp(q + 1)];
	}
	if (sscanf(c.c_str(), "Rod%d%15s", &a, q) == 2) {
		auto P = MoorDyn_GetRod(s.md, a);
		const double k = 180.0 / M_PI;
		api([&] { return MoorDyn_GetRodForce(P, f); });
		if (q[0] == 'p') { api([&] { return MoorDyn_GetRodNodePos(P, 0, r); }); return r[comp(q)]; }
		if (q[0] == 'f') return f[comp(q)];
		if (q[0] == 'm') return f[3 + comp(q)];
		if (q[0] == 't') { // the pull of everything attached at one end
			double sum[3] = { 0, 0, 0 };
			for (size_t l = 0; l < s.m->lines.size(); l++)
				for (int e = 0; e < 2; e++) {
					const auto& en = e ? s.m->lines[l].b : s.m->lines[l].a;
					if (!en.rod || en.idx != a - 1 || (en.end != 0) != (q[3] == 'b')) continue;
					api([&] { return MoorDyn_GetLineNodeForce(MoorDyn_GetLine(s.md, (unsigned)l + 1), e ? s.m->lines[l].n : 0, r); });
					for (int j = 0; j < 3; j++) sum[j] += r[j];
				}
			return nrm(sum);
		}
		if (q[0] == 'v') { api([&] { return MoorDyn_GetRodNodeVel(P, 0, r); }); return r[comp(q)]; }
		if (q[0] == 's' && s.m->waveKin == 0) { // clearly under or clearly above still water
			double lo = 1e9, hi = -1e9;
			for (int n = 0; n <= s.m->rods[a - 1].n; n++) { api([&] { return MoorDyn_GetRodNodePos(P, n, r); }); lo = std::min(lo, r[2]); hi = std::max(hi, r[2]); }
			return hi < -2 ? 1 : lo > 2 ? 0 : nan_();
		}
		if (q[0] == 'a' && s.m->rods[a - 1].type == R_FREE) {
			double M[6][6], acc[6];
			api([&] { return MoorDyn_GetRodM(P, M); });
			solve(6, std::vector<double>(&M[0][0], &M[0][0] + 36), f, acc);
			return acc[comp(q)];
		}
		if (q[0] == 'r' && q[1] == 'a' && s.m->rods[a - 1].type == R_FREE) {
			double M[6][6], acc[6];
			api([&] { return MoorDyn_GetRodM(P, M); });
			solve(6, std::vector<double>(&M[0][0], &M[0][0] + 36), f, acc);
			return k * acc[3 + comp(q + 1)];
		}
		if (q[0] == 'r' && q[1] == 'v' && s.m->rods[a - 1].type == R_CPL) // the rates the host gave
			for (size_t i = 0; i < s.m->x0.size(); i++) if (s.m->dof_obj[i] == 1000 + a - 1 && s.m->dof_dir[i] == 3 + comp(q + 1)) return s.lastv.size() > i ? k * s.lastv[i] : nan_();
		if (q[0] == 'r' && (q[1] == 'x' || q[1] == 'y')) { // the inclination of end B about the horizontal axes; none when upright
			double e[3];
			api([&] { MoorDyn_GetRodNodePos(P, 0, r); return MoorDyn_GetRodNodePos(P, s.m->rods[a - 1].n, e); });
			const double x = e[0] - r[0], y = e[1] - r[1], z = e[2] - r[2], h = std::hypot(x, y), phi = std::atan2(h, z), be = std::atan2(y, x);
			if (h < 1e-5 * nrm(e) || h < 1e-4) return nan_(); // (no heading)
			return k * phi * (q[1] == 'x' ? -std::sin(be) : std::cos(be));
		}
		return nan_();
	}
	return nan_();
}
static void rows(const Sys& s, Due& d, std::set<int>& paid)
{
	const Model& m = *s.m;
	auto& main = d.row[m.base + ".out"];
	for (auto& c : m.outs) { g_slack = 0; main.push_back(channel(s, c)); d.slack.push_back(g_slack); }
	for (size_t i = 0; i < m.bodies.size(); i++) {
		double r[6], rd[6];
		api([&] { return MoorDyn_GetBodyState(MoorDyn_GetBody(s.md, (unsigned)i + 1), r, rd); });
		auto& v = d.row[m.base + fmt("_Body%d.out", (int)i + 1)];
		for (int k = 0; k < 6; k++) v.push_back(k < 3 ? r[k] : r[k] * 180.0 / M_PI);
	}
	for (size_t i = 0; i < m.rods.size(); i++) {
		auto& R = m.rods[i];
		if (R.flags == "-") continue;
		auto P = MoorDyn_GetRod(s.md, (unsigned)i + 1);
		auto& v = d.row[m.base + fmt("_Rod%d.out", (int)i + 1)];
		// (what moves with the host also passes on its inertia)
		if (R.flags.find('f') != std::string::npos && R.type != R_CPL && R.type != R_CPLPIN) {
			double f[6];
			api([&] { return MoorDyn_GetRodForce(P, f); });
			d.total[m.base + fmt("_Rod%d.out", (int)i + 1)] = { f[0], f[1], f[2] };
		}
		for (char c : std::string("pvf")) {
			if (R.flags.find(c) == std::string::npos) continue;
			for (int n = 0; n <= R.n; n++) {
				double r[3] = { nan_(), nan_(), nan_() };
				if (c != 'f') api([&] { return c == 'p' ? MoorDyn_GetRodNodePos(P, n, r) : MoorDyn_GetRodNodeVel(P, n, r); });
				for (double x : r) v.push_back(x);
			}
		}
	}
	for (size_t i = 0; i < m.lines.size(); i++) {
		auto& L = m.lines[i];
		if (L.flags == "-") continue;
		auto P = MoorDyn_GetLine(s.md, (unsigned)i + 1);
		auto& v = d.row[m.base + fmt("_Line%d.out", (int)i + 1)];
		// stiffness and damping, while they are constants and the line is not being paid out
		double len = 0, EA = 0;
		const auto& T = m.lt[L.ltype];
		api([&] { return MoorDyn_GetLineUnstretchedLength(P, &len); });
		if (len != L.len) paid.insert((int)i);
		if (m.scheme[0] == 'L' && api([&] { return MoorDyn_GetLineConstantEA(P, &EA); }) == 0 && EA != T.EA) paid.insert((int)i); // a local scheme works the tension out again when the line is due
		if (!T.eatab && !paid.count((int)i) && api([&] { return MoorDyn_GetLineConstantEA(P, &EA); }) == 0) d.stiff[m.base + fmt("_Line%d.out", (int)i + 1)] = { EA, T.BA };
		// tension plus damping of each segment, from the nodal values the query functions give
		auto& sg = d.seg[m.base + fmt("_Line%d.out", (int)i + 1)];
		for (int n = 0; n < L.n; n++) {
			double r[3];
			api([&] { return MoorDyn_GetLineNodeTen(P, n, r); });
			Vec3 T = { r[0], r[1], r[2] };
			sg.push_back(n == 0 ? T : 2.0 * T - sg[n - 1]);
		}
		for (char c : std::string("pKvUDtcsdb")) {
			if (L.flags.find(c) == std::string::npos) continue;
			bool seg = c == 't' || c == 'c' || c == 's' || c == 'd';
			for (int n = seg ? 1 : 0; n <= L.n; n++) {
				double r[3] = { nan_(), nan_(), nan_ () }, b[3], k = nan_();
				int dim = c == 'K' || c == 't' || c == 's' || c == 'd' ? 1 : 3;
				switch (c) {
					case 'p': api([&] { return MoorDyn_GetLineNodePos(P, n, r); }); break;
					case 'v': api([&] { return MoorDyn_GetLineNodeVel(P, n, r); }); break;
					case 'K': api([&] { return MoorDyn_GetLineNodeCurv(P, n, &k); }); r[0] = k; break;
					case 'b': api([&] { return MoorDyn_GetLineNodeSeabedForce(P, n, r); }); break;
					case 'D':
						api([&] { return MoorDyn_GetLineNodeDrag(P, n, r); });
						api([&] { return MoorDyn_GetLineNodeFroudeKrilov(P, n, b); });
						for (int j = 0; j < 3; j++) r[j] += b[j];
						break;
				}
				for (int j = 0; j < dim; j++) v.push_back(r[j]);
			}
		}
	}
}
static std::vector<double> numbers(const std::string& l, bool& ok)
{
	std::vector<double> v;
	std::istringstream is(l);
	std::string w;
	ok = true;
	while (is >> w) { char* e; double d = strtod(w.c_str(), &e); if (*e || e == w.c_str()) ok = false; v.push_back(d); }
	return v;
}
static std::vector<std::string> words(const std::string& l)
{
	std::vector<std::string> v;
	std::istringstream is(l);
	std::string w;
	while (is >> w) v.push_back(w);
	return v;
}
// equal when printed with six digits (a little slack for values computed in another order)
static bool printed_as(double value, double read, double scale)
{
	if (std::isnan(value)) return true;
	return std::fabs(value - read) <= 5.5e-6 * std::fabs(value) + 1e-11 * scale + 1e-13;
}
static void check_file(Sim& S, const Model& m, const std::string& path, const std::string& text, const std::vector<Due>& due, const Head& H)
{
	std::istringstream is(text);
	std::string l;
	std::vector<std::string> L;
	while (std::getline(is, l)) L.push_back(l);
	std::string sh = path.substr(m.base.size() - 1);
	if (!text.empty() && text.back() != '\n') throw Violation{ "partial", sh + " does not end with a complete row after closing" };
	size_t cols = due[0].row.at(path).size() + 1;
	size_t nh = m.writeUnits ? 2 : 1;
	if (L.size() < nh || words(L[0]).empty() || words(L[0])[0] != "Time") throw Violation{ "header", sh + " does not start with a header but with: " + (L.empty() ? "" : L[0].substr(0, 40)) };
	if (words(L[0]).size() != cols) throw Violation{ "header", fmt("%s: %zu names in the header for %zu columns", sh.c_str(), words(L[0]).size(), cols) };
	if (m.writeUnits && (words(L[1]).empty() || words(L[1])[0] != "(s)" || words(L[1]).size() != cols)) throw Violation{ "header", sh + ": the units line is wrong: " + L[1].substr(0, 60) };
	for (size_t c = 1; c < cols; c++) {
		std::string got = words(L[0])[c], want = H.name[c - 1];
		if (upper(got) != upper(want)) throw Violation{ "header", fmt("%s: column %zu is headed %s, and it is %s", sh.c_str(), c + 1, got.c_str(), want.c_str()) };
		if (m.writeUnits && words(L[1])[c] != H.unit[c - 1]) throw Violation{ "header", fmt("%s: column %s is said to be in %s, and it is in %s", sh.c_str(), want.c_str(), words(L[1])[c].c_str(), H.unit[c - 1].c_str()) };
	}
	size_t k = nh;
	double last = -1;
	bool pending = false; // a multiple just at the end of the previous step is still owed
	for (size_t i = 0; i < due.size(); i++) {
		const Due& d = due[i];
		bool ok = false;
		std::vector<double> v;
		bool present = false;
		if (k < L.size()) {
			v = numbers(L[k], ok);
			if (!ok || v.empty()) throw Violation{ "row", fmt("%s: line %zu is not a row of numbers: %s", sh.c_str(), k + 1, L[k].substr(0, 60).c_str()) };
			present = std::fabs(v[0] - d.t) <= 6e-6 * d.t;
			// when two instants print alike, values decide below
		}
		bool must = d.must || pending;
		if (must && !present) throw Violation{ "missing", fmt("%s: no row for t=%.9g (dtOut %g), the next row is for %s", sh.c_str(), d.t, m.dtOut, k < L.size() ? words(L[k])[0].c_str() : "nothing") };
		if (present && !must && !d.may) {
			// the row may belong to a later instant that prints alike
			bool later = false;
			for (size_t j = i + 1; j < due.size(); j++) if ((due[j].must || due[j].may) && std::fabs(v[0] - due[j].t) <= 6e-6 * due[j].t) later = true;
			if (later) { pending = false; continue; }
			throw Violation{ "extra", fmt("%s: a row for t=%.9g, which is not due (dtOut %g)", sh.c_str(), d.t, m.dtOut) };
		}
		pending = false;
		if (!present) { if (d.may) pending = true; continue; }
		if (v.size() != cols) throw Violation{ "columns", fmt("%s: %zu values for %zu columns at t=%g", sh.c_str(), v.size(), cols, d.t) };
		if (v[0] < last || (v[0] == last && d.t > last * (1 + 1.1e-5))) throw Violation{ "order", fmt("%s: time %g after %g", sh.c_str(), v[0], last) };
		last = v[0];
		const auto& e = d.row.at(path);
		double sc = 0;
		for (double x : e) if (!std::isnan(x)) sc = std::max(sc, std::fabs(x));
		for (size_t c = 0; c < e.size(); c++)
			if (!printed_as(e[c], v[c + 1], sc) && !(path == m.base + ".out" && std::fabs(e[c] - v[c + 1]) <= 5.5e-6 * std::fabs(e[c]) + d.slack[c])) throw Violation{ "value", fmt("%s at t=%g, column %s: %.9g while the query functions say %.9g", sh.c_str(), d.t, words(L[0])[c + 1].c_str(), v[c + 1], e[c]) };
		if (d.total.count(path)) { // the loads of the nodes are the load of the rod
			const auto h = words(L[0]);
			Vec3 sum = { 0, 0, 0 };
			double big = 0;
			for (size_t c = 1; c + 2 < h.size(); c++)
				if (h[c].size() > 2 && h[c].substr(h[c].size() - 2) == "Fx") { sum = sum + Vec3{ v[c], v[c + 1], v[c + 2] }; big += std::fabs(v[c]) + std::fabs(v[c + 1]) + std::fabs(v[c + 2]); }
			if (norm(sum - d.total.at(path)) > 1e-5 * big + 1e-9) throw Violation{ "value", fmt("%s at t=%g: the loads of the nodes add up to %.9g %.9g %.9g, the load of the rod is %.9g %.9g %.9g", sh.c_str(), d.t, sum.x, sum.y, sum.z, d.total.at(path).x, d.total.at(path).y, d.total.at(path).z) };
		}
		if (d.seg.count(path)) { // the segment tensions and dampings have to add up to the nodal values
			const auto& sg = d.seg.at(path);
			const auto h = words(L[0]);
			int ct = -1, cc = -1;
			for (size_t c = 0; c < h.size(); c++) { if (h[c] == "Seg1Te") ct = (int)c; if (h[c] == "Seg1cx") cc = (int)c; }
			double big = 1;
			int cs = -1, cd = -1;
			for (size_t c = 0; c < h.size(); c++) { if (h[c] == "Seg1St") cs = (int)c; if (h[c] == "Seg1dSt") cd = (int)c; }
			if (d.stiff.count(path)) {
				auto [EA, BA] = d.stiff.at(path);
				for (size_t n = 0; n < sg.size(); n++) {
					if (ct > 0 && cs > 0) {
						double want = EA * std::max(0.0, v[cs + n]);
						if (std::fabs(want - v[ct + n]) > 2e-5 * want + 1e-9 * EA) throw Violation{ "value", fmt("%s at t=%g: strain of segment %zu is %.9g and its tension %.9g, with EA %g", sh.c_str(), d.t, n + 1, v[cs + n], v[ct + n], EA) };
					}
					if (cc > 0 && cd > 0 && BA > 0) {
						double want = BA * std::fabs(v[cd + n]), is = norm({ v[cc + 3 * n], v[cc + 3 * n + 1], v[cc + 3 * n + 2] });
						if (std::fabs(want - is) > 3e-5 * want + 1e-9 * BA) throw Violation{ "value", fmt("%s at t=%g: strain rate of segment %zu is %.9g and its damping %.9g, with BA %g", sh.c_str(), d.t, n + 1, v[cd + n], is, BA) };
					}
				}
			}
			for (auto& T : sg) big = std::max(big, norm(T));
			if (ct > 0 && cc > 0)
				for (size_t n = 0; n < sg.size(); n++) {
					Vec3 td = { v[cc + 3 * n], v[cc + 3 * n + 1], v[cc + 3 * n + 2] };
					big = std::max(big, norm(td));
					double te = norm(sg[n] - td);
					if (std::fabs(te - v[ct + n]) > 4e-5 * big) throw Violation{ "value", fmt("%s at t=%g: tension of segment %zu is %.9g, the node values give %.9g", sh.c_str(), d.t, n + 1, v[ct + n], te) };
				}
		}
		for (size_t c = 1; c < v.size(); c++) if (!std::isfinite(v[c])) throw Violation{ "value", fmt("%s at t=%g, column %zu is not a number", sh.c_str(), d.t, c) };
		k++;
	}
	if (k != L.size()) throw Violation{ "extra", fmt("%s: %zu rows after the last due instant: %s", sh.c_str(), L.size() - k, L[k].substr(0, 60).c_str()) };
}

PROPERTY(C09)
{
	ModelOpts o;
	Model m = make_model(S, "a", o);
	m.install();
	S.ev("model %s dtOut %g", m.summary.c_str(), m.dtOut);
	S.mark(m.summary + fmt(" %g %d", m.dtOut, m.writeUnits));
	Motion q = make_motion(S, m);
	double base = S.real(0.01, 0.08);
	int n = S.range(1, 16);
	Plan p = make_plan(S, m, q, n, base, 0.0, true);
	// hosts usually step in round numbers, often a fraction or a multiple of the output interval
	int style = (int)S.draw(4);
	if (style < 3) {
		double u = m.dtOut > 0 ? m.dtOut : 0.05;
		static const double fr[] = { 1, 0.5, 0.25, 0.2, 2, 1.5, 0.1 };
		double dt = style == 0 ? u * fr[S.draw(7)] : style == 1 ? u * fr[S.draw(7)] : S.rreal(0.01, 0.1, 0.01);
		double t = 0;
		for (int i = 0; i < n; i++) {
			if (style == 1 && S.chance(1, 4)) dt = u * fr[S.draw(7)];
			p.dt[i] = dt;
			q.at(t, p.x[i], p.xd[i]);
			t += dt;
		}
	}
	bool crash = S.chance(1, 2);
	if (crash) { fs().crash_at = (long)S.draw(60); fs().crash_keep = S.draw(300); }
	FsImage before;
	if (S.chance(1, 4)) { before[m.base + ".out"] = std::string(S.draw(3000), '7'); fs().img[m.base + ".out"] = before[m.base + ".out"]; } // left by an earlier run
	Sys s;
	start(S, s, m, q);
	std::vector<Due> due;
	const auto H = heads(s);
	Due d0; d0.t = 0; d0.must = m.dtOut <= 0; d0.may = false;
	std::set<int> paid;
	rows(s, d0, paid); due.push_back(d0);
	for (int i = 0; i < n; i++) {
		while (S.chance(1, 8)) { // zero-length calls are no instants
			S.fault("zero-length coupling call");
			double t0 = s.t;
			if (s.step_x(p.x[i], p.xd[i], S.chance(1, 2) ? 0.0 : -0.01)) throw Violation{ "zero", "a zero-length call failed" };
			if (s.t != t0) throw Violation{ "zero", "a zero-length call changed the time" };
		}
		double t0 = s.t;
		if (!do_step(s, p, i)) throw Discard{ "unstable" };
		Due d; d.t = s.t;
		if (m.dtOut <= 0) { d.must = true; d.may = false; }
		else {
			const double eps = 1e-9 * (1 + s.t / m.dtOut);
			double a = t0 / m.dtOut, b = s.t / m.dtOut;
			// a multiple clearly inside (a, b]
			d.must = std::floor(b - eps) > std::floor(a + eps);
			// a multiple just at the end: this row or the next one records it
			d.may = !d.must && std::fabs(b - std::round(b)) <= eps && std::round(b) > a + eps;
			// just at the start: it was recorded at the previous step
		}
		rows(s, d, paid);
		due.push_back(d);
		S.simtime += p.dt[i];
	}
	s.close();
	if (crash && fs().crashed) {
		S.fault("process crash during " + fs().crash_op.substr(0, fs().crash_op.find(' ')));
		S.ev("the process would have died at %s", fs().crash_op.c_str());
	}
	int files = 0;
	for (auto& kv : due[0].row) {
		auto it = fs().img.find(kv.first);
		if (it == fs().img.end()) throw Violation{ "missing", "no file " + kv.first };
		check_file(S, m, kv.first, it->second, due, H.at(kv.first));
		S.hash = fnv(S.hash, it->second);
		if (fs().crashed && fs().crash_img.count(kv.first) && !before.count(kv.first)) {
			const std::string& c = fs().crash_img[kv.first];
			if (it->second.compare(0, c.size(), c) != 0) throw Violation{ "prefix", kv.first + ": what was on disk when the process died is not a prefix of the record" };
		}
		files++;
	}
	for (auto& kv : fs().img) if (kv.first.size() > 4 && kv.first.substr(kv.first.size() - 4) == ".out" && !due[0].row.count(kv.first)) throw Violation{ "extra", "unrequested output file " + kv.first };
	int nrow = 0;
	for (auto& d : due) nrow += d.must;
	S.nontrivial = nrow > 1;
	S.probe(fmt("dtOut %s", m.dtOut > 0 ? "given" : "not given"));
	S.probe(fmt("%d output files", files));
}

// ------------------------------------------------------------------ C08
// The same model without any output
static Model quiet(const Model& m)
{
	Model q = m;
	std::string txt;
	bool outsec = false, rowsec = false;
	for (auto& l : m.sections) {
		if (l.find("---") != std::string::npos) { outsec = l.find("OUTPUTS") != std::string::npos; rowsec = l.find(" LINES") != std::string::npos || l.find(" RODS") != std::string::npos; txt += l + "\n"; continue; }
		if (outsec) continue;
		if (l.find("dtOut") != std::string::npos || l.find("writeLog") != std::string::npos || l.find("WriteUnits") != std::string::npos) continue;
		if (rowsec && isdigit((unsigned char)l[0])) { txt += l.substr(0, l.rfind(' ')) + " -\n"; continue; }
		txt += l + "\n";
	}
	q.files[q.file] = txt;
	q.outs.clear(); q.dtOut = 0; q.writeLog = 0; q.writeUnits = 1;
	for (auto& l : q.lines) l.flags = "-";
	for (auto& r : q.rods) r.flags = "-";
	return q;
}
static void peek(Sim& S, Sys& s)
{
	const Model& m = *s.m;
	switch (S.draw(15)) {
		case 0: { Obs o; s.observe(o); break; }
		case 1: s.serialize(); S.fault("state captured"); break;
		case 2: api([&] { return MoorDyn_Save(s.md, (m.dir + "peek.bin").c_str()); }); S.fault("state saved"); break;
		case 3: { std::vector<double> x(m.ncpl() + 64, S.real(-5, 5)), xd(m.ncpl() + 64, S.real(-5, 5)); auto f = s.f; double t = s.t; s.step_x(x, xd, S.chance(1, 2) ? 0.0 : -S.real(0, 1)); s.f = f; s.t = t; S.fault("zero-length coupling call"); break; }
		case 4: api([&] { return MoorDyn_SetVerbosity(s.md, (int)S.draw(5)); }); S.fault("verbosity changed"); break;
		case 5: api([&] { return MoorDyn_SetLogLevel(s.md, (int)S.draw(5)); }); S.fault("log level changed"); break;
		case 6: { std::string f = m.dir + fmt("log%d.txt", (int)S.draw(3)); api([&] { return MoorDyn_SetLogFile(s.md, f.c_str()); }); S.fault("log file changed"); break; }
		case 7: api([&] { return MoorDyn_Log(s.md, (int)S.draw(5), "hello"); }); break;
		case 8: {
			auto w = apip([&] { return MoorDyn_GetWaves(s.md); });
			auto sf = apip([&] { return MoorDyn_GetSeafloor(s.md); });
			double U[3], Ud[3], z, pd;
			if (w) api([&] { return MoorDyn_GetWavesKin(w, S.real(-50, 50), S.real(-50, 50), S.real(-40, 5), U, Ud, &z, &pd, sf); });
			if (sf) { double d; api([&] { return MoorDyn_GetDepthAt(sf, S.real(-80, 80), S.real(-80, 80), &d); }); api([&] { return MoorDyn_GetAverageDepth(sf, &d); }); api([&] { return MoorDyn_GetMinDepth(sf, &d); }); }
			S.fault("environment queried");
			break;
		}
		case 9: {
			double a[4], M[6][6];
			for (size_t i = 0; i < m.bodies.size(); i++) {
				auto b = MoorDyn_GetBody(s.md, (unsigned)i + 1);
				api([&] { MoorDyn_GetBodyPos(b, a); MoorDyn_GetBodyAngle(b, a); MoorDyn_GetBodyVel(b, a); MoorDyn_GetBodyAngVel(b, a); return MoorDyn_GetBodyM(b, M); });
			}
			for (size_t i = 0; i < m.rods.size(); i++) { auto b = MoorDyn_GetRod(s.md, (unsigned)i + 1); double f[6]; api([&] { MoorDyn_GetRodForce(b, f); return MoorDyn_GetRodM(b, M); }); }
			break;
		}
		case 10: {
			double M[3][3]; unsigned n;
			for (size_t i = 0; i < m.points.size(); i++) {
				auto b = MoorDyn_GetPoint(s.md, (unsigned)i + 1);
				MoorDynLine l; int e;
				api([&] { MoorDyn_GetPointM(b, M); MoorDyn_GetPointNAttached(b, &n); for (unsigned k = 0; k < n; k++) MoorDyn_GetPointAttached(b, k, &l, &e); return 0; });
			}
			break;
		}
		case 11: {
			double a[3], M[3][3], c;
			for (size_t i = 0; i < m.lines.size(); i++) {
				auto l = MoorDyn_GetLine(s.md, (unsigned)i + 1);
				for (int n = 0; n <= m.lines[i].n; n++)
					api([&] { MoorDyn_GetLineNodeBendStiff(l, n, a); MoorDyn_GetLineNodeWeight(l, n, a); MoorDyn_GetLineNodeDrag(l, n, a); MoorDyn_GetLineNodeFroudeKrilov(l, n, a); MoorDyn_GetLineNodeSeabedForce(l, n, a); MoorDyn_GetLineNodeCurv(l, n, &c); return MoorDyn_GetLineNodeM(l, n, M); });
				int b; api([&] { MoorDyn_IsLineConstantEA(l, &b); MoorDyn_IsLinePressBend(l, &b); MoorDyn_GetLineFairTen(l, &c); return MoorDyn_GetLineMaxTen(l, &c); });
			}
			break;
		}
		case 12: {
			std::vector<float> fa(m.lines.size() + 8), fb = fa, fc = fa, fd = fa;
			int nl = (int)m.lines.size();
			for (auto* v : { &fa, &fb, &fc, &fd }) for (size_t i = nl; i < v->size(); i++) (*v)[i] = 12345.f;
			api([&] { return MoorDyn_GetFASTtens(s.md, &nl, fa.data(), fb.data(), fc.data(), fd.data()); });
			for (auto* v : { &fa, &fb, &fc, &fd }) for (size_t i = nl; i < v->size(); i++) if ((*v)[i] != 12345.f) throw Violation{ "overrun", "GetFASTtens writes past the tensions asked for" };
			double d; api([&] { MoorDyn_GetDt(s.md, &d); return MoorDyn_GetCFL(s.md, &d); });
			size_t n; api([&] { return MoorDyn_GetTimeScheme(s.md, nullptr, &n); });
			std::vector<char> nm(n + 64, 0x5a); api([&] { return MoorDyn_GetTimeScheme(s.md, nm.data(), &n); });
			if (nm[n] != 0x5a) throw Violation{ "overrun", "GetTimeScheme writes past the bytes it announces" };
			if (!memchr(nm.data(), 0, n)) throw Violation{ "overrun", "the name of the scheme does not end within the bytes announced" };
			break;
		}
		case 13: {
			int v; unsigned n;
			for (size_t i = 0; i < m.bodies.size(); i++) { auto b = MoorDyn_GetBody(s.md, (unsigned)i + 1); api([&] { MoorDyn_GetBodyID(b, &v); return MoorDyn_GetBodyType(b, &v); }); }
			for (size_t i = 0; i < m.rods.size(); i++) { auto b = MoorDyn_GetRod(s.md, (unsigned)i + 1); api([&] { MoorDyn_GetRodID(b, &v); MoorDyn_GetRodType(b, &v); MoorDyn_GetRodN(b, &n); return MoorDyn_GetRodNumberNodes(b, &n); }); }
			for (size_t i = 0; i < m.points.size(); i++) { auto b = MoorDyn_GetPoint(s.md, (unsigned)i + 1); api([&] { MoorDyn_GetPointID(b, &v); return MoorDyn_GetPointType(b, &v); }); }
			for (size_t i = 0; i < m.lines.size(); i++) { auto b = MoorDyn_GetLine(s.md, (unsigned)i + 1); api([&] { MoorDyn_GetLineID(b, &v); MoorDyn_GetLineN(b, &n); return MoorDyn_GetLineNumberNodes(b, &n); }); }
			break;
		}
		default: { unsigned n; api([&] { MoorDyn_NCoupledDOF(s.md, &n); MoorDyn_GetNumberBodies(s.md, &n); MoorDyn_GetNumberRods(s.md, &n); MoorDyn_GetNumberPoints(s.md, &n); return MoorDyn_GetNumberLines(s.md, &n); }); }
	}
}
PROPERTY(C08)
{
	ModelOpts o; o.zero_rods = true;
	Model m = make_model(S, "a", o);
	Model m0 = quiet(m);
	S.ev("model %s", m.summary.c_str());
	S.mark(m.summary);
	Motion q = make_motion(S, m);
	double base = S.real(0.01, 0.06);
	int n = S.range(1, 8);
	Plan p = make_plan(S, m, q, n, base, 0.0, true);
	m0.install();
	Sys ref;
	start(S, ref, m0, q);
	std::vector<Obs> robs(n);
	for (int i = 0; i < n; i++) {
		if (!do_step(ref, p, i)) throw Discard{ "unstable" };
		robs[i].with_labels = true;
		ref.observe(robs[i]);
		trace_obs(S, robs[i]);
		S.simtime += p.dt[i];
	}
	auto st_end = ref.serialize();
	ref.close();
	// the observed one
	bool use_out = S.chance(3, 4);
	const Model& mm = use_out ? m : m0;
	fs().img.clear();
	mm.install();
	// storage faults on output and log files, at run time
	long from = -1, cnt = 0;
	int kind = (int)S.draw(5);
	Sys s;
	if (!s.create(mm)) throw Discard{ "create" };
	if (S.chance(1, 4)) peek(S, s);
	int ir = s.init(q);
	if (ir) throw Violation{ "init", fmt("the model starts without outputs but not with them (%d)", ir) };
	if (kind) {
		from = fs().nops + (long)S.draw(20);
		cnt = S.chance(1, 2) ? 1 + (long)S.draw(3) : 1000000;
	}
	long hits = 0;
	fs().hook = [&](const FsOp& op) {
		FsAct a;
		bool f = op.path.size() > 4 && (op.path.substr(op.path.size() - 4) == ".out" || op.path.substr(op.path.size() - 4) == ".log" || op.path.find("/log") != std::string::npos || op.path.find("peek.bin") != std::string::npos);
		if (!kind || !f || op.index < from || op.index >= from + cnt) return a;
		if (op.kind == FS_WRITE) { a.kind = kind == 3 ? FA_SHORT : FA_ERR; a.err = kind == 1 ? ENOSPC : EIO; a.n = op.len / 2; hits++; }
		else if (op.kind == FS_OPEN_W && kind == 4) { a.kind = FA_ERR; a.err = EACCES; hits++; }
		return a;
	};
	int peeks = 0;
	for (int i = 0; i < n; i++) {
		while (S.chance(2, 3) && peeks < 40) { peek(S, s); peeks++; }
		command(s, p, i);
		int r = s.step_x(p.x[i], p.xd[i], p.dt[i]);
		if (r) throw Violation{ "step", fmt("step %d failed with %d in the observed run only (%ld storage faults so far)", i, r, hits) };
		Obs ob; s.observe(ob);
		std::string d = diff_obs(robs[i], ob);
		if (!d.empty()) throw Violation{ "differs", fmt("step %d of the observed run: ", i) + d };
	}
	if (s.serialize() != st_end) throw Violation{ "differs", "the states at the end of the observed and the unobserved run differ" };
	fs().hook = nullptr;
	s.close();
	static const char* kn[] = { "", "disk full", "I/O error on write", "short write", "open fails" };
	if (hits) S.fault(std::string("output file: ") + kn[kind]);
	S.mark(fmt("%d %ld %d", kind, hits, peeks));
	S.nontrivial = use_out || peeks > 0;
	S.probe("scheme " + m.scheme);
}
