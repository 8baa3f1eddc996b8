// C05 start-up under garbled files, failing I/O and failing memory
#include "plan.hpp"
#include "garble.hpp"
#include <cerrno>
#include <climits>
std::vector<std::string> split_lines(const std::string& s)
{
	std::vector<std::string> r;
	size_t b = 0;
	while (b <= s.size()) {
		size_t e = s.find('\n', b);
		if (e == std::string::npos) { if (b < s.size()) r.push_back(s.substr(b)); break; }
		r.push_back(s.substr(b, e - b));
		b = e + 1;
	}
	return r;
}
std::string join_lines(const std::vector<std::string>& v, const char* eol)
{
	std::string s;
	for (auto& l : v) s += l + eol;
	return s;
}
// [begin, end) of the words of a line
std::vector<std::pair<size_t, size_t>> words(const std::string& l)
{
	std::vector<std::pair<size_t, size_t>> w;
	size_t i = 0;
	while (i < l.size()) {
		while (i < l.size() && isspace((unsigned char)l[i])) i++;
		size_t b = i;
		while (i < l.size() && !isspace((unsigned char)l[i])) i++;
		if (i > b) w.push_back({ b, i });
	}
	return w;
}

std::string garble(Sim& S, std::string t, std::string& what)
{
	auto ls = split_lines(t);
	auto line = [&]() -> size_t { return ls.empty() ? 0 : S.draw((uint32_t)ls.size()); };
	switch (S.draw(14)) {
		case 0: what = "truncated"; return t.substr(0, S.draw((uint32_t)t.size() + 1));
		case 1: { what = "truncated at a line"; size_t n = line(); ls.resize(n); return join_lines(ls); }
		case 2: { what = "lines lost"; size_t a = line(), n = 1 + S.draw(3); for (size_t i = 0; i < n && a < ls.size(); i++) ls.erase(ls.begin() + (long)a); return join_lines(ls); }
		case 3: { what = "line repeated"; if (ls.empty()) return t; size_t a = line(), b = line(); ls.insert(ls.begin() + (long)b, ls[a]); return join_lines(ls); }
		case 4: { what = "lines swapped"; if (ls.empty()) return t; size_t a = line(), b = line(); std::swap(ls[a], ls[b]); return join_lines(ls); }
		case 5: case 6: case 7: {
			what = "word replaced";
			static const std::vector<std::string> bad{ "abc", "-1", "0", "nan", "1e400", "-", ".", "inf", "1.5", "999", "Fixed", "Rod9A", "R1A", "Body9", "Coupled", "Free", "a|b", "1e5|0", "|", "1.0.0", "-1e-300", "0x10", "99999999999999999999", "L9N1T", "R1N99PX", "FAIRTEN9", "POINT7FX", "BODY3RX", "L", "R", "B", "\"", "#", "---", "no_such_file.txt", "2", "3", "4", "5", "6", "7" };
			if (ls.empty()) return t;
			std::string& l = ls[line()];
			auto w = words(l);
			if (w.empty()) return t;
			auto p = w[S.draw((uint32_t)w.size())];
			l.replace(p.first, p.second - p.first, S.pick(bad));
			return join_lines(ls);
		}
		case 8: {
			what = "word lost";
			if (ls.empty()) return t;
			std::string& l = ls[line()];
			auto w = words(l);
			if (w.empty()) return t;
			auto p = w[S.draw((uint32_t)w.size())];
			l.erase(p.first, p.second - p.first);
			return join_lines(ls);
		}
		case 9: {
			what = "words lost at the end of a line";
			if (ls.empty()) return t;
			std::string& l = ls[line()];
			auto w = words(l);
			if (w.empty()) return t;
			l.resize(w[S.draw((uint32_t)w.size())].first);
			return join_lines(ls);
		}
		case 10: {
			what = "bytes damaged";
			int n = 1 + (int)S.draw(4);
			for (int i = 0; i < n && !t.empty(); i++) {
				size_t p = S.draw((uint32_t)t.size());
				char c = (char)(S.chance(1, 2) ? S.draw(256) : (uint32_t)"-+.eE|, \t\n#x:"[S.draw(13)]);
				if (S.chance(1, 3)) t.insert(p, 1, c); else t[p] = c;
			}
			return t;
		}
		case 13: {
			what = "section of line failures";
			std::vector<std::string> f{ "--- FAILURE ---", "FailureID Point Lines FailTime FailTen", "() () (,) (s) (N)" };
			int n = (int)S.range(1, 2);
			for (int i = 0; i < n; i++) {
				std::string l = fmt("%d %s%d%s %d%s %s", i + 1, S.chance(1, 3) ? "R" : "", S.range(0, 3), S.chance(1, 3) ? "a" : "", S.range(0, 2), S.chance(1, 4) ? ",2" : "", S.chance(1, 2) ? "0.005" : "100");
				if (S.chance(3, 4)) l += S.chance(1, 2) ? " 0" : " 1e3";
				f.push_back(l);
			}
			size_t at = 0;
			while (at < ls.size() && ls[at].find("OPTIONS") == std::string::npos) at++;
			ls.insert(ls.begin() + (long)at, f.begin(), f.end());
			return join_lines(ls);
		}
		case 11: { what = "foreign contents"; size_t n = S.draw(400); t.clear(); for (size_t i = 0; i < n; i++) t += (char)S.draw(256); return t; }
		default: {
			what = "word of another line";
			if (ls.empty()) return t;
			std::string& l = ls[line()]; std::string& k = ls[line()];
			auto w = words(l), v = words(k);
			if (w.empty() || v.empty()) return t;
			auto p = w[S.draw((uint32_t)w.size())]; auto u = v[S.draw((uint32_t)v.size())];
			std::string r = k.substr(u.first, u.second - u.first);
			l.replace(p.first, p.second - p.first, r);
			return join_lines(ls);
		}
	}
}
// the last value given to an option
double opt(const std::string& t, const std::string& name, double def)
{
	for (auto& l : split_lines(t)) {
		auto w = words(l);
		if (w.size() >= 2 && l.substr(w[1].first, w[1].second - w[1].first) == name) def = atof(l.c_str() + w[0].first);
	}
	return def;
}
// Would the tables of waves asked for by the garbled files take for ever? (Legitimate, so not run.)
bool heavy(const std::string& was, const std::string& is)
{
	auto worst = [](const std::string& t) {
		double big = 0, small = 1e300;
		for (auto& l : split_lines(t))
			for (auto& w : words(l)) {
				double v = std::fabs(atof(l.c_str() + w.first));
				if (v > big) big = v;
				if (v > 0 && v < small) small = v;
			}
		return std::make_pair(big, small);
	};
	auto a = worst(was), b = worst(is);
	return b.first > 2 * a.first + 10 || b.second < a.second / 10;
}

PROPERTY(C05)
{
	ModelOpts o; o.zero_rods = true;
	o.max_lines = 2; o.max_segs = 4;
	Model m = make_model(S, "a", o);
	S.ev("model %s", m.summary.c_str());
	S.mark(m.summary);
	Motion q = make_motion(S, m);
	int n = S.range(1, 2);
	Plan p = make_plan(S, m, q, n, 0.02, 0.0, false);
	// the healthy start, before and after
	struct Healthy { std::vector<Obs> obs; FsImage img; std::string err; long allocs = 0; };
	auto healthy = [&](bool first) {
		Healthy h;
		fs().img.clear();
		m.install();
		g_mem.n = 0;
		Sys s;
		if (first) start(S, s, m, q);
		else {
			if (!s.create(m)) { h.err = "a healthy start after it gives no instance " + s.esc; return h; }
			if (int r = s.init(q)) { h.err = fmt("a healthy start after it fails with %d", r); return h; }
		}
		h.allocs = g_mem.n;
		for (int i = 0; i < n; i++) {
			if (!do_step(s, p, i)) { if (first) throw Discard{ "unstable" }; h.err = "a healthy run after it fails"; return h; }
			h.obs.push_back(Obs());
			h.obs.back().with_labels = true;
			s.observe(h.obs.back());
			S.simtime += p.dt[i];
		}
		s.close();
		h.img = fs().img;
		return h;
	};
	Healthy ref = healthy(true);
	int nbad = S.range(1, 3);
	for (int k = 0; k < nbad; k++) {
		fs().img.clear();
		m.install();
		std::string what, file = m.file;
		bool noic = m.noic, must = false, mustfail = false;
		int kind = (int)S.draw(8);
		std::vector<std::string> aux;
		for (auto& kv : m.files) if (kv.first != m.file) aux.push_back(kv.first);
		long hits = 0;
		bool endless = false;
		if (kind <= 2) { // the main file
			int times = S.chance(1, 4) ? 2 : 1;
			for (int j = 0; j < times; j++) fs().img[m.file] = garble(S, fs().img[m.file], what);
			what = "main file: " + what;
		} else if (kind == 3 || kind == 4) {
			if (aux.empty()) { fs().img.erase(m.file); what = "main file missing"; mustfail = true; }
			else {
				std::string f = S.pick(aux);
				if (S.chance(1, 4)) { fs().img.erase(f); what = "auxiliary file missing"; }
				else {
					fs().img[f] = garble(S, fs().img[f], what);
					what = "auxiliary file: " + what;
					endless = (f.find("wave_") != std::string::npos || f.find("grid") != std::string::npos) && heavy(m.files[f], fs().img[f]);
				}
			}
		} else if (kind == 5) { // storage
			int mode = (int)S.draw(6);
			long skip = (long)S.draw(mode == 2 ? 12 : 6);
			bool persist = S.chance(1, 3);
			static const char* nm[] = { "opening an input fails", "reading fails", "reading comes up short", "opening an output fails", "writing fails at start", "reading breaks off" };
			what = nm[mode];
			must = mode == 2;
			uint32_t cut = S.draw(4096);
			std::string broken;
			fs().hook = [&, mode, persist, cut, skip, broken](const FsOp& op) mutable {
				FsAct a;
				if (mode == 5) { // a part of a file is read, and then an error is met
					if (op.kind != FS_READ) return a;
					if (broken == op.path) { hits++; a.kind = FA_ERR; a.err = EIO; return a; }
					if (skip-- != 0) return a;
					broken = op.path; a.kind = FA_SHORT; a.n = cut;
					return a;
				}
				FsOpKind w = mode == 0 ? FS_OPEN_R : mode <= 2 ? FS_READ : mode == 3 ? FS_OPEN_W : FS_WRITE;
				if (op.kind != w) return a;
				if (skip-- > 0) return a;
				if (!persist && skip < -1) return a;
				hits++;
				if (mode == 2) { a.kind = FA_SHORT; a.n = cut; }
				else { a.kind = FA_ERR; a.err = mode == 4 ? ENOSPC : EIO; }
				return a;
			};
		} else { // memory
			what = "allocation fails";
			g_mem.n = 0; g_mem.failed = 0;
			g_mem.fail_at = (long)S.draw((uint32_t)ref.allocs + 1);
			static const std::vector<long> cnt{ 1, 1, 2, 5, 50, LONG_MAX / 2 };
			g_mem.fail_count = S.pick(cnt);
		}
		S.ev("attempt %d: %s", k, what.c_str());
		g_escape.clear();
		MoorDyn md = apip([&] { return MoorDyn_Create(file.c_str()); });
		if (!g_escape.empty()) throw Violation{ "create-escape", what + ": an exception left the creation: " + g_escape };
		int rc = -100;
		bool ran = false;
		if (md) {
			unsigned nd = 0;
			double dt = 0;
			long fa = g_mem.fail_at; g_mem.fail_at = -1; // only looking
			api([&] { return MoorDyn_NCoupledDOF(md, &nd); });
			api([&] { return MoorDyn_GetDt(md, &dt); });
			double nodes = 0;
			unsigned nl = 0;
			api([&] { return MoorDyn_GetNumberLines(md, &nl); });
			for (unsigned i = 1; i <= nl; i++) { unsigned N = 0; api([&] { return MoorDyn_GetLineN(MoorDyn_GetLine(md, i), &N); }); nodes += N; }
			g_mem.fail_at = fa;
			std::vector<double> x(nd), xd(nd, 0.0), f(nd, 0.0);
			for (unsigned i = 0; i < nd; i++) x[i] = i < m.x0.size() ? m.x0[i] : 0.0;
			const bool whole = kind >= 5 && nd == m.ncpl();
			if (whole) q.at(0.0, x, xd);
			auto slow = [&](double h) { return h > 0 && h < 1e-4; }; // a garbled number may legitimately ask for an endless computation
			if (!slow(dt) && nodes < 2000 && !endless) {
				if (!noic && kind <= 4) { // how long would the generation of the initial condition take?
					MoorDyn md2 = apip([&] { return MoorDyn_Create(file.c_str()); });
					double h = 0;
					if (md2 && api([&] { return MoorDyn_Init_NoIC(md2, x.data(), xd.data()); }) == 0) api([&] { return MoorDyn_GetDt(md2, &h); });
					if (md2) api([&] { return MoorDyn_Close(md2); });
					double T = opt(fs().img[m.file], "TmaxIC", 120), w = opt(fs().img[m.file], "dtIC", 1);
					if (slow(h) || T > 20 || w > 20 || (w > 0 && T / w > 1e4)) noic = true;
				}
				rc = api([&] { return noic ? MoorDyn_Init_NoIC(md, x.data(), xd.data()) : MoorDyn_Init(md, x.data(), xd.data()); });
				if (rc == ESCAPED) throw Violation{ "init-escape", what + ": an exception left the initialisation: " + g_escape };
				g_mem.fail_at = -1;
				api([&] { return MoorDyn_GetDt(md, &dt); });
				if (rc == 0 && kind >= 5) {
					// nothing is wrong with the files: what runs must be what they describe
					ran = true;
					unsigned nb = 0, nr = 0, np = 0;
					api([&] { return MoorDyn_GetNumberBodies(md, &nb); });
					api([&] { return MoorDyn_GetNumberRods(md, &nr); });
					api([&] { return MoorDyn_GetNumberPoints(md, &np); });
					if (!whole || nb != m.bodies.size() || nr != m.rods.size() || np != m.points.size() || nl != m.lines.size())
						throw Violation{ "partial", what + fmt(": a simulation with %u bodies, %u rods, %u points and %u lines was started instead of the one described", nb, nr, np, nl) };
					Sys s; s.md = md; s.m = &m; s.f.assign(m.ncpl() + 64, 0.0);
					for (int i = 0; i < n; i++) {
						if (!do_step(s, p, i)) { if (s.rc == ESCAPED) throw Violation{ "step-escape", what + ": an exception left a step: " + g_escape }; break; }
						Obs ob; ob.with_labels = true; s.observe(ob);
						std::string d = diff_obs(ref.obs[i], ob);
						if (!d.empty()) throw Violation{ "partial", what + fmt(": the start is reported as fine, but step %d gives other results: ", i + 1) + d };
					}
				} else if (rc == 0) {
					ran = true;
					double t = 0;
					for (int i = 0; i < 2 && !slow(dt); i++) {
						double h = 0.01;
						int r = api([&] { return MoorDyn_Step(md, x.data(), xd.data(), f.data(), &t, &h); });
						if (r == ESCAPED) throw Violation{ "step-escape", what + ": an exception left a step: " + g_escape };
					}
				}
			}
			g_mem.fail_at = -1;
			int r = api([&] { return MoorDyn_Close(md); });
			if (r == ESCAPED) throw Violation{ "close-escape", what + ": an exception left the closing: " + g_escape };
		}
		bool memhit = g_mem.fail_at >= 0 ? g_mem.failed > 0 : kind >= 6 && g_mem.failed > 0;
		g_mem.fail_at = -1;
		fs().hook = nullptr;
		S.ev("-> %s, init %d", md ? "instance" : "no instance", rc);
		S.mark(fmt("%d %d", (int)(md != nullptr), rc));
		if (kind <= 4 || hits || memhit) { S.fault(what); S.nontrivial = true; }
		S.probe(ran ? "started" : md ? "refused by initialisation" : "refused by creation");
		if (must && !ran) throw Violation{ "spurious", what + ": the start failed although every byte could be read" };
		if (mustfail && md) throw Violation{ "accepted", what + ": an instance was given" };
	}
	Healthy again = healthy(false);
	if (!again.err.empty()) throw Violation{ "later-start", again.err };
	for (int i = 0; i < n; i++) {
		std::string d = diff_obs(ref.obs[i], again.obs[i]);
		if (!d.empty()) throw Violation{ "later-start", fmt("a healthy start after it, step %d: ", i) + d };
		trace_obs(S, again.obs[i]);
	}
	if (ref.img != again.img) throw Violation{ "later-start", "a healthy start after it writes other files" };
}
