// C20 a closed simulation gives everything back
#include "plan.hpp"
#include "garble.hpp"
#include <cerrno>
#include <climits>
extern "C" {
#include "Line.h"
#include "Waves.h"
}
namespace {
struct Op { int kind = 0; double a = 0, b = 0; int i = 0; };
struct Life {
	FsImage img;
	bool old = false, noic = false, twice = false;
	int stage = 2;            // 0: created only, 1: initialised, 2: run
	std::vector<Op> ops;
	// disk
	int mode = -1;            // 0 opening an input, 1 reading, 2 opening an output, 3 writing, 4 short reads
	long skip = 0; bool persist = false; size_t cut = 0;
	long fail_at = -1, fail_count = 1;
	bool endless = false;
};
struct Left { long live = 0; size_t bytes = 0; int fds = 0; long hits = 0, failed = 0, allocs = 0; int got = 0; std::string out; bool wrote = false; };
} // namespace

PROPERTY(C20)
{
	ModelOpts o; o.zero_rods = true;
	o.max_lines = 2; o.max_segs = 4;
	o.external = S.chance(1, 5);
	o.logfile = S.chance(1, 2);
	Model m = make_model(S, "a", o);
	S.ev("model %s", m.summary.c_str());
	S.mark(m.summary);
	Motion q = make_motion(S, m);
	int nl = S.range(1, 2);
	for (int k = 0; k < nl; k++) {
		Life L;
		std::string what;
		for (auto& kv : m.files) L.img[kv.first] = kv.second;
		L.old = S.chance(1, 4);
		L.noic = m.noic && !L.old;
		L.twice = S.chance(1, 6);
		L.stage = S.chance(1, 6) ? (int)S.draw(2) : 2;
		int n = S.range(1, 6);
		for (int i = 0; i < n; i++) {
			Op c;
			c.kind = (int)S.draw(11);
			c.a = S.real(0.001, 0.02);
			c.i = (int)S.draw(4);
			L.ops.push_back(c);
		}
		int kind = (int)S.draw(8);
		std::vector<std::string> aux;
		for (auto& kv : m.files) if (kv.first != m.file) aux.push_back(kv.first);
		if (kind == 0 || kind == 1) {
			L.img[m.file] = garble(S, L.img[m.file], what);
			what = "main file: " + what;
		} else if (kind == 2 && !aux.empty()) {
			std::string f = S.pick(aux);
			if (S.chance(1, 3)) { L.img.erase(f); what = "auxiliary file missing"; }
			else {
				L.img[f] = garble(S, L.img[f], what);
				what = "auxiliary file: " + what;
				L.endless = (f.find("wave_") != std::string::npos || f.find("grid") != std::string::npos) && heavy(m.files[f], L.img[f]);
			}
		} else if (kind == 3) {
			L.mode = (int)S.draw(5);
			L.skip = (long)S.draw(L.mode == 3 ? 12 : 6);
			L.persist = S.chance(1, 3);
			L.cut = S.draw(4096);
			static const char* nm[] = { "opening an input fails", "reading fails", "opening an output fails", "writing fails", "reading comes up short" };
			what = nm[L.mode];
		} else if (kind >= 5) what = "allocation fails";
		else what = "no fault";

		auto live = [&](const Life& L) -> Left {
			Left r;
			fs().img = L.img;
			fs().hook = nullptr;
			long skip = L.skip;
			if (L.mode >= 0) fs().hook = [&, skip](const FsOp& op) mutable {
				FsAct a;
				FsOpKind w = L.mode == 0 ? FS_OPEN_R : L.mode == 1 || L.mode == 4 ? FS_READ : L.mode == 2 ? FS_OPEN_W : FS_WRITE;
				if (op.kind != w) return a;
				if (skip-- > 0) return a;
				if (!L.persist && skip < -1) return a;
				r.hits++;
				if (L.mode == 4) { a.kind = FA_SHORT; a.n = L.cut; }
				else { a.kind = FA_ERR; a.err = L.mode == 3 ? ENOSPC : EIO; }
				return a;
			};
			g_mem.n = 0; g_mem.failed = 0; g_mem.fail_count = L.fail_count; g_mem.fail_at = L.fail_at;
			unsigned nd = (unsigned)m.x0.size();
			std::vector<double> x(256, 0.0), xd(256, 0.0), f(256, 0.0);
			for (unsigned i = 0; i < nd; i++) x[i] = m.x0[i];
			MoorDyn md = nullptr;
			int rc = -100;
			double t = 0;
			auto quiet = [&](auto fn) { long fa = g_mem.fail_at, nn = g_mem.n; g_mem.fail_at = -1; fn(); g_mem.fail_at = fa; g_mem.n = nn; };
			bool run = !L.endless;
			if (run) { // would this life last for ever? (looking only, with a healthy machine)
				auto hk = fs().hook; fs().hook = nullptr;
				quiet([&] {
					MoorDyn p = apip([&] { return MoorDyn_Create(m.file.c_str()); });
					if (p) {
						double h = 0; unsigned ln = 0; double nodes = 0; unsigned d = 0;
						api([&] { return MoorDyn_NCoupledDOF(p, &d); });
						api([&] { return MoorDyn_GetDt(p, &h); });
						api([&] { return MoorDyn_GetNumberLines(p, &ln); });
						for (unsigned i = 1; i <= ln; i++) { unsigned N = 0; api([&] { return MoorDyn_GetLineN(MoorDyn_GetLine(p, i), &N); }); nodes += N; }
						if ((h > 0 && h < 1e-4) || nodes > 2000 || d > 250) run = false;
						if (run) {
							if (api([&] { return MoorDyn_Init_NoIC(p, x.data(), xd.data()); }) == 0) api([&] { return MoorDyn_GetDt(p, &h); });
							double T = opt(L.img.count(m.file) ? L.img.at(m.file) : "", "TmaxIC", 120), w = opt(L.img.count(m.file) ? L.img.at(m.file) : "", "dtIC", 1);
							if (h > 0 && h < 1e-4) run = false;
							if (!L.noic && (T > 20 || w > 20 || (w > 0 && T / w > 1e4))) run = false;
						}
						api([&] { return MoorDyn_Close(p); });
					}
				});
				fs().img = L.img;
				fs().hook = hk;
			}
			g_mem.n = 0; g_mem.failed = 0;
			if (L.old) {
				if (run) {
					rc = api([&] { return MoorDynInit(x.data(), xd.data(), m.file.c_str()); });
					if (rc == 0 && L.twice) rc = api([&] { return MoorDynInit(x.data(), xd.data(), m.file.c_str()); });
					if (rc == 0) for (auto& c : L.ops) {
						double dt = c.kind == 0 ? 0.0 : c.a;
						api([&] { return MoorDynStep(x.data(), xd.data(), f.data(), &t, &dt); });
						if (c.kind == 5 && !m.lines.empty()) api([&] { return (int)GetFairTen(c.i); });
					}
					r.got = rc;
				}
				g_mem.fail_at = -1;
				api([&] { return MoorDynClose(); });
				if (L.twice) api([&] { return MoorDynClose(); });
			} else {
				md = apip([&] { return MoorDyn_Create(m.file.c_str()); });
				r.got = md ? 1 : 0;
				if (md) {
					if (run && L.stage >= 1) {
						rc = api([&] { return L.noic ? MoorDyn_Init_NoIC(md, x.data(), xd.data()) : MoorDyn_Init(md, x.data(), xd.data()); });
						r.got = 1000 + rc;
						if (L.stage >= 2 && rc == 0) {
							std::vector<uint64_t> mem;
							unsigned nw = 0;
							for (auto& c : L.ops) {
								double dt = c.a;
								switch (c.kind) {
									case 0: case 1: case 2: case 3: api([&] { return MoorDyn_Step(md, x.data(), xd.data(), f.data(), &t, &dt); }); break;
									case 4: { auto y = x; for (auto& v : y) v = c.i % 2 ? NAN : 1e200; api([&] { return MoorDyn_Step(md, y.data(), xd.data(), f.data(), &t, &dt); }); break; }
									case 5: api([&] { return MoorDyn_Save(md, "/sim/life.bin"); }); break;
									case 6: api([&] { return MoorDyn_Load(md, c.i % 2 ? "/sim/life.bin" : m.file.c_str()); }); break;
									case 7: {
										static const char* sch[] = { "euler", "RK4", "AB3", "nope" };
										if (api([&] { return MoorDyn_SetTimeScheme(md, sch[c.i]); }) == 0) mem.clear(); // (a state of another scheme: no size comes with it, so giving it back is misuse)
										break;
									}
									case 8: {
										size_t sz = 0;
										if (mem.empty()) { if (api([&] { return MoorDyn_Serialize(md, &sz, NULL); }) == 0 && sz < (1u << 24)) { mem.resize(sz / 8 + 1); if (api([&] { return MoorDyn_Serialize(md, NULL, mem.data()); })) mem.clear(); } }
										else api([&] { return MoorDyn_Deserialize(md, mem.data()); });
										break;
									}
									case 9: {
										if (m.waveKin != 1) break;
										if (api([&] { return MoorDyn_ExternalWaveKinInit(md, &nw); }) == 0 && nw && nw < 10000) {
											std::vector<double> U(3 * nw, 0.1);
											api([&] { return MoorDyn_ExternalWaveKinSet(md, U.data(), U.data(), t); });
										}
										break;
									}
									default: {
										double U[3], A[3], z, pd;
										MoorDynWaves w = apip([&] { return MoorDyn_GetWaves(md); });
										if (w) api([&] { return MoorDyn_GetWavesKin(w, 1.0, 2.0, -3.0, U, A, &z, &pd, NULL); });
										if (c.i % 2) api([&] { return MoorDyn_Init(md, NULL, NULL); });
									}
								}
							}
						}
						if (rc == 0 && L.twice && L.fail_at < 0) api([&] { return MoorDyn_Init_NoIC(md, x.data(), xd.data()); });
					}
					r.failed = g_mem.failed;
					r.allocs = g_mem.n;
					g_mem.fail_at = -1;
					api([&] { return MoorDyn_Close(md); });
				}
			}
			if (!r.failed) r.failed = g_mem.failed;
			if (!r.allocs) r.allocs = g_mem.n;
			g_mem.fail_at = -1;
			fs().hook = nullptr;
			r.live = g_mem.live; r.bytes = g_mem.live_bytes; r.fds = fs().open_fds;
			return r;
		};
		mem_forget();
		g_mem.track = true;
		int fds0 = fs().open_fds;
		if (what == "allocation fails") {
			Left h = live(L);
			L.fail_at = (long)S.draw((uint32_t)h.allocs + 1);
			static const std::vector<long> cnt{ 1, 1, 2, 5, 50, LONG_MAX / 2 };
			L.fail_count = S.pick(cnt);
		}
		S.ev("life %d: %s%s%s, up to stage %d", k, what.c_str(), L.old ? ", legacy" : "", L.twice ? ", twice" : "", L.stage);
		// what is taken once per process (tables, locales) is taken the first time
		Left a = live(L), b = live(L), c = live(L);
		g_mem.track = false;
		S.ev("-> %d, left %ld, %ld, %ld blocks", a.got, a.live, b.live, c.live);
		S.mark(fmt("%s %d %d", what.c_str(), a.got, (int)L.old));
		if (what != "no fault" && (L.mode < 0 || b.hits) && (L.fail_at < 0 || b.failed)) { S.fault(what); S.nontrivial = true; }
		if (what == "no fault") { S.nontrivial = true; S.probe("healthy life"); }
		S.probe(L.old ? "legacy" : a.got < 1 ? "refused by creation" : a.got == 1 ? "created" : a.got == 1000 ? "run" : "refused by initialisation");
		if (a.got != b.got || b.got != c.got) throw Violation{ "repeat", what + fmt(": the same life ends with %d, %d and %d when repeated", a.got, b.got, c.got) };
		if (c.live > b.live && b.live > a.live) throw Violation{ "memory", what + fmt(": %ld blocks (%zu bytes) are left behind by every such life", c.live - b.live, c.bytes - b.bytes) };
		if (c.fds != fds0) throw Violation{ "files", what + fmt(": %d files are left open", c.fds - fds0) };
		if (!what.compare("no fault") && !L.old && L.stage >= 1 && a.got == 1000)
			for (auto& kv : fs().img)
				if (!L.img.count(kv.first) && kv.first.size() > 4 && kv.first.substr(kv.first.size() - 4) == ".out" && (kv.second.empty() || kv.second.back() != '\n'))
					throw Violation{ "torn", kv.first + " is not complete after closing" };
	}
}
