// C03 a save is complete or reported, C04 damaged and foreign checkpoints are refused
#include "plan.hpp"
#include <cerrno>

PROPERTY(C03)
{
	ModelOpts o; o.zero_rods = true;
	o.max_segs = S.chance(1, 3) ? 24 : 6; // some states larger than the stream buffers
	Model m = make_model(S, "a", o);
	m.install();
	S.ev("model %s", m.summary.c_str());
	Motion q = make_motion(S, m);
	double base = S.real(0.01, 0.06);
	int n = S.range(1, 4);
	Plan p = make_plan(S, m, q, n, base, 0.0, true);
	int at = (int)S.draw((uint32_t)n + 1);
	// reference run: never saves
	Sys ref;
	start(S, ref, m, q);
	std::vector<Obs> robs(n);
	std::vector<uint64_t> st_at, st_end;
	if (at == 0) st_at = ref.serialize();
	for (int i = 0; i < n; i++) {
		if (!do_step(ref, p, i)) throw Discard{ "unstable" };
		robs[i].with_labels = true;
		ref.observe(robs[i]);
		if (i + 1 == at) st_at = ref.serialize();
		S.simtime += p.dt[i];
	}
	st_end = ref.serialize();
	ref.close();
	fs().img.clear();
	m.install();
	// the run that saves
	Sys s;
	start(S, s, m, q);
	const std::string ck = m.dir + "state.bin";
	if (S.chance(1, 3)) fs().img[ck] = std::string(S.draw(4000), 'x'); // an older file with the same name
	int attempts = 0;
	for (int i = 0; i <= n; i++) {
		if (i == at) {
			int tries = S.range(1, 3);
			for (int k = 0; k < tries; k++) {
				attempts++;
				// which operation of the save goes wrong, and how
				int kind = (int)S.draw(8);
				long victim = fs().nops + (kind == 1 ? 0 : (long)S.draw(kind == 6 ? 4 : 12));
				size_t cut = S.draw(8192);
				bool persistent = S.chance(1, 2);
				bool hit = false, shortw = false;
				fs().hook = [&](const FsOp& op) {
					FsAct a;
					if (op.path != ck) return a;
					bool me = persistent ? op.index >= victim : op.index == victim;
					if (!me) return a;
					if (kind == 1 && op.kind == FS_OPEN_W) { a.kind = FA_ERR; a.err = EACCES; hit = true; }
					if (kind == 2 && op.kind == FS_WRITE) { a.kind = FA_ERR; a.err = ENOSPC; hit = true; }
					if (kind == 3 && op.kind == FS_WRITE) { a.kind = FA_ERR; a.err = EIO; hit = true; }
					if (kind == 4 && op.kind == FS_WRITE && op.len > 1) { a.kind = FA_SHORT; a.n = cut; shortw = true; }
					if (kind == 5 && op.kind == FS_WRITE) { // part of it is written, nothing more fits
						if (!shortw && op.len > 1) { a.kind = FA_SHORT; a.n = cut; shortw = true; victim = op.index; persistent = true; }
						else { a.kind = FA_ERR; a.err = ENOSPC; hit = true; }
					}
					if (kind == 6 && op.kind == FS_CLOSE) { a.kind = FA_ERR; a.err = EIO; hit = true; }
					return a;
				};
				if (kind == 7) { g_mem.n = 0; g_mem.failed = 0; g_mem.fail_at = (long)S.draw(400); g_mem.fail_count = persistent ? 3 : 1; }
				int r = api([&] { return MoorDyn_Save(s.md, ck.c_str()); });
				g_mem.fail_at = -1;
				bool memhit = kind == 7 && g_mem.failed > 0;
				fs().hook = nullptr;
				S.ev("save, fault kind %d%s%s -> %d", kind, hit ? " hit" : "", shortw ? " short" : "", r);
				static const char* kn[] = { "none", "open fails", "disk full", "I/O error on write", "short write", "short write then disk full", "error on close", "allocation fails" };
				if (hit || shortw || memhit) { S.fault(kn[kind]); S.nontrivial = true; }
				S.mark(fmt("k%d%d%d r%d", kind, hit, (int)persistent, r != 0));
				if (r == ESCAPED) throw Violation{ "save-escape", "an exception left the save call: " + g_escape };
				if (r == MOORDYN_SUCCESS) {
					if (hit) throw Violation{ "save-silent", fmt("saving reported success although %s", kn[kind]) };
					// what is on the disk now has to be everything
					Sys l;
					if (!l.create(m) || l.init(q)) throw Discard{ "init" };
					int lr = api([&] { return MoorDyn_Load(l.md, ck.c_str()); });
					if (lr) throw Violation{ "save-incomplete", fmt("a file saved with success cannot be loaded (%d)%s", lr, shortw ? ", one write was short" : "") };
					if (l.serialize() != st_at) throw Violation{ "save-wrong", "a file saved with success does not restore the saved state" };
					l.close();
				} else {
					if (!hit && !memhit) throw Violation{ "save-spurious", fmt("saving failed with %d on a healthy disk%s", r, shortw ? " that accepted writes in pieces" : "") };
				}
			}
		}
		if (i == n) break;
		command(s, p, i);
		int r = s.step_x(p.x[i], p.xd[i], p.dt[i]);
		if (r) throw Violation{ "save-affects", fmt("step %d failed with %d after a save", i, r) };
		Obs ob; s.observe(ob); trace_obs(S, ob);
		std::string d = diff_obs(robs[i], ob);
		if (!d.empty()) throw Violation{ "save-affects", fmt("after a save at step %d, step %d: ", at, i) + d };
	}
	if (s.serialize() != st_end) throw Violation{ "save-affects", "the state at the end differs from a run without saves" };
	s.close();
}

PROPERTY(C04)
{
	ModelOpts o; o.zero_rods = true;
	Model m = make_model(S, "a", o);
	m.install();
	S.ev("model %s", m.summary.c_str());
	Motion q = make_motion(S, m);
	double base = S.real(0.01, 0.06);
	int n = S.range(1, 4);
	Plan p = make_plan(S, m, q, n, base, 0.0, true);
	int at = (int)S.draw((uint32_t)n);
	Sys ref;
	start(S, ref, m, q);
	std::vector<Obs> robs(n);
	const std::string ck = m.dir + "state.bin";
	int saved = (int)S.draw((uint32_t)n);
	size_t state_size = 0;
	for (int i = 0; i < n; i++) {
		if (i == saved) { if (api([&] { return MoorDyn_Save(ref.md, ck.c_str()); })) throw Violation{ "save", "saving failed" }; state_size = ref.serialize().size(); }
		if (!do_step(ref, p, i)) throw Discard{ "unstable" };
		robs[i].with_labels = true;
		ref.observe(robs[i]);
		S.simtime += p.dt[i];
	}
	auto st_end = ref.serialize();
	std::string good = fs().img[ck];
	ref.close();
	// a checkpoint of another model
	std::string foreign;
	{
		Model m2 = make_model(S, "b", o);
		m2.install();
		Motion q2 = make_motion(S, m2);
		Sys t;
		if (t.create(m2) && t.init(q2) == 0) {
			const std::string f2 = m2.dir + "state.bin";
			api([&] { return MoorDyn_Save(t.md, f2.c_str()); });
			if (t.serialize().size() != state_size) foreign = fs().img[f2];
		}
		t.close();
	}
	fs().img.clear();
	m.install();
	Sys s;
	start(S, s, m, q);
	for (int i = 0; i < n; i++) {
		if (i == at) {
			int tries = S.range(1, 3);
			for (int k = 0; k < tries; k++) {
				std::string f = good, what;
				int kind = (int)S.draw(13);
				bool must_fail = true, exists = true, readerr = false, memf = false;
				switch (kind) {
					case 0: f = good.substr(0, S.draw((uint32_t)good.size())); what = "truncated"; break;
					case 1: exists = false; what = "missing"; break;
					case 2: readerr = true; what = "I/O error while reading"; break;
					case 3: f[S.draw(7)] ^= (char)(1 + S.draw(255)); what = "not a checkpoint (signature)"; break;
					case 4: f[7] = (char)S.draw(2); what = "older major version"; break;
					case 5: f[8] = (char)S.draw((uint32_t)(unsigned char)good[8]); what = "older minor version"; if ((unsigned char)good[8] == 0) must_fail = false; break;
					case 6: f[9 + S.draw(8)] ^= (char)(1 + S.draw(255)); what = "declared size damaged"; break;
					case 7: f += std::string(1 + S.draw(64), (char)S.draw(256)); what = "trailing bytes"; break;
					case 8: { size_t l = S.draw(300); f.clear(); for (size_t j = 0; j < l; j++) f += (char)S.draw(256); what = "random bytes"; if (f.compare(0, 7, "MoorDyn") == 0) must_fail = false; break; }
					case 9: if (foreign.empty()) { f = ""; what = "empty"; } else { f = foreign; what = "checkpoint of another model"; } break;
					case 10: { // whole values lost, with a consistent size field
						uint64_t w = state_size - 1 - S.draw((uint32_t)state_size - 1);
						f = good.substr(0, 17 + 8 * w); memcpy(&f[9], &w, 8); what = "values missing, consistent size field"; break; }
					case 11: { uint64_t w = state_size + 1 + S.draw(40); f.resize(17 + 8 * w, (char)S.draw(256)); memcpy(&f[9], &w, 8); what = "extra values, consistent size field"; break; }
					default: memf = true; what = "allocation fails"; must_fail = false; break;
				}
				if (exists) fs().img[ck] = f; else fs().img.erase(ck);
				bool hit = false;
				if (readerr) {
					int mode = (int)S.draw(3);
					long skip = (long)S.draw(4);
					fs().hook = [&, mode, skip](const FsOp& op) mutable {
						FsAct a;
						if (op.path != ck) return a;
						if (mode == 0 && op.kind == FS_OPEN_R) { a.kind = FA_ERR; a.err = EACCES; hit = true; }
						if (mode == 1 && op.kind == FS_READ && skip-- <= 0) { a.kind = FA_ERR; a.err = EIO; hit = true; }
						if (mode == 2 && op.kind == FS_SEEK && skip-- <= 0) { a.kind = FA_ERR; a.err = EIO; hit = true; }
						return a;
					};
				}
				auto before = s.serialize();
				if (memf) { g_mem.n = 0; g_mem.failed = 0; g_mem.fail_at = (long)S.draw(300); }
				int r = api([&] { return MoorDyn_Load(s.md, ck.c_str()); });
				g_mem.fail_at = -1;
				fs().hook = nullptr;
				if (readerr) must_fail = hit;
				S.ev("load: %s -> %d", what.c_str(), r);
				S.fault(what);
				S.mark(fmt("k%d r%d", kind, r != 0));
				S.nontrivial = true;
				if (r == ESCAPED) throw Violation{ "load-escape", "loading a file (" + what + "): an exception left the call: " + g_escape };
				if (r == MOORDYN_SUCCESS && must_fail) throw Violation{ "load-accepts", "a damaged checkpoint was accepted: " + what };
				if (r == MOORDYN_SUCCESS) { s.deserialize(before); continue; } // legitimate load: go back
				if (s.serialize() != before && !(memf))
					throw Violation{ "load-side-effect", "a refused checkpoint (" + what + ") changed the state of the simulation" };
				if (memf && s.serialize() != before) s.deserialize(before);
			}
		}
		command(s, p, i);
		int r = s.step_x(p.x[i], p.xd[i], p.dt[i]);
		if (r) throw Violation{ "load-side-effect", fmt("step %d failed with %d after a refused load", i, r) };
		Obs ob; s.observe(ob); trace_obs(S, ob);
		std::string d = diff_obs(robs[i], ob);
		if (!d.empty()) throw Violation{ "load-side-effect", fmt("after a refused load before step %d, step %d: ", at, i) + d };
	}
	if (s.serialize() != st_end) throw Violation{ "load-side-effect", "the state at the end differs from a run without the refused loads" };
	s.close();
}
