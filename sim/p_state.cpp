// C01 checkpoint restart, C02 in-memory rollback, C10 clock
#include "plan.hpp"

PROPERTY(C10)
{
	ModelOpts o; o.zero_rods = true;
	Model m = make_model(S, "a", o);
	m.install();
	S.ev("model %s", m.summary.c_str());
	Motion q = make_motion(S, m);
	Sys s;
	start(S, s, m, q);
	S.mark(m.summary);
	double base = S.real(0.01, 0.08);
	int n = S.range(3, S.thorough() ? 40 : 14);
	double expect = s.t, sum = 0;
	for (int i = 0; i < n; i++) {
		if (S.chance(1, 5)) { // a zero or negative step
			double dt = S.chance(1, 2) ? 0.0 : -S.real(0.001, 0.1);
			Obs a, b; a.with_labels = true;
			s.observe(a, O_KIN);
			auto st1 = s.serialize();
			FsImage img = fs().img;
			q.at(s.t + 0.05, s.x, s.xd);
			double tb = s.t;
			int r = s.step_x(s.x, s.xd, dt);
			S.ev("empty step %g -> %d", dt, r);
			if (r == MOORDYN_SUCCESS) {
				if (!same_bits(tb, s.t)) throw Violation{ "clock", fmt("a step of %g s moved the reported time from %.17g to %.17g", dt, tb, s.t) };
				s.observe(b, O_KIN);
				std::string d = diff_obs(a, b);
				if (!d.empty()) throw Violation{ "empty-step", "a step of no duration changed the state: " + d };
				if (s.serialize() != st1) throw Violation{ "empty-step", "a step of no duration changed the saved state" };
				if (fs().img != img) throw Violation{ "empty-step", "a step of no duration changed an output file" };
			}
			S.nontrivial = true;
			S.mark("e");
			continue;
		}
		double dt = pick_dt(S, m, base);
		double t0 = s.t;
		int r = s.step(q, dt);
		S.ev("step %.17g -> %d t=%.17g", dt, r, s.t);
		if (r != MOORDYN_SUCCESS || !s.finite()) throw Discard{ "unstable" };
		sum += dt;
		expect += dt;
		double tol = 1e-9 * (1 + std::fabs(expect)) ;
		if (!(std::fabs(s.t - t0 - dt) <= 1e-10 * (1 + expect)) || !(std::fabs(s.t - expect) <= tol))
			throw Violation{ "clock", fmt("after coupling steps adding up to %.12g s the reported time is %.12g (scheme %s, step %g)", expect, s.t, m.scheme.c_str(), dt) };
		S.simtime += dt;
		Obs ob; s.observe(ob); trace_obs(S, ob);
		S.mark(fmt("s%d", (int)std::log2(dt / m.dtEst)));
	}
	S.nontrivial = true;
	S.probe("scheme " + m.scheme);
	s.close();
}

PROPERTY(C02)
{
	ModelOpts o; o.zero_rods = true;
	Model m = make_model(S, "a", o);
	m.install();
	S.ev("model %s", m.summary.c_str());
	Motion q = make_motion(S, m), q2 = make_motion(S, m);
	Sys s;
	start(S, s, m, q);
	S.mark(m.summary);
	double base = S.real(0.01, 0.08);
	int pre = (int)S.draw(5);
	Plan p0 = make_plan(S, m, q, pre, base, s.t, true).lengths_only();
	for (int i = 0; i < pre; i++) { if (!do_step(s, p0, i)) throw Discard{ "unstable" }; S.simtime += p0.dt[i]; }
	// capture
	int rc = 0;
	Obs before, after; before.with_labels = true;
	Obs kin; kin.with_labels = true;
	s.observe(before);
	s.observe(kin, O_KIN);
	auto st = s.serialize(&rc);
	if (rc) throw Violation{ "capture", fmt("capturing the state failed with %d", rc) };
	auto st_b = s.serialize(&rc);
	if (st != st_b) throw Violation{ "capture", "two captures without a step in between differ" };
	s.observe(after);
	std::string d = diff_obs(before, after);
	if (!d.empty()) throw Violation{ "capture", "capturing the state changed it: " + d };
	double t_c = s.t;
	std::vector<double> f_c = s.f;
	// first pass
	int n = S.range(1, 5);
	Plan p = make_plan(S, m, q, n, base, s.t, true);
	std::vector<Obs> ref(n);
	for (int i = 0; i < n; i++) {
		if (!do_step(s, p, i)) throw Discard{ "unstable" };
		ref[i].with_labels = true; s.observe(ref[i]); trace_obs(S, ref[i]);
		S.simtime += p.dt[i];
	}
	auto st_end = s.serialize();
	int rounds = S.range(1, 3);
	for (int k = 0; k < rounds; k++) {
		// what happens in between
		int between = (int)S.draw(4);
		std::vector<uint64_t> nested;
		for (int i = 0; i < between; i++) {
			int w = (int)S.draw(4);
			S.mark(fmt("b%d", w));
			if (w == 0) { double dt = pick_dt(S, m, base); if (s.step(q2, dt)) throw Discard{ "unstable" }; S.ev("between: other motion, %g", dt); }
			else if (w == 1) {
				int li = (int)S.draw((uint32_t)m.lines.size()); double v = S.rreal(-0.4, 0.4, 0.01);
				const bool rate = !S.chance(1, 4);
				api([&] { auto l = MoorDyn_GetLine(s.md, li + 1); return rate ? MoorDyn_SetLineUnstretchedLengthVel(l, v) : MoorDyn_SetLineUnstretchedLength(l, m.lines[li].len * (1 + 0.1 * v)); });
				S.ev("between: %s %d %g", rate ? "pay-out" : "length", li, v);
			} else if (w == 2) { nested = s.serialize(); S.ev("between: nested capture"); }
			else if (!nested.empty()) { s.deserialize(nested); S.ev("between: nested restore"); }
			S.nontrivial = true;
		}
		if (!s.finite()) throw Discard{ "unstable" };
		S.ev("rollback %d", k);
		S.fault("rollback");
		int r = s.deserialize(st);
		if (r) throw Violation{ "restore", fmt("restoring a captured state failed with %d", r) };
		s.t = t_c; s.f = f_c;
		settings(s, p, 0);
		auto st2 = s.serialize();
		if (st2 != st) throw Violation{ "restore", "the state captured right after restoring differs from the one restored" };
		Obs now; s.observe(now, O_KIN);
		d = diff_obs(kin, now);
		if (!d.empty()) throw Violation{ "restore", "right after restoring: " + d };
		// from the captured instant on
		for (int i = 0; i < n; i++) {
			int r2 = 0;
			command(s, p, i);
			r2 = s.step_x(p.x[i], p.xd[i], p.dt[i]);
			if (r2) throw Violation{ "rollback", fmt("step %d after the rollback failed with %d", i, r2) };
			Obs ob; s.observe(ob);
			std::string e = diff_obs(ref[i], ob);
			if (!e.empty()) throw Violation{ "rollback", fmt("step %d after the rollback: ", i) + e };
		}
		if (s.serialize() != st_end) throw Violation{ "rollback", "the state at the end of the repeated pass differs from the first pass" };
		if (S.chance(1, 3) && n > 1) { // partial repetition, then again
			s.deserialize(st); s.t = t_c;
			do_step(s, p, 0);
			S.mark("p");
		}
	}
	S.probe("scheme " + m.scheme);
	s.close();
}

PROPERTY(C01)
{
	ModelOpts o; o.zero_rods = true;
	Model m = make_model(S, "a", o);
	m.install();
	S.ev("model %s", m.summary.c_str());
	Motion q = make_motion(S, m);
	Sys s;
	start(S, s, m, q);
	S.mark(m.summary);
	double base = S.real(0.01, 0.08);
	int n = S.range(2, 10);
	Plan p = make_plan(S, m, q, n, base, s.t, true);
	int at = (int)S.draw((uint32_t)n); // checkpoint before step `at`
	const std::string ck = m.dir + "state.bin";
	FsImage disk;
	double tck = 0;
	std::vector<Obs> ref(n);
	int nck = 0;
	for (int i = 0; i < n; i++) {
		if (i == at || S.chance(1, 6)) {
			fs().crash_at = -1; fs().crashed = false;
			int r = api([&] { return MoorDyn_Save(s.md, ck.c_str()); });
			if (r) throw Violation{ "save", fmt("saving on a healthy disk failed with %d", r) };
			at = i; tck = s.t; nck++;
			S.ev("checkpoint before step %d, t=%.17g", i, s.t);
			disk = fs().img;
			// any later crash of the process keeps what the system calls already wrote
			if (S.chance(1, 2)) { fs().crashed = false; fs().crash_at = fs().nops + (long)S.draw(20); fs().crash_keep = S.draw(200); }
		}
		if (!do_step(s, p, i)) throw Discard{ "unstable" };
		ref[i].with_labels = true; s.observe(ref[i]);
		trace_obs(S, ref[i]);
		S.simtime += p.dt[i];
	}
	auto st_end = s.serialize();
	if (fs().crashed) { disk = fs().crash_img; S.fault("process crash during " + fs().crash_op.substr(0, fs().crash_op.find(' '))); S.ev("the process dies at %s", fs().crash_op.c_str()); }
	else S.fault("process crash between calls");
	fs().crash_at = -1;
	bool closed = S.chance(1, 2);
	if (closed) s.close(); // otherwise it is simply abandoned, like the memory of a dead process
	// a new process with what survived on the disk
	fs().img = disk;
	S.mark(fmt("at%d n%d", at, n));
	int resumes = S.range(1, 2);
	for (int k = 0; k < resumes; k++) {
		Sys r;
		if (!r.create(m)) throw Violation{ "restart", "the model cannot be created again" };
		// a restarted host may well initialise at another position than the original one
		int irc = 0;
		if (S.chance(1, 3)) {
			Motion q3 = q; q3.still = true;
			for (size_t i = 0; i < q3.x0.size(); i++) { std::vector<double> x, xd; q.at(tck, x, xd); q3.x0[i] = x[i]; }
			irc = r.init(q3, true);
			S.mark("i");
		} else irc = r.init(q);
		if (irc) throw Discard{ "init elsewhere failed" };
		int pre = (int)S.draw(3);
		for (int i = 0; i < pre; i++) if (r.step(q, pick_dt(S, m, base))) throw Discard{ "unstable" };
		int lr = api([&] { return MoorDyn_Load(r.md, ck.c_str()); });
		if (lr) throw Violation{ "load", fmt("loading a complete checkpoint failed with %d %s", lr, lr == ESCAPED ? g_escape.c_str() : "") };
		r.t = tck;
		settings(r, p, at);
		for (int i = at; i < n; i++) {
			command(r, p, i);
			int e = r.step_x(p.x[i], p.xd[i], p.dt[i]);
			if (e) throw Violation{ "restart", fmt("step %d after the restart failed with %d", i, e) };
			Obs ob; r.observe(ob);
			std::string d = diff_obs(ref[i], ob);
			if (!d.empty()) throw Violation{ "restart", fmt("step %d (checkpoint before step %d): ", i, at) + d };
		}
		if (r.serialize() != st_end) throw Violation{ "restart", "the states at the end of the run differ" };
		r.close();
	}
	S.nontrivial = true;
	S.probe("scheme " + m.scheme);
}
