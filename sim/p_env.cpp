// C06 results depend on the inputs only
#include "plan.hpp"

// Everything one life of a simulation shows
struct Life {
	std::vector<Obs> obs;
	std::vector<int> rcs;
	std::vector<uint64_t> st0, st1;
	FsImage files;
	bool bad = false;
	std::string why;
};
static Life live(const Model& m, const Motion& q, const Plan& p, bool save)
{
	Life L;
	fs().img.clear();
	m.install();
	Sys s;
	if (!s.create(m)) { L.bad = true; L.why = "create failed"; return L; }
	int r = s.init(q);
	if (r) { L.bad = true; L.why = fmt("init failed (%d) %s", r, s.esc.c_str()); L.rcs.push_back(r); s.close(); return L; }
	L.obs.emplace_back(); L.obs.back().with_labels = true; s.observe(L.obs.back());
	L.st0 = s.serialize();
	for (size_t i = 0; i < p.dt.size(); i++) {
		command(s, p, (int)i);
		r = s.step_x(p.x[i], p.xd[i], p.dt[i]);
		L.rcs.push_back(r);
		L.obs.emplace_back(); L.obs.back().with_labels = true; s.observe(L.obs.back());
		if (r) { L.bad = true; L.why = fmt("step failed (%d)", r); break; }
		if (!s.finite()) { L.bad = true; L.why = "unstable"; break; }
	}
	L.st1 = s.serialize();
	if (save && !L.bad) api([&] { return MoorDyn_Save(s.md, (m.dir + "end.bin").c_str()); });
	s.close();
	L.files = fs().img;
	return L;
}
static std::string compare(const Life& a, const Life& b)
{
	if (a.rcs != b.rcs) return fmt("the calls return other codes: %d instead of %d", b.rcs.empty() ? 0 : b.rcs.back(), a.rcs.empty() ? 0 : a.rcs.back());
	if (a.bad != b.bad) return "one run fails (" + a.why + "/" + b.why + "), the other does not";
	for (size_t i = 0; i < a.obs.size() && i < b.obs.size(); i++) {
		std::string d = diff_obs(a.obs[i], b.obs[i]);
		if (!d.empty()) return (i ? fmt("after step %zu: ", i) : std::string("after the start: ")) + d;
	}
	if (a.st0.size() != b.st0.size() || a.st1.size() != b.st1.size()) return "the sizes of the captured states differ";
	for (size_t i = 0; i < a.st0.size(); i++) if (a.st0[i] != b.st0[i]) return fmt("the states captured after the start differ in value %zu of %zu", i, a.st0.size());
	for (size_t i = 0; i < a.st1.size(); i++) if (a.st1[i] != b.st1[i]) return fmt("the states captured at the end differ in value %zu of %zu", i, a.st1.size());
	for (auto& kv : a.files) {
		auto it = b.files.find(kv.first);
		if (it == b.files.end()) return "file " + kv.first + " is missing";
		if (it->second != kv.second) {
			size_t k = 0;
			while (k < kv.second.size() && k < it->second.size() && kv.second[k] == it->second[k]) k++;
			return fmt("file %s differs at byte %zu", kv.first.c_str(), k);
		}
	}
	if (a.files.size() != b.files.size()) return "the sets of files written differ";
	return "";
}

PROPERTY(C06)
{
	ModelOpts o; o.zero_rods = true;
	Model m = make_model(S, "a", o);
	S.ev("model %s", m.summary.c_str());
	S.mark(m.summary);
	Motion q = make_motion(S, m);
	double base = S.real(0.01, 0.06);
	int n = S.range(1, 5);
	Plan p = make_plan(S, m, q, n, base, 0.0, true);
	bool save = S.chance(1, 3);
	// the reference: memory that was never used before
	g_mem.poison = 0; g_stack_poison = 0;
	Life ref = live(m, q, p, save);
	for (auto& ob : ref.obs) trace_obs(S, ob);
	for (auto& kv : ref.files) S.hash = fnv(S.hash, kv.second);
	for (double d : p.dt) S.simtime += d;
	bool alive = S.chance(1, 4);
	Sys other; // a simulation that stays open meanwhile
	std::unique_ptr<Model> mo;
	int rounds = S.range(1, 3);
	for (int k = 0; k < rounds; k++) {
		static const int fill[] = { 255, 256, 0x7f, 0x3f, 0, 0xbf, 256 };
		int po = fill[S.draw(7)], sp = fill[S.draw(7)];
		int before = (int)S.draw(3);
		for (int j = 0; j < before; j++) { // other simulations run and closed earlier
			Model m2 = make_model(S, "b", o);
			Motion q2 = make_motion(S, m2);
			Plan p2 = make_plan(S, m2, q2, (int)S.draw(3), base, 0.0, true);
			live(m2, q2, p2, false);
			S.ev("another simulation before: %s", m2.summary.c_str());
			S.fault("other simulation run and closed before");
		}
		if (alive && !other.md) {
			mo.reset(new Model(make_model(S, "c", o)));
			Motion q3 = make_motion(S, *mo);
			mo->install();
			if (other.create(*mo)) other.init(q3);
			S.fault("other simulation left open");
		}
		g_mem.poison = po; g_stack_poison = sp;
		S.ev("heap filled with %d, stack with %d", po, sp);
		S.fault(fmt("heap filled with %s", po == 256 ? "noise" : fmt("%02x", po).c_str()));
		S.fault(fmt("stack filled with %s", sp == 256 ? "noise" : fmt("%02x", sp).c_str()));
		Life b = live(m, q, p, save);
		g_mem.poison = -1; g_stack_poison = -1;
		std::string d = compare(ref, b);
		if (!d.empty()) throw Violation{ "differs", fmt("repetition %d with other memory contents: ", k) + d };
	}
	if (ref.bad) throw Discard{ ref.why };
	S.nontrivial = true;
	S.probe("scheme " + m.scheme);
}
