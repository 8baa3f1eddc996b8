// C26 a host written in Python drives the same simulator
#ifdef SIM_PY
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "plan.hpp"
#include <functional>
#include <set>

extern "C" PyObject* PyInit_cmoordyn(void);

namespace {
PyObject* g_mod = nullptr; // the module `moordyn`
std::string g_exc;         // what the last failing call raised

void boot()
{
	PyPreConfig pre;
	PyPreConfig_InitIsolatedConfig(&pre);
	pre.allocator = PYMEM_ALLOCATOR_MALLOC;
	pre.utf8_mode = 1;
	Py_PreInitialize(&pre);
	PyImport_AppendInittab("cmoordyn", &PyInit_cmoordyn);
	PyConfig cfg;
	PyConfig_InitIsolatedConfig(&cfg);
	cfg.site_import = 0;
	cfg.write_bytecode = 0;
	cfg.use_hash_seed = 1;
	cfg.hash_seed = 0;
	cfg.install_signal_handlers = 0;
	PyStatus st = Py_InitializeFromConfig(&cfg);
	PyConfig_Clear(&cfg);
	if (PyStatus_Exception(st)) { fprintf(stderr, "no Python: %s\n", st.err_msg ? st.err_msg : "?"); exit(3); }
	const char* d = getenv("MDSIM_PYDIR");
	PyObject* path = PySys_GetObject("path");
	PyObject* dir = PyUnicode_FromString(d ? d : "/repo/wrappers/python");
	PyList_Insert(path, 0, dir);
	Py_DECREF(dir);
	g_mod = PyImport_ImportModule("moordyn");
	if (!g_mod) { PyErr_Print(); exit(3); }
}
// a reference that goes away with its scope
struct Ref {
	PyObject* p = nullptr;
	Ref(PyObject* q = nullptr) : p(q) {}
	Ref(Ref&& o) : p(o.p) { o.p = nullptr; }
	Ref& operator=(Ref&& o) { std::swap(p, o.p); return *this; }
	Ref(const Ref&) = delete;
	~Ref() { Py_XDECREF(p); }
	operator PyObject*() const { return p; }
};
// moordyn.<name>(args); no value when it raises
Ref call(const char* name, std::initializer_list<PyObject*> a)
{
	g_exc.clear();
	Ref f(PyObject_GetAttrString(g_mod, name));
	if (!f) { PyErr_Clear(); g_exc = fmt("moordyn has no %s", name); return Ref(); }
	std::vector<PyObject*> v(a);
	PyObject* r = nullptr;
	const int rc = api([&] { r = PyObject_Vectorcall(f, v.data(), v.size(), nullptr); return 0; });
	if (rc == ESCAPED) throw Violation{ "escape", fmt("%s: an exception leaves the interpreter: ", name) + g_escape };
	if (!r) {
		Ref e(PyErr_GetRaisedException());
		if (!e) throw Violation{ "silent", fmt("%s gives neither a value nor an exception", name) };
		Ref s(PyObject_Str(e));
		g_exc = std::string(Py_TYPE((PyObject*)e)->tp_name) + ": " + (s.p ? PyUnicode_AsUTF8(s) : "?");
		PyErr_Clear();
	}
	return Ref(r);
}
Ref num(double x) { return Ref(PyFloat_FromDouble(x)); }
Ref integer(long i) { return Ref(PyLong_FromLong(i)); }
Ref str(const std::string& s) { return Ref(PyUnicode_FromStringAndSize(s.data(), (Py_ssize_t)s.size())); }
Ref seq(const std::vector<double>& v, int kind) // 0 a list, 1 a tuple, 2 a list with whole numbers as int
{
	Ref r(kind == 1 ? PyTuple_New((Py_ssize_t)v.size()) : PyList_New((Py_ssize_t)v.size()));
	for (size_t i = 0; i < v.size(); i++) {
		PyObject* x = kind == 2 && v[i] == std::floor(v[i]) && std::fabs(v[i]) < 1e9 && !(v[i] == 0 && std::signbit(v[i])) ? PyLong_FromLong((long)v[i]) : PyFloat_FromDouble(v[i]);
		if (kind == 1) PyTuple_SET_ITEM((PyObject*)r, (Py_ssize_t)i, x); else PyList_SET_ITEM((PyObject*)r, (Py_ssize_t)i, x);
	}
	return r;
}
// numbers in any nesting of lists and tuples, in order
void flat(PyObject* o, std::vector<double>& v)
{
	if (PyFloat_Check(o)) v.push_back(PyFloat_AS_DOUBLE(o));
	else if (PyBool_Check(o)) v.push_back(o == Py_True);
	else if (PyLong_Check(o)) v.push_back((double)PyLong_AsLong(o));
	else if (PyTuple_Check(o) || PyList_Check(o)) {
		Ref f(PySequence_Fast(o, "?"));
		for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE((PyObject*)f); i++) flat(PySequence_Fast_GET_ITEM((PyObject*)f, i), v);
	}
}
std::vector<double> numbers(PyObject* o) { std::vector<double> v; if (o) flat(o, v); return v; }

// what Python says against what C says of the same simulation
void agree(const std::string& what, PyObject* r, int rc, const std::vector<double>& c, int n)
{
	if (rc) { if (r) throw Violation{ "value", fmt("%s returns a value where the C interface returns %d", what.c_str(), rc) }; return; }
	if (!r) throw Violation{ "value", what + " raises " + g_exc + " where the C interface gives a value" };
	auto v = numbers(r);
	if ((int)v.size() != n) throw Violation{ "value", fmt("%s gives %zu numbers instead of %d", what.c_str(), v.size(), n) };
	for (int i = 0; i < n; i++) if (!same_bits(v[i], c[i])) throw Violation{ "value", fmt("%s: number %d is %.9g, the C interface says %.9g", what.c_str(), i + 1, v[i], c[i]) };
}

struct Host {
	Sim& S;
	const Model& m;
	Ref sys;
	Sys c; // the same simulation seen from C
	std::vector<Ref> bodies, rods, points, lines;
	Ref waves, floor;
	unsigned nw = 0; // points with external water motion
	Host(Sim& s, const Model& mm) : S(s), m(mm) {}
	bool create()
	{
		sys = call("Create", { str(m.file) });
		if (!sys) return false;
		c.md = (MoorDyn)PyCapsule_GetPointer(sys, "MoorDyn");
		c.m = &m;
		c.f.assign(m.ncpl() + 64, 0.0);
		return c.md != nullptr;
	}
	template<class G> void objects(const char* what, G get, std::vector<Ref>& out)
	{
		Ref n = call(fmt("GetNumber%s", !strcmp(what, "Body") ? "Bodies" : fmt("%ss", what).c_str()).c_str(), { sys });
		if (!n) throw Violation{ "value", fmt("the number of %s objects raises ", what) + g_exc };
		const long k = PyLong_AsLong(n);
		for (long i = 1; i <= k; i++) {
			Ref o = call(fmt("Get%s", what).c_str(), { sys, integer(i) });
			if (!o) throw Violation{ "value", fmt("Get%s(%ld) raises ", what, i) + g_exc };
			if (PyCapsule_GetPointer(o, fmt("MoorDyn%s", what).c_str()) != get((unsigned)i)) throw Violation{ "value", fmt("Get%s(%ld) hands out another object", what, i) };
			out.push_back(std::move(o));
		}
	}
	void catalogue()
	{
		objects("Body", [&](unsigned i) { return (void*)MoorDyn_GetBody(c.md, i); }, bodies);
		objects("Rod", [&](unsigned i) { return (void*)MoorDyn_GetRod(c.md, i); }, rods);
		objects("Point", [&](unsigned i) { return (void*)MoorDyn_GetPoint(c.md, i); }, points);
		objects("Line", [&](unsigned i) { return (void*)MoorDyn_GetLine(c.md, i); }, lines);
		if (bodies.size() != m.bodies.size() || rods.size() != m.rods.size() || points.size() != m.points.size() || lines.size() != m.lines.size()) throw Violation{ "value", "the numbers of objects are not those of the model" };
		waves = call("GetWaves", { sys });
		auto w = apip([&] { return MoorDyn_GetWaves(c.md); });
		if ((w != nullptr) != (waves.p != nullptr) || (w && PyCapsule_GetPointer(waves, "MoorDynWaves") != w)) throw Violation{ "value", "GetWaves hands out another object" };
		floor = call("GetSeafloor", { sys });
		if (floor.p == Py_None) floor = Ref(); // there is none
		auto f = apip([&] { return MoorDyn_GetSeafloor(c.md); });
		if ((f != nullptr) != (floor.p != nullptr) || (f && PyCapsule_GetPointer(floor, "MoorDynSeafloor") != f)) throw Violation{ "value", "GetSeafloor hands out another object" };
	}
	// every query of one object, in C
	typedef std::function<int(double*)> Q;
	void one(const char* fn, PyObject* o, int n, Q q, int node = -1, int idx = 0)
	{
		std::vector<double> v(48, 0.0);
		int rc = api([&] { return q(v.data()); });
		Ref r = node < 0 && !idx ? call(fn, { o }) : call(fn, { o, integer(node) });
		agree(node < 0 ? fmt("%s", fn) : fmt("%s of node %d", fn, node), r, rc, v, n);
	}
	void compare(int share)
	{
		auto sel = [&] { return S.chance((uint32_t)share, 100); };
		int k; unsigned u; int b;
		for (size_t i = 0; i < bodies.size(); i++) {
			auto o = (MoorDynBody)MoorDyn_GetBody(c.md, (unsigned)i + 1);
			PyObject* p = bodies[i];
			if (sel()) one("GetBodyID", p, 1, [&](double* d) { int r = MoorDyn_GetBodyID(o, &k); d[0] = k; return r; });
			if (sel()) one("GetBodyType", p, 1, [&](double* d) { int r = MoorDyn_GetBodyType(o, &k); d[0] = k; return r; });
			if (sel()) one("GetBodyState", p, 12, [&](double* d) { return MoorDyn_GetBodyState(o, d, d + 6); });
			if (sel()) one("GetBodyPos", p, 3, [&](double* d) { return MoorDyn_GetBodyPos(o, d); });
			if (sel()) one("GetBodyAngle", p, 3, [&](double* d) { return MoorDyn_GetBodyAngle(o, d); });
			if (sel()) one("GetBodyVel", p, 3, [&](double* d) { return MoorDyn_GetBodyVel(o, d); });
			if (sel()) one("GetBodyAngVel", p, 3, [&](double* d) { return MoorDyn_GetBodyAngVel(o, d); });
			if (sel()) one("GetBodyForce", p, 6, [&](double* d) { return MoorDyn_GetBodyForce(o, d); });
			if (sel()) one("GetBodyM", p, 36, [&](double* d) { return MoorDyn_GetBodyM(o, (double(*)[6])d); });
		}
		for (size_t i = 0; i < rods.size(); i++) {
			auto o = (MoorDynRod)MoorDyn_GetRod(c.md, (unsigned)i + 1);
			PyObject* p = rods[i];
			if (sel()) one("GetRodID", p, 1, [&](double* d) { int r = MoorDyn_GetRodID(o, &k); d[0] = k; return r; });
			if (sel()) one("GetRodType", p, 1, [&](double* d) { int r = MoorDyn_GetRodType(o, &k); d[0] = k; return r; });
			if (sel()) one("GetRodForce", p, 6, [&](double* d) { return MoorDyn_GetRodForce(o, d); });
			if (sel()) one("GetRodM", p, 36, [&](double* d) { return MoorDyn_GetRodM(o, (double(*)[6])d); });
			if (sel()) one("GetRodN", p, 1, [&](double* d) { int r = MoorDyn_GetRodN(o, &u); d[0] = u; return r; });
			for (int n = 0; n <= m.rods[i].n; n++) {
				if (sel()) one("GetRodNodePos", p, 3, [&](double* d) { return MoorDyn_GetRodNodePos(o, (unsigned)n, d); }, n);
				if (sel()) one("GetRodNodeVel", p, 3, [&](double* d) { return MoorDyn_GetRodNodeVel(o, (unsigned)n, d); }, n);
			}
		}
		for (size_t i = 0; i < points.size(); i++) {
			auto o = (MoorDynPoint)MoorDyn_GetPoint(c.md, (unsigned)i + 1);
			PyObject* p = points[i];
			if (sel()) one("GetPointID", p, 1, [&](double* d) { int r = MoorDyn_GetPointID(o, &k); d[0] = k; return r; });
			if (sel()) one("GetPointType", p, 1, [&](double* d) { int r = MoorDyn_GetPointType(o, &k); d[0] = k; return r; });
			if (sel()) one("GetPointPos", p, 3, [&](double* d) { return MoorDyn_GetPointPos(o, d); });
			if (sel()) one("GetPointVel", p, 3, [&](double* d) { return MoorDyn_GetPointVel(o, d); });
			if (sel()) one("GetPointForce", p, 3, [&](double* d) { return MoorDyn_GetPointForce(o, d); });
			if (sel()) one("GetPointM", p, 9, [&](double* d) { return MoorDyn_GetPointM(o, (double(*)[3])d); });
			unsigned na = 0;
			MoorDyn_GetPointNAttached(o, &na);
			if (sel()) one("GetPointNAttached", p, 1, [&](double* d) { int r = MoorDyn_GetPointNAttached(o, &u); d[0] = u; return r; });
			for (unsigned n = 0; n < na; n++) if (sel()) {
				MoorDynLine l = nullptr;
				int e = -1;
				MoorDyn_GetPointAttached(o, n, &l, &e);
				Ref r = call("GetPointAttached", { p, integer((long)n) });
				if (!r || !PyTuple_Check((PyObject*)r) || PyTuple_GET_SIZE((PyObject*)r) != 2) throw Violation{ "value", "GetPointAttached gives " + (r.p ? std::string("something else") : g_exc) };
				if (PyCapsule_GetPointer(PyTuple_GET_ITEM((PyObject*)r, 0), "MoorDynLine") != l || PyLong_AsLong(PyTuple_GET_ITEM((PyObject*)r, 1)) != e) throw Violation{ "value", "GetPointAttached hands out another line or end" };
			}
		}
		for (size_t i = 0; i < lines.size(); i++) {
			auto o = (MoorDynLine)MoorDyn_GetLine(c.md, (unsigned)i + 1);
			PyObject* p = lines[i];
			if (sel()) one("GetLineID", p, 1, [&](double* d) { int r = MoorDyn_GetLineID(o, &k); d[0] = k; return r; });
			if (sel()) one("GetLineN", p, 1, [&](double* d) { int r = MoorDyn_GetLineN(o, &u); d[0] = u; return r; });
			if (sel()) one("GetLineUnstretchedLength", p, 1, [&](double* d) { return MoorDyn_GetLineUnstretchedLength(o, d); });
			if (sel()) one("IsLineConstantEA", p, 1, [&](double* d) { int r = MoorDyn_IsLineConstantEA(o, &b); d[0] = b; return r; });
			if (sel()) one("GetLineConstantEA", p, 1, [&](double* d) { return MoorDyn_GetLineConstantEA(o, d); });
			if (sel()) one("IsLinePressBend", p, 1, [&](double* d) { int r = MoorDyn_IsLinePressBend(o, &b); d[0] = b; return r; });
			if (sel()) one("GetLineFairTen", p, 1, [&](double* d) { return MoorDyn_GetLineFairTen(o, d); });
			if (sel()) one("GetLineMaxTen", p, 1, [&](double* d) { return MoorDyn_GetLineMaxTen(o, d); });
			for (int n = 0; n <= m.lines[i].n; n++) {
				const unsigned un = (unsigned)n;
				if (sel()) one("GetLineNodePos", p, 3, [&](double* d) { return MoorDyn_GetLineNodePos(o, un, d); }, n);
				if (sel()) one("GetLineNodeVel", p, 3, [&](double* d) { return MoorDyn_GetLineNodeVel(o, un, d); }, n);
				if (sel()) one("GetLineNodeForce", p, 3, [&](double* d) { return MoorDyn_GetLineNodeForce(o, un, d); }, n);
				if (sel()) one("GetLineNodeTen", p, 3, [&](double* d) { return MoorDyn_GetLineNodeTen(o, un, d); }, n);
				if (sel()) one("GetLineNodeBendStiff", p, 3, [&](double* d) { return MoorDyn_GetLineNodeBendStiff(o, un, d); }, n);
				if (sel()) one("GetLineNodeWeight", p, 3, [&](double* d) { return MoorDyn_GetLineNodeWeight(o, un, d); }, n);
				if (sel()) one("GetLineNodeDrag", p, 3, [&](double* d) { return MoorDyn_GetLineNodeDrag(o, un, d); }, n);
				if (sel()) one("GetLineNodeFroudeKrilov", p, 3, [&](double* d) { return MoorDyn_GetLineNodeFroudeKrilov(o, un, d); }, n);
				if (sel()) one("GetLineNodeSeabedForce", p, 3, [&](double* d) { return MoorDyn_GetLineNodeSeabedForce(o, un, d); }, n);
				if (sel()) one("GetLineNodeCurv", p, 1, [&](double* d) { return MoorDyn_GetLineNodeCurv(o, un, d); }, n);
				if (sel()) one("GetLineNodeM", p, 9, [&](double* d) { return MoorDyn_GetLineNodeM(o, un, (double(*)[3])d); }, n);
			}
		}
		if (sel()) {
			int n = (int)lines.size();
			std::vector<float> h(4 * (size_t)n + 4);
			int rc = api([&] { return MoorDyn_GetFASTtens(c.md, &n, h.data(), h.data() + n, h.data() + 2 * n, h.data() + 3 * n); });
			std::vector<double> v(h.begin(), h.end());
			Ref r = call("GetFASTtens", { sys, integer(n) });
			agree("GetFASTtens", r, rc, v, 4 * n);
		}
		if (sel()) { // drawings of the system and of its objects
			auto code = [&](const char* fn, PyObject* o, std::function<int(const char*)> f) {
				const std::string to = m.dir + "x.vtp";
				const int rc = api([&] { return f(to.c_str()); });
				Ref r = call(fn, { o, str(to) });
				if (!r || !PyLong_Check((PyObject*)r) || PyLong_AsLong(r) != rc) throw Violation{ "value", fmt("%s gives %s where the C interface returns %d", fn, r.p ? fmt("%ld", PyLong_AsLong(r)).c_str() : g_exc.c_str(), rc) };
			};
			code("SaveVTK", sys, [&](const char* f) { return MoorDyn_SaveVTK(c.md, f); });
			if (bodies.size()) {
				code("SaveBodyVTK", bodies[0], [&](const char* f) { return MoorDyn_SaveBodyVTK(MoorDyn_GetBody(c.md, 1), f); });
				code("UseBodyVTK", bodies[0], [&](const char* f) { return MoorDyn_UseBodyVTK(MoorDyn_GetBody(c.md, 1), f); });
			}
			if (rods.size()) code("SaveRodVTK", rods[0], [&](const char* f) { return MoorDyn_SaveRodVTK(MoorDyn_GetRod(c.md, 1), f); });
			if (points.size()) code("SavePointVTK", points[0], [&](const char* f) { return MoorDyn_SavePointVTK(MoorDyn_GetPoint(c.md, 1), f); });
			code("SaveLineVTK", lines[0], [&](const char* f) { return MoorDyn_SaveLineVTK(MoorDyn_GetLine(c.md, 1), f); });
		}
		if (sel()) { unsigned n; int rc = api([&] { return MoorDyn_NCoupledDOF(c.md, &n); }); Ref r = call("NCoupledDOF", { sys }); agree("NCoupledDOF", r, rc, { (double)n }, 1); }
		if (waves && sel()) {
			const double x = S.real(-60, 60), y = S.real(-60, 60), z = S.real(-30, 5);
			std::vector<double> v(8, 0.0);
			const bool with = floor && S.chance(1, 2);
			int rc = api([&] { return MoorDyn_GetWavesKin(MoorDyn_GetWaves(c.md), x, y, z, v.data(), v.data() + 3, &v[6], &v[7], with ? MoorDyn_GetSeafloor(c.md) : nullptr); });
			Ref r = with ? call("GetWavesKin", { waves, num(x), num(y), num(z), num(c.t), floor }) : call("GetWavesKin", { waves, num(x), num(y), num(z), num(c.t) });
			agree("GetWavesKin", r, rc, v, 8);
		}
		if (floor && sel()) {
			auto o = MoorDyn_GetSeafloor(c.md);
			const double x = S.real(-80, 80), y = S.real(-80, 80);
			double d = 0;
			int rc = api([&] { return MoorDyn_GetDepthAt(o, x, y, &d); });
			Ref r = call("GetDepthAt", { floor, num(x), num(y) });
			agree("GetDepthAt", r, rc, { d }, 1);
			rc = api([&] { return MoorDyn_GetAverageDepth(o, &d); });
			r = call("GetAverageDepth", { floor });
			agree("GetAverageDepth", r, rc, { d }, 1);
			rc = api([&] { return MoorDyn_GetMinDepth(o, &d); });
			r = call("GetMinDepth", { floor });
			agree("GetMinDepth", r, rc, { d }, 1);
		}
	}
	// a call that has to be refused
	void refuse(const char* fn, std::initializer_list<PyObject*> a, const std::string& why)
	{
		S.fault("misuse: " + why);
		Ref r = call(fn, a);
		if (!r) return;
		if (PyLong_Check((PyObject*)r) && PyLong_AsLong(r) != 0) return; // an error code
		throw Violation{ "misuse", fmt("%s with %s is taken", fn, why.c_str()) };
	}
	void misuse(const std::vector<double>& x, const std::vector<double>& v, double t, double dt)
	{
		const int k = (int)S.draw(20);
		auto X = x, V = v;
		S.mark(fmt("m%d", k));
		const bool dof = !x.empty();
		switch (k) {
			case 0: X.push_back(1); refuse("Step", { sys, seq(X, 0), seq(V, 0), num(t), num(dt) }, "a position too many"); break;
			case 1: V.push_back(1); refuse("Step", { sys, seq(X, 0), seq(V, 1), num(t), num(dt) }, "a velocity too many"); break;
			case 2: if (dof) { X.pop_back(); refuse("Step", { sys, seq(X, 1), seq(V, 0), num(t), num(dt) }, "a position missing"); } break;
			case 3: if (dof) { V.pop_back(); refuse("Step", { sys, seq(X, 0), seq(V, 0), num(t), num(dt) }, "a velocity missing"); } break;
			case 4: if (dof) { Ref l = seq(X, 0); PyList_SetItem(l, (Py_ssize_t)S.draw((uint32_t)X.size()), PyUnicode_FromString("a")); refuse("Step", { sys, l, seq(V, 0), num(t), num(dt) }, "a position that is no number"); } break;
			case 5: if (dof) { Ref l = seq(V, 0); PyList_SetItem(l, (Py_ssize_t)S.draw((uint32_t)V.size()), PyUnicode_FromString("a")); refuse("Step", { sys, seq(X, 0), l, num(t), num(dt) }, "a velocity that is no number"); } break;
			case 6: refuse("Step", { lines[0], seq(X, 0), seq(V, 0), num(t), num(dt) }, "a line for the system"); break;
			case 7: refuse("GetLineNodePos", { lines[0], integer(m.lines[0].n + 1 + (long)S.draw(3)) }, "a node out of range"); break;
			case 8: refuse("GetLineNodeTen", { lines[0], integer(-1 - (long)S.draw(3)) }, "a negative node"); break;
			case 9: { static const char* f[] = { "GetBody", "GetRod", "GetPoint", "GetLine" }; const size_t n[] = { bodies.size(), rods.size(), points.size(), lines.size() }; int j = (int)S.draw(4); refuse(f[j], { sys, integer(S.chance(1, 2) ? 0 : (long)n[j] + 1) }, "an object out of range"); break; }
			case 10: refuse("GetLineFairTen", { sys }, "the system for a line"); break;
			case 11: refuse("Load", { sys, str("/sim/a/nothing.bin") }, "a file that is not there"); break;
			case 12: {
				fs().hook = [](const FsOp& op) { FsAct a; if (op.kind == FS_OPEN_W) { a.kind = FA_ERR; a.err = EACCES; } return a; };
				refuse("Save", { sys, str(m.dir + "locked.bin") }, "a folder that cannot be written");
				fs().hook = nullptr;
				break;
			}
			case 13: refuse("Deserialize", { sys, str("text") }, "text for bytes"); break;
			case 14: { std::vector<double> pin(m.lines[0].n + (S.chance(1, 2) ? 0 : 2), 1e5); refuse("SetLinePressInt", { lines[0], seq(pin, 0) }, "a wrong number of pressures"); break; }
			case 15: refuse("GetPointPos", { lines[0] }, "a line for a point"); break;
			case 16: {
				Ref b = call("Serialize", { sys });
				if (!b || !PyBytes_Check((PyObject*)b)) throw Violation{ "state", "Serialize gives no bytes: " + g_exc };
				const Py_ssize_t len = PyBytes_GET_SIZE((PyObject*)b), cut = 1 + (Py_ssize_t)S.draw((uint32_t)len);
				Ref part(PyBytes_FromStringAndSize(PyBytes_AS_STRING((PyObject*)b), len - cut));
				refuse("Deserialize", { sys, part }, "part of a state");
				break;
			}
			case 17: refuse("GetFASTtens", { sys, integer((long)lines.size() + 1 + (long)S.draw(3)) }, "more lines than there are"); break;
			case 18: { Ref u = seq({ 0, 0, 0 }, 0), U(PyList_New(0)); for (unsigned j = 0; j <= nw; j++) PyList_Append(U, u); refuse("SetWaveKin", { sys, U, U, num(t) }, "water motion for too many points"); break; }
			case 19: { Ref l = seq(std::vector<double>(m.lines[0].n + 1, 1e5), 0); PyList_SetItem(l, (Py_ssize_t)S.draw((uint32_t)m.lines[0].n + 1), PyUnicode_FromString("a")); refuse("SetLinePressInt", { lines[0], l }, "a pressure that is no number"); break; }
		}
	}
	void command(const Plan& p, int i)
	{
		const int l = p.payline[i];
		if (l < 0) return;
		const double v = p.payrate[i];
		auto ok = [&](const char* fn, Ref r) { if (!r) throw Violation{ "command", fmt("%s raises ", fn) + g_exc }; if (PyLong_Check((PyObject*)r) && PyLong_AsLong(r)) throw Violation{ "command", fmt("%s returns %ld", fn, PyLong_AsLong(r)) }; };
		if (p.paymode[i] == 0) ok("SetLineUnstretchedLengthVel", call("SetLineUnstretchedLengthVel", { lines[l], num(v) }));
		if (p.paymode[i] == 1) ok("SetLineUnstretchedLength", call("SetLineUnstretchedLength", { lines[l], num(v) }));
		if (p.paymode[i] == 2) ok("SetLineConstantEA", call("SetLineConstantEA", { lines[l], num(v) }));
		if (p.paymode[i] == 3) {
			if (v < 0) ok("SetLinePressBend", call("SetLinePressBend", { lines[l], Py_False }));
			else {
				ok("SetLinePressInt", call("SetLinePressInt", { lines[l], seq(std::vector<double>(m.lines[l].n + 1, v), (int)S.draw(3)) }));
				ok("SetLinePressBend", call("SetLinePressBend", { lines[l], Py_True }));
			}
		}
	}
};
struct Field { // external water motion
	std::vector<int> sup;
	uint32_t salt = 0;
	double at(int step, size_t k, int what) const
	{
		uint64_t h = fnv(FNV0, &k, sizeof k); h = fnv(h, &step, sizeof step); h = fnv(h, &what, sizeof what); h = fnv(h, &salt, sizeof salt);
		return 0.5 * ((double)(h >> 16 & 0xffff) / 32768.0 - 1.0);
	}
};
} // namespace

extern void (*g_before_runs)(const std::string&);
static struct Prep { Prep() { g_before_runs = [](const std::string& p) { if (p == "C26") boot(); }; } } prep;

PROPERTY(C26)
{
	ModelOpts o;
	o.external = S.chance(1, 4);
	o.zero_rods = true;
	o.logfile = false;
	Model m = make_model(S, "a", o);
	const bool ext = o.external;
	m.install();
	S.ev("model %s", m.summary.c_str());
	S.mark(m.summary);
	Motion q = make_motion(S, m);
	const int n = S.range(1, 8);
	Plan p = make_plan(S, m, q, n, S.real(0.01, 0.06), 0.0, true);
	Field fld;
	fld.salt = S.draw(100000);
	for (int i = 0; i < n; i++) fld.sup.push_back(S.chance(2, 3));
	for (int i = 0; i < n; i++) { p.x[i].resize(m.ncpl()); p.xd[i].resize(m.ncpl()); }
	const FsImage disk = fs().img;
	// a host in C
	std::vector<Obs> ref(n);
	std::vector<std::vector<double>> F(n);
	std::vector<double> T(1, 0.0); // the times, as the library counts them
	std::vector<uint64_t> end;
	FsImage files;
	int rc_init = 0;
	{
		Sys s;
		if (!s.create(m)) throw Discard{ "refused" };
		rc_init = s.init(q);
		if (rc_init) throw Discard{ "init" };
		unsigned nw = 0;
		if (ext && api([&] { return MoorDyn_ExternalWaveKinInit(s.md, &nw); })) throw Discard{ "external waves" };
		for (int i = 0; i < n; i++) {
			if (ext && fld.sup[i]) {
				std::vector<double> U(3 * nw + 1), A(3 * nw + 1);
				for (size_t j = 0; j < 3 * (size_t)nw; j++) { U[j] = fld.at(i, j, 0); A[j] = fld.at(i, j, 1); }
				api([&] { return MoorDyn_ExternalWaveKinSet(s.md, U.data(), A.data(), s.t); });
			}
			if (!do_step(s, p, i)) throw Discard{ "unstable" };
			F[i].assign(s.f.begin(), s.f.begin() + m.ncpl());
			ref[i].with_labels = true;
			s.observe(ref[i]);
			trace_obs(S, ref[i]);
			S.simtime += p.dt[i];
			T.push_back(s.t);
		}
		end = s.serialize();
		s.close();
		files = fs().img;
	}
	// the same in Python
	fs().img = disk;
	Host h(S, m);
	if (!h.create()) throw Violation{ "create", "Create raises " + g_exc };
	std::vector<double> x, xd;
	q.at(0, x, xd);
	x.resize(m.ncpl());
	xd.resize(m.ncpl());
	{
		if (S.chance(1, 4)) {
			auto X = x, V = xd;
			if (S.chance(1, 2) || x.empty()) (S.chance(1, 2) ? X : V).push_back(0); else (S.chance(1, 2) ? X : V).pop_back();
			h.refuse(m.noic ? "Init_NoIC" : "Init", { h.sys, seq(X, 0), seq(V, 0) }, "a wrong number of degrees of freedom");
		}
		Ref r = call(m.noic ? "Init_NoIC" : "Init", { h.sys, seq(x, (int)S.draw(3)), seq(xd, (int)S.draw(3)) });
		if (!r || PyLong_AsLong(r)) throw Violation{ "init", "Init gives " + (r.p ? fmt("%ld", PyLong_AsLong(r)) : g_exc) };
	}
	h.catalogue();
	unsigned nw = 0;
	if (ext) {
		Ref r = call("ExternalWaveKinInit", { h.sys });
		if (!r) throw Violation{ "external", "ExternalWaveKinInit raises " + g_exc };
		if (PyLong_AsLong(r)) throw Violation{ "external", fmt("ExternalWaveKinInit gives %ld", PyLong_AsLong(r)) };
		r = call("ExternalWaveKinGetN", { h.sys });
		unsigned c = 0;
		int rc = api([&] { return MoorDyn_ExternalWaveKinGetN(h.c.md, &c); });
		agree("ExternalWaveKinGetN", r, rc, { (double)c }, 1);
		nw = h.nw = c;
	}
	Ref kept;
	std::vector<uint64_t> kept_c;
	for (int i = 0; i < n; i++) {
		const double t = T[i];
		const int mis = S.chance(1, 2) ? S.range(1, 3) : 0;
		for (int k = 0; k < mis; k++) h.misuse(p.x[i], p.xd[i], t, p.dt[i]);
		if (ext) {
			std::vector<double> r(3 * (size_t)nw + 3);
			int rc = api([&] { return MoorDyn_ExternalWaveKinGetCoordinates(h.c.md, r.data()); });
			Ref w = call("GetWaveKinCoordinates", { h.sys });
			agree("GetWaveKinCoordinates", w, rc, r, 3 * (int)nw);
			if (fld.sup[i]) {
				Ref U(PyList_New(nw)), A(PyList_New(nw));
				for (unsigned j = 0; j < nw; j++) {
					{ Ref w = seq({ fld.at(i, 3 * j, 0), fld.at(i, 3 * j + 1, 0), fld.at(i, 3 * j + 2, 0) }, (int)S.draw(3)); PyList_SET_ITEM((PyObject*)U, j, w.p); w.p = nullptr; }
					{ Ref w = seq({ fld.at(i, 3 * j, 1), fld.at(i, 3 * j + 1, 1), fld.at(i, 3 * j + 2, 1) }, (int)S.draw(3)); PyList_SET_ITEM((PyObject*)A, j, w.p); w.p = nullptr; }
				}
				Ref r = call("SetWaveKin", { h.sys, U, A, num(t) });
				if (!r || PyLong_AsLong(r)) throw Violation{ "external", "SetWaveKin gives " + (r.p ? fmt("%ld", PyLong_AsLong(r)) : g_exc) };
			}
		}
		h.command(p, i);
		Ref r = call("Step", { h.sys, seq(p.x[i], (int)S.draw(3)), seq(p.xd[i], (int)S.draw(3)), num(t), num(p.dt[i]) });
		if (!r) throw Violation{ "step", fmt("step %d raises ", i + 1) + g_exc };
		h.c.t = T[i + 1];
		auto f = numbers(r);
		if (f.size() != F[i].size()) throw Violation{ "step", fmt("step %d returns %zu loads for %zu degrees of freedom", i + 1, f.size(), F[i].size()) };
		for (size_t k = 0; k < f.size(); k++) if (!same_bits(f[k], F[i][k])) throw Violation{ "step", fmt("step %d: load %zu is %.9g, a host in C gets %.9g", i + 1, k + 1, f[k], F[i][k]) };
		std::copy(f.begin(), f.end(), h.c.f.begin());
		Obs ob;
		ob.with_labels = true;
		h.c.observe(ob);
		std::string d = diff_obs(ref[i], ob);
		if (!d.empty()) throw Violation{ "step", fmt("after step %d: ", i + 1) + d };
		h.compare(S.chance(1, 4) ? 100 : 15);
		// captured, spoilt and restored
		if (S.chance(1, 4)) {
			auto c = h.c.serialize();
			Ref b = call("Serialize", { h.sys });
			if (!b || !PyBytes_Check((PyObject*)b)) throw Violation{ "state", "Serialize gives no bytes: " + g_exc };
			if ((size_t)PyBytes_GET_SIZE((PyObject*)b) != 8 * c.size() || memcmp(PyBytes_AS_STRING((PyObject*)b), c.data(), 8 * c.size())) throw Violation{ "state", "the bytes of Serialize are not the state" };
			const bool disk2 = S.chance(1, 2);
			const bool full = disk2 && S.chance(1, 3);
			bool saved = false;
			if (disk2) {
				bool hit = false;
				if (full) { long at = fs().nops + (long)S.draw(4); fs().hook = [&hit, at](const FsOp& op) { FsAct a; if (op.index >= at && op.kind == FS_WRITE) { hit = true; a.kind = FA_ERR; a.err = ENOSPC; } return a; }; }
				Ref w = call("Save", { h.sys, str(m.dir + "py.bin") });
				fs().hook = nullptr;
				saved = w.p != nullptr;
				if (full) S.fault("full disk during Save");
				if (hit && saved) throw Violation{ "save", "Save returns although the disk was full" };
				if (!hit && !saved) throw Violation{ "save", "Save raises " + g_exc + " on a healthy disk" };
			}
			std::vector<double> x2 = p.x[i], v2 = p.xd[i];
			for (double& z : v2) z += 0.3;
			Ref w = call("Step", { h.sys, seq(x2, 0), seq(v2, 0), num(T[i + 1]), num(p.dt[i]) });
			Ref back = saved ? call("Load", { h.sys, str(m.dir + "py.bin") }) : call("Deserialize", { h.sys, b });
			if (!back) throw Violation{ "state", "restoring raises " + g_exc };
			S.fault("rollback");
			if (h.c.serialize() != c) throw Violation{ "state", "the state restored is not the one captured" };
			// (what was written in between stays in the files)
			files.clear();
		}
	}
	if (h.c.serialize() != end) throw Violation{ "step", "the state at the end is not that of a host in C" };
	Ref r = call("Close", { h.sys });
	if (!r || PyLong_AsLong(r)) throw Violation{ "close", "Close gives " + (r.p ? fmt("%ld", PyLong_AsLong(r)) : g_exc) };
	if (!files.empty()) {
		for (auto& kv : files) { auto it = fs().img.find(kv.first); if (it == fs().img.end() || it->second != kv.second) throw Violation{ "files", "file " + kv.first + " is not the one a host in C gets" }; }
		S.probe("files compared");
	}
	S.nontrivial = true;
	S.probe("scheme " + m.scheme);
}
#endif
