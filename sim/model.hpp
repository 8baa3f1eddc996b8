// Random mooring systems: input files, initial coupled positions and what is known about them.
#pragma once
#include "core.hpp"
#include "seams.hpp"

struct Vec3 { double x = 0, y = 0, z = 0; };
inline Vec3 operator+(Vec3 a, Vec3 b) { return { a.x + b.x, a.y + b.y, a.z + b.z }; }
inline Vec3 operator-(Vec3 a, Vec3 b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
inline Vec3 operator*(double k, Vec3 a) { return { a.x * k, a.y * k, a.z * k }; }
inline double dot(Vec3 a, Vec3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline Vec3 cross(Vec3 a, Vec3 b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
inline double norm(Vec3 a) { return std::sqrt(dot(a, a)); }

enum BType { B_FIXED, B_FREE, B_CPL, B_CPLPIN };
enum RType { R_FIXED, R_PINNED, R_FREE, R_CPL, R_CPLPIN, R_BODY, R_BODYPIN };
enum PType { P_FIXED, P_FREE, P_CPL, P_BODY };

struct MBody { BType type; Vec3 p; Vec3 ang; double mass, vol; Vec3 cg, I; Vec3 cdt, cdr, ca; };
struct MRod { RType type; int body = -1; Vec3 a, b; double len; int n; int rtype; bool out = false; std::string flags; };
struct MPoint { PType type; int body = -1; Vec3 p /*global or relative to the body*/; double mass, vol, cda, ca; };
struct MEnd { bool rod = false; int idx = 0; int end = 0; };
struct MLine { MEnd a, b; double len; int n; int ltype; std::string flags; };
struct MLineType { double d, w, EA, BA, EI, Cd, Ca, CdAx, CaAx; bool eatab = false; std::vector<std::pair<double, double>> ea; };
struct MRodType { double d, w, Cd, Ca, CdEnd, CaEnd; };

struct ModelOpts {
	bool bodies = true, rods = true, free_points = true, coupled = true;
	bool waves = true, currents = true, external = false, seafloor3d = true, friction = true;
	bool ea_tables = true, bending = true;
	bool outputs = true;   // output channels, dtOut, per object files
	bool logfile = true;   // writeLog
	bool pow2dt = false;   // dtM exactly a power of two
	bool fixed_dt = false; // always give dtM
	bool short_waves = false; // wave tables that end soon (then they repeat), grids that reach above the water
	bool env = false;      // mostly with waves, currents and bathymetry
	bool always_ic = false; // always ask for a (short) IC generation
	bool ic = true;        // allow models that ask for a (short) IC generation
	int max_lines = 3;
	int max_segs = 6;
	std::vector<std::string> schemes; // empty: all
	bool still = false;    // no waves, no current
	int force_cpl_point = 0; // at least this many coupled points
	bool surface = false;  // also points at and above the water surface
	bool surface_rods = false; // rods across the water surface
	bool wide = true;      // now and then a large system
	bool zero_rods = false; // rods without length, which join lines
	bool fluids = true;    // vary gravity and water density
	bool damped = false;   // everything that moves is well damped
};

struct Model {
	std::string named;             // how the host names the main input file, if not by its full path
	std::string dir, file, base;   // "/sim/<name>/", main input file, "/sim/<name>/m"
	FsImage files;
	std::vector<MLineType> lt;
	std::vector<MRodType> rt;
	std::vector<MBody> bodies;
	std::vector<MRod> rods;
	std::vector<MPoint> points;
	std::vector<MLine> lines;
	std::string scheme;
	double depth = 0, kb = 0, cb = 0, g = 9.80665, rho = 1025;
	double dtM = 0, cfl = 0;      // what the file says (0: not given)
	double dtEst = 0;             // an estimate of a stable internal step
	double dtOut = 0;
	int writeUnits = 1, writeLog = 0;
	int waveKin = 0, currents = 0;
	bool seafloor3d = false;
	bool noic = true; bool legacy_ic = false;
	double fric = 0, fricDamp = 200, statDyn = 1;
	struct Spec { double w, re, im, beta; };
	std::vector<Spec> spec;        // wave_frequencies.txt
	std::vector<std::pair<double, double>> elev; // wave_elevation.txt
	double dtWave = 0.5;
	std::vector<double> gx, gy, gz; // water_grid.txt
	std::vector<double> cx, cy, cz, ct; // axes of the current table
	std::vector<Vec3> cu;          // [x][y][z][t]
	bool unify = true;
	std::vector<double> bx, by, bz; // bathymetry; bz[x][y]
	std::vector<std::string> outs; // requested channels
	std::vector<double> x0;        // initial coupled positions, in host order
	std::vector<int> dof_obj;      // for each dof: object kind (0 body,1 rod,2 point)*1000+idx
	std::vector<int> dof_dir;      // 0..5
	std::string summary;
	std::vector<std::string> sections; // text lines of the main file (for corruption)
	int ncpl() const { return (int)x0.size(); }
	void install() const;          // put its files on the simulated disk
	uint64_t sighash() const { return fnv(FNV0, summary); }
	Vec3 endpos(const MEnd& e) const;
	std::string text() const { return files.at(file); }
};
Model make_model(Sim& S, const std::string& name, const ModelOpts& o);
extern const std::vector<std::string> ALL_SCHEMES;
Vec3 rot_euler(Vec3 ang, Vec3 v); // roll, pitch, yaw as the library takes them

// Prescribed motion of the coupled degrees of freedom: a smooth function of time
struct Motion {
	std::vector<double> x0, amp, om, ph;
	bool still = false;
	void at(double t, std::vector<double>& x, std::vector<double>& xd) const;
};
Motion make_motion(Sim& S, const Model& m, double scale = 1.0);
