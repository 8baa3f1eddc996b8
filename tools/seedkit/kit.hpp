// Small helpers shared by the demonstrations
#include "MoorDyn2.h"
#include "Line.h"
#include "Point.h"
#include "Rod.h"
#include "Body.h"
#include "Waves.h"
#include "Seafloor.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
#include <cstdint>
using std::string;
using std::vector;
static void put(const string& name, const string& text) { std::ofstream f(name); f << text; }
static string get(const string& name) { std::ifstream f(name); return string(std::istreambuf_iterator<char>(f), {}); }
static int fail(const char* why) { printf("\nDEMO: %s\n", why); fflush(stdout); return 1; }
static int fine() { printf("\nDEMO: ok\n"); fflush(stdout); return 0; }
// A model file: the sections given are put together in the usual order
static string model(const string& bodies, const string& rods, const string& points, const string& lines, const string& options, const string& outputs = "")
{
	string s = "--- MoorDyn Input File ---\ndemo\n--- LINE TYPES ---\nTypeName Diam Mass/m EA BA/-zeta EI Cd Ca CdAx CaAx\n(name) (m) (kg/m) (N) (N-s/-) (N-m^2) (-) (-) (-) (-)\n"
	           "main 0.1 50 5e5 -0.5 0 1.2 1.0 0.1 0.1\nstiff 0.1 50 5e5 -0.5 2e4 1.2 1.0 0.1 0.1\n";
	if (!rods.empty()) s += "--- ROD TYPES ---\nTypeName Diam Mass/m Cd Ca CdEnd CaEnd\n(name) (m) (kg/m) (-) (-) (-) (-)\nrod 0.4 200 1.0 1.0 0.6 0.5\n";
	if (!bodies.empty()) s += "--- BODIES ---\nID Attachment X0 Y0 Z0 r0 p0 y0 Mass CG* I* Volume CdA* Ca*\n(#) (word) (m) (m) (m) (deg) (deg) (deg) (kg) (m) (kg-m^2) (m^3) (m^2) (-)\n" + bodies;
	if (!rods.empty()) s += "--- RODS ---\nID RodType Attachment Xa Ya Za Xb Yb Zb NumSegs RodOutputs\n(#) (name) (word/ID) (m) (m) (m) (m) (m) (m) (-) (-)\n" + rods;
	s += "--- POINTS ---\nID Attachment X Y Z M V CdA CA\n(-) (-) (m) (m) (m) (kg) (m^3) (m^2) (-)\n" + points;
	s += "--- LINES ---\nID LineType AttachA AttachB UnstrLen NumSegs Outputs\n(#) (name) (#) (#) (m) (-) (-)\n" + lines;
	s += "--- OPTIONS ---\n" + options;
	s += "--- OUTPUTS ---\n" + outputs + "--- need this line ---\n";
	return s;
}
