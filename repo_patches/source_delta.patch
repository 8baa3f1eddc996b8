From f3e3bce422d3520258d1f80993a16344af412d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:10 +0000
Subject: [PATCH 01/60] fix: save and restore the unstretched length of the
 lines and its rate

A state saved after paying line out or in was restored with the length of
the receiving simulation, so that neither rollbacks nor restarts continued
the saved simulation.
---
 source/Line.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index 75b9f3a..b8c1206 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1374,6 +1374,9 @@ Line::Serialize(void)
 	std::vector<uint64_t> data, subdata;
 
 	data.push_back(io::IO::Serialize(t));
+	data.push_back(io::IO::Serialize(UnstrLen));
+	data.push_back(io::IO::Serialize(UnstrLen0));
+	data.push_back(io::IO::Serialize(UnstrLend));
 	subdata = io::IO::Serialize(r);
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd);
@@ -1425,6 +1428,9 @@ Line::Deserialize(const uint64_t* data)
 {
 	uint64_t* ptr = (uint64_t*)data;
 	ptr = io::IO::Deserialize(ptr, t);
+	ptr = io::IO::Deserialize(ptr, UnstrLen);
+	ptr = io::IO::Deserialize(ptr, UnstrLen0);
+	ptr = io::IO::Deserialize(ptr, UnstrLend);
 	ptr = io::IO::Deserialize(ptr, r);
 	ptr = io::IO::Deserialize(ptr, rd);
 	ptr = io::IO::Deserialize(ptr, q);
-- 
2.43.0


From c0c322dd8b03b9cd9fb4eb0901bbb7ba9596415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:09 +0000
Subject: [PATCH 02/60] fix: save and restore the progress of the local time
 steps

The local time step schemes forgot how much of the step of each line was
already integrated, so a restored simulation updated its lines at other
instants than the saved one.
---
 source/Time.cpp |  3 +++
 source/Time.hpp | 37 +++++++++++++++++++++++++++++++++++--
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index bf0ef08..60e07f6 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -297,6 +297,9 @@ LocalTimeSchemeBase<NSTATE, NDERIV>::ComputeDt()
 	for (auto obj : this->bodies)
 		dt = (std::min)(dt, obj->cfl2dt(this->cfl));
 
+	// This might be called several times, so drop the former values
+	_dt0 = deltat();
+	_dt = deltat();
 	for (auto line : this->lines) {
 		const real dt_line = line->cfl2dt(this->cfl);
 		_dt0.lines.push_back(0.999 * dt_line);
diff --git a/source/Time.hpp b/source/Time.hpp
index 58c5f0c..5c3e7e5 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -890,6 +890,39 @@ class LocalTimeSchemeBase : public TimeSchemeBase<NSTATE, NDERIV>
 		ComputeDt();
 	}
 
+	/** @brief Produce the packed data to be saved
+	 *
+	 * The produced data can be used afterwards to restore the saved information
+	 * afterwards calling Deserialize(void).
+	 * @return The packed data
+	 */
+	virtual std::vector<uint64_t> Serialize(void)
+	{
+		std::vector<uint64_t> data =
+		    TimeSchemeBase<NSTATE, NDERIV>::Serialize();
+		// We append the already integrated part of the local time steps
+		for (auto dts : { &_dt.lines, &_dt.points, &_dt.rods, &_dt.bodies }) {
+			std::vector<uint64_t> subdata = io::IO::Serialize(*dts);
+			data.insert(data.end(), subdata.begin(), subdata.end());
+		}
+		return data;
+	}
+
+	/** @brief Unpack the data to restore the Serialized information
+	 *
+	 * This is the function that each inherited class must implement, and should
+	 * be the inverse of Serialize(void)
+	 * @param data The packed data
+	 * @return A pointer to the end of the file, for debugging purposes
+	 */
+	virtual uint64_t* Deserialize(const uint64_t* data)
+	{
+		uint64_t* ptr = TimeSchemeBase<NSTATE, NDERIV>::Deserialize(data);
+		for (auto dts : { &_dt.lines, &_dt.points, &_dt.rods, &_dt.bodies })
+			ptr = io::IO::Deserialize(ptr, *dts);
+		return ptr;
+	}
+
   protected:
 	/** @brief Costructor
 	 * @param log Logging handler
@@ -1081,7 +1114,7 @@ class ABScheme : public LocalTimeSchemeBase<1, 5>
 	 */
 	virtual std::vector<uint64_t> Serialize(void)
 	{
-		std::vector<uint64_t> data = TimeSchemeBase::Serialize();
+		std::vector<uint64_t> data = LocalTimeSchemeBase::Serialize();
 		// We append the number of available steps
 		data.push_back(io::IO::Serialize((uint64_t)n_steps));
 
@@ -1097,7 +1130,7 @@ class ABScheme : public LocalTimeSchemeBase<1, 5>
 	 */
 	virtual uint64_t* Deserialize(const uint64_t* data)
 	{
-		uint64_t* ptr = TimeSchemeBase::Deserialize(data);
+		uint64_t* ptr = LocalTimeSchemeBase::Deserialize(data);
 		uint64_t n;
 		ptr = io::IO::Deserialize(ptr, n);
 		n_steps = n;
-- 
2.43.0


From 0dbeae7970bb0994fbb6224f561b726f057b9752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:49 +0000
Subject: [PATCH 03/60] fix: pack the floating point numbers of a saved state
 without loss

Packing an infinite number never ended, and the sign of zeros, denormals and
NaNs were lost.
---
 source/IO.cpp | 114 +++++++++++---------------------------------------
 1 file changed, 25 insertions(+), 89 deletions(-)

diff --git a/source/IO.cpp b/source/IO.cpp
index 895b5c1..44b623a 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -30,6 +30,9 @@
 
 #include "IO.hpp"
 #include <climits>
+#include <cstdint>
+#include <cstring>
+#include <limits>
 #include <iostream>
 #include <fstream>
 #include <stdlib.h>
@@ -47,114 +50,47 @@ namespace io {
 #define MOORDYN_MINOR_VERSION 0
 #endif
 
+static_assert(std::numeric_limits<double>::is_iec559 &&
+                  sizeof(double) == sizeof(uint64_t),
+              "64 bits IEEE754 floating point numbers are required");
+
 /** @brief Pack a floating point number into an integer
  *
- * This operation can be reverted with unpack754(). However, the result is still
- * non-portable, since the resulting integer must have different endianness
+ * The number is kept as it is, including zero signs, denormals, infinities and
+ * NaNs. This operation can be reverted with unpack754(). However, the result is
+ * still non-portable, since the resulting integer must have different
+ * endianness
  * @param f The floating point number
- * @param bits The number of bits of the mantissa
- * @param expbits The number of bits of the exponent
  * @return Packed number
  * @see unpack754()
  * @see is_big_endian()
  * @see swap_endian
  */
-long long
-pack754(long double f, unsigned bits, unsigned expbits)
-{
-	long double fnorm;
-	int shift;
-	long long sign, exp, significand;
-	unsigned significandbits = bits - expbits - 1; // -1 for sign bit
-
-	if (f == 0.0)
-		return 0; // get this special case out of the way
-
-	// check sign and begin normalization
-	if (f < 0) {
-		sign = 1;
-		fnorm = -f;
-	} else {
-		sign = 0;
-		fnorm = f;
-	}
-
-	// get the normalized form of f and track the exponent
-	shift = 0;
-	while (fnorm >= 2.0) {
-		fnorm /= 2.0;
-		shift++;
-	}
-	while (fnorm < 1.0) {
-		fnorm *= 2.0;
-		shift--;
-	}
-	fnorm = fnorm - 1.0;
-
-	// calculate the binary form (non-float) of the significant data
-	significand = fnorm * ((1LL << significandbits) + 0.5f);
-
-	// get the biased exponent
-	exp = shift + ((1 << (expbits - 1)) - 1); // shift + bias
-
-	// return the final answer
-	return (sign << (bits - 1)) | (exp << (bits - expbits - 1)) | significand;
+static uint64_t
+pack754(double f)
+{
+	uint64_t i;
+	memcpy(&i, &f, sizeof(uint64_t));
+	return i;
 }
 
 /** @brief Unpack a floating point number from an integer
  *
  * This operation is the inverse of pack754()
  * @param i The packed integer
- * @param bits The number of bits of the mantissa
- * @param expbits The number of bits of the exponent
  * @return The unpacket floating point number
  * @see pack754()
  * @see is_big_endian()
  * @see swap_endian
  */
-long double
-unpack754(long long i, unsigned bits, unsigned expbits)
-{
-	long double result;
-	long long shift;
-	unsigned bias;
-	unsigned significandbits = bits - expbits - 1; // -1 for sign bit
-
-	if (i == 0)
-		return 0.0;
-
-	// pull the significand
-	result = (i & ((1LL << significandbits) - 1)); // mask
-	result /= (1LL << significandbits);            // convert back to float
-	result += 1.0f;                                // add the one back on
-
-	// deal with the exponent
-	bias = (1 << (expbits - 1)) - 1;
-	shift = ((i >> significandbits) & ((1LL << expbits) - 1)) - bias;
-	while (shift > 0) {
-		result *= 2.0;
-		shift--;
-	}
-	while (shift < 0) {
-		result /= 2.0;
-		shift++;
-	}
-
-	// sign it
-	result *= (i >> (bits - 1)) & 1 ? -1.0 : 1.0;
-
-	return result;
+static double
+unpack754(uint64_t i)
+{
+	double f;
+	memcpy(&f, &i, sizeof(uint64_t));
+	return f;
 }
 
-/// Pack IEEE754 32bits float numbers
-#define pack754_32(f) (pack754((f), 32, 8))
-/// Pack IEEE754 64bits double numbers
-#define pack754_64(f) (pack754((f), 64, 11))
-/// Unpack IEEE754 32bits float numbers
-#define unpack754_32(i) (unpack754((i), 32, 8))
-/// Unpack IEEE754 64bits double numbers
-#define unpack754_64(i) (unpack754((i), 64, 11))
-
 /** @brief CHeck if the platform is big endian
  * @return true for big endian platforms, false otherwise
  */
@@ -323,7 +259,7 @@ IO::Serialize(const int64_t& i)
 uint64_t
 IO::Serialize(const real& f)
 {
-	return Serialize((int64_t)pack754_64((double)f));
+	return Serialize(pack754((double)f));
 }
 
 std::vector<uint64_t>
@@ -480,7 +416,7 @@ IO::Deserialize(const uint64_t* in, real& out)
 {
 	uint64_t uout;
 	uint64_t* remaining = Deserialize(in, uout);
-	out = (real)unpack754_64(uout);
+	out = (real)unpack754(uout);
 	return remaining;
 }
 
-- 
2.43.0


From cd7861c5a9a9a430cd9a30705042fb1b446bce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:17 +0000
Subject: [PATCH 04/60] fix: the Wilson scheme advanced the clock 2 * theta - 1
 times too much

The evaluation happens at theta * dt, ahead of the end of the time step, so
the clock has to be taken back by (theta - 1) * dt afterwards.
---
 source/Time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index 60e07f6..dee1c55 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -797,7 +797,7 @@ ImplicitWilsonScheme::Step(real& dt)
 	}
 
 	// Apply
-	t -= (1.f - _theta) * dt;
+	t += (1.0 - _theta) * dt;
 	r[1] = r[0] + rd[0].Wilson(rd[1], dt, tdt) * dt;
 	r[0] = r[1];
 	rd[0] = rd[1];
-- 
2.43.0


From 310faef5f239b901fdb36721a39989abe4dd1418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:09 +0000
Subject: [PATCH 05/60] fix: report failed checkpoint writes and reject damaged
 or foreign checkpoints before touching the state

---
 source/IO.cpp       | 39 +++++++++++++++++++++++++--------------
 source/IO.hpp       |  9 +++++++++
 source/MoorDyn2.hpp |  9 +++++++++
 3 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/source/IO.cpp b/source/IO.cpp
index 44b623a..86d7024 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -169,6 +169,10 @@ IO::Save(const std::string filepath)
 		f.write((char*)&v, sizeof(uint64_t));
 	}
 	f.close();
+	if (!f) {
+		LOGERR << "Failure writing the file '" << filepath << "'" << endl;
+		throw moordyn::output_file_error("Write error");
+	}
 }
 
 void
@@ -190,14 +194,13 @@ IO::Load(const std::string filepath)
 		       << "' is too small to be a MoorDyn file" << endl;
 		throw moordyn::input_file_error("Invalid file");
 	}
-	char magic[8];
-	magic[7] = '\0';
+	char magic[8] = "";
 	f.read(magic, 7 * sizeof(char));
 	if (strcmp(magic, "MoorDyn")) {
 		LOGERR << "The file '" << filepath << "' is not a MoorDyn file" << endl;
 		throw moordyn::input_file_error("Invalid file");
 	}
-	uint8_t major, minor;
+	uint8_t major = 0, minor = 0;
 	f.read((char*)&major, sizeof(uint8_t));
 	f.read((char*)&minor, sizeof(uint8_t));
 	if ((major < _min_major_version) ||
@@ -210,6 +213,10 @@ IO::Load(const std::string filepath)
 	// Check that the amount of information is correct
 	uint64_t length;
 	f.read((char*)&length, sizeof(uint64_t));
+	if (!f) {
+		LOGERR << "Failure reading the header of '" << filepath << "'" << endl;
+		throw moordyn::input_file_error("Read error");
+	}
 	const uint64_t size = length * sizeof(uint64_t);
 	if (size != fsize - header_size) {
 		LOGERR << fsize - header_size
@@ -218,26 +225,30 @@ IO::Load(const std::string filepath)
 		throw moordyn::input_error("Invalid size");
 	}
 
+	// Check that the data can be unpacked, before touching anything
+	if (!AcceptsSize(length)) {
+		LOGERR << "The file '" << filepath
+		       << "' was written by a different system" << endl;
+		throw moordyn::input_error("Invalid size");
+	}
+
 	// Read the data and close the file, which we do not need anymore
-	uint64_t* data = (uint64_t*)malloc(size);
-	if (!data) {
-		LOGERR << "Failure allocating the " << size << " bytes to read '"
-		       << filepath << "'" << endl;
-		throw moordyn::mem_error("Allocation error");
+	std::vector<uint64_t> data(length);
+	if (!f.read((char*)data.data(), size)) {
+		LOGERR << "Failure reading the " << size << " bytes of '" << filepath
+		       << "'" << endl;
+		throw moordyn::input_file_error("Read error");
 	}
-	f.read((char*)data, size);
 	f.close();
 
 	// So do the unpacking job
-	const uint64_t* end = Deserialize(data);
-	if (data + length != end) {
-		const uint64_t l = end - data;
+	const uint64_t* end = Deserialize(data.data());
+	if (data.data() + length != end) {
+		const uint64_t l = end - data.data();
 		LOGERR << l * sizeof(uint64_t) << " bytes (vs. " << size
 		       << " bytes expected) unpacked from '" << filepath << "'" << endl;
 		throw moordyn::mem_error("Allocation error");
 	}
-
-	free(data);
 }
 
 uint64_t
diff --git a/source/IO.hpp b/source/IO.hpp
index 0a0c75b..11c8933 100644
--- a/source/IO.hpp
+++ b/source/IO.hpp
@@ -107,6 +107,15 @@ class IO : public LogUser
 	 */
 	virtual uint64_t* Deserialize(const uint64_t* data) = 0;
 
+	/** @brief Check whether packed data of a given size can be unpacked
+	 *
+	 * Load() asks before calling Deserialize(), so a file which has been
+	 * written by something else is rejected with no side effects
+	 * @param size The number of packed values
+	 * @return true if the data can be unpacked, false otherwise
+	 */
+	virtual bool AcceptsSize(const uint64_t size) { return true; }
+
   protected:
 	/** @brief Pack an unsigned integer to make it writable
 	 * @param i The unsigned integer number
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 1f6c4ae..2a093b9 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -277,6 +277,15 @@ class MoorDyn final : public io::IO
 	 */
 	std::vector<uint64_t> Serialize(void);
 
+	/** @brief Check whether packed data of a given size can be unpacked
+	 * @param size The number of packed values
+	 * @return true if it is the size that Serialize(void) produces
+	 */
+	bool AcceptsSize(const uint64_t size)
+	{
+		return size == Serialize().size();
+	}
+
 	/** @brief Unpack the data to restore the Serialized information
 	 *
 	 * This is the inverse of Serialize(void)
-- 
2.43.0


From d8ad5978e932ffd5f723ade7773e8112243667b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:09 +0000
Subject: [PATCH 06/60] fix: initialise every member that getters and
 checkpoints expose

---
 source/Body.cpp  | 20 ++++++++++++++++++++
 source/Line.cpp  | 12 +++++++++++-
 source/Point.cpp |  4 ++++
 source/Rod.cpp   | 19 +++++++++++++++++++
 source/Time.hpp  |  3 +++
 5 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index 0a68ced..97add60 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -40,7 +40,27 @@ namespace moordyn {
 
 Body::Body(moordyn::Log* log, size_t id)
   : io::IO(log)
+  , body_r6(vec6::Zero())
+  , body_rCG(vec::Zero())
+  , bodyM(0.0)
+  , bodyV(0.0)
+  , bodyI(vec::Zero())
+  , bodyCdA(vec6::Zero())
+  , bodyCa(vec6::Zero())
+  , r7(XYZQuat::Zero())
+  , v6(vec6::Zero())
+  , dPos(XYZQuat::Zero())
+  , a6(vec6::Zero())
+  , r_ves(vec6::Zero())
+  , rd_ves(vec6::Zero())
+  , rdd_ves(vec6::Zero())
+  , F6net(vec6::Zero())
+  , M(mat6::Zero())
+  , M0(mat6::Zero())
+  , OrMat(mat::Identity())
+  , outfile(nullptr)
   , bodyId(id)
+  , number(0)
 {
 #ifdef USE_VTK
 	defaultVTK();
diff --git a/source/Line.cpp b/source/Line.cpp
index b8c1206..690b1c7 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -52,8 +52,17 @@ using namespace waves;
 
 Line::Line(moordyn::Log* log, size_t lineId)
   : io::IO(log)
-  , lineId(lineId)
+  , UnstrLen(0.0)
+  , UnstrLen0(0.0)
+  , UnstrLend(0.0)
+  , c(0.0)
   , isPb(false)
+  , t(0.0)
+  , endTypeA(PINNED)
+  , endTypeB(PINNED)
+  , outfile(nullptr)
+  , dtWater(0.0)
+  , lineId(lineId)
 {
 }
 
@@ -135,6 +144,7 @@ Line::setup(int number_in,
 	// Note, this is a temporary value that will be processed depending on sign
 	// during initializeLine
 	UnstrLen = UnstrLen_in;
+	UnstrLen0 = UnstrLen_in;
 	UnstrLend = 0.0;
 	// assign number of nodes to line
 	N = NumSegs;
diff --git a/source/Point.cpp b/source/Point.cpp
index 1016252..9051a39 100644
--- a/source/Point.cpp
+++ b/source/Point.cpp
@@ -48,6 +48,10 @@ namespace moordyn {
 Point::Point(moordyn::Log* log, size_t id)
   : io::IO(log)
   , seafloor(nullptr)
+  , Fnet(vec::Zero())
+  , t(0.0)
+  , M(mat::Zero())
+  , acc(vec::Zero())
   , pointId(id)
 {
 }
diff --git a/source/Rod.cpp b/source/Rod.cpp
index d111f62..ac7e369 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -56,7 +56,26 @@ namespace moordyn {
 Rod::Rod(moordyn::Log* log, size_t rodId)
   : io::IO(log)
   , seafloor(nullptr)
+  , r7(XYZQuat::Zero())
+  , v6(vec6::Zero())
+  , vel7(XYZQuat::Zero())
+  , acc6(vec6::Zero())
+  , FextA(vec::Zero())
+  , FextB(vec::Zero())
+  , Mext(vec::Zero())
+  , F6net(vec6::Zero())
+  , M6net(mat6::Zero())
+  , h0(0.0)
+  , t(0.0)
+  , r_ves(vec6::Zero())
+  , rd_ves(vec6::Zero())
+  , rdd_ves(vec6::Zero())
+  , outfile(nullptr)
+  , openedoutfile(0)
   , rodId(rodId)
+  , number(0)
+  , roll(0.0)
+  , pitch(0.0)
 {
 }
 
diff --git a/source/Time.hpp b/source/Time.hpp
index 5c3e7e5..3ff99e0 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -275,8 +275,11 @@ class TimeScheme : public io::IO
 	 */
 	TimeScheme(moordyn::Log* log)
 	  : io::IO(log)
+	  , ground(nullptr)
 	  , name("None")
 	  , t(0.0)
+	  , t_local(0.0)
+	  , cfl(0.0)
 	{
 	}
 
-- 
2.43.0


From f5aacb9499d231da49afe33ba7c96473dfe945fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:09 +0000
Subject: [PATCH 07/60] fix: do not let exceptions through the C interface
 (Init, Step, log file, allocation failures)

---
 source/Misc.hpp     | 23 ++++++++++++++++++---
 source/MoorDyn2.cpp | 49 ++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index c106fb5..9a46d11 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -48,6 +48,8 @@
 
 #include <memory>
 #include <limits>
+#include <new>
+#include <stdexcept>
 
 #ifdef OSX
 #include <sys/uio.h>
@@ -602,9 +604,9 @@ MAKE_EXCEPTION(unhandled_error)
 	}
 
 /// Catch thrown exceptions and convert them in an error_id. It also gives the
-/// message on the Exception. This macro will only handle known exceptions, i.e.
-/// the ones declared in moordyn_errors. You can add more catch() instances
-/// afterwards
+/// message on the Exception. The exceptions that are not declared in
+/// moordyn_errors are also handled, so nothing derived from std::exception can
+/// go through
 #define MOORDYN_CATCHER(err, msg)                                              \
 	catch (moordyn::input_file_error const& e)                                 \
 	{                                                                          \
@@ -637,6 +639,21 @@ MAKE_EXCEPTION(unhandled_error)
 		msg = e.what();                                                        \
 	}                                                                          \
 	catch (moordyn::unhandled_error const& e)                                  \
+	{                                                                          \
+		err = MOORDYN_UNHANDLED_ERROR;                                         \
+		msg = e.what();                                                        \
+	}                                                                          \
+	catch (moordyn::non_implemented_error const& e)                            \
+	{                                                                          \
+		err = MOORDYN_NON_IMPLEMENTED;                                         \
+		msg = e.what();                                                        \
+	}                                                                          \
+	catch (std::bad_alloc const& e)                                            \
+	{                                                                          \
+		err = MOORDYN_MEM_ERROR;                                               \
+		msg = e.what();                                                        \
+	}                                                                          \
+	catch (std::exception const& e)                                            \
 	{                                                                          \
 		err = MOORDYN_UNHANDLED_ERROR;                                         \
 		msg = e.what();                                                        \
diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 7e6a452..2e49e84 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2369,8 +2369,17 @@ int DECLDIR
 MoorDyn_SetLogFile(MoorDyn system, const char* log_path)
 {
 	CHECK_SYSTEM(system);
-	((moordyn::MoorDyn*)system)->GetLogger()->SetFile(log_path);
-	return MOORDYN_SUCCESS;
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		((moordyn::MoorDyn*)system)->GetLogger()->SetFile(log_path);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
@@ -2401,14 +2410,34 @@ int DECLDIR
 MoorDyn_Init(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		return ((moordyn::MoorDyn*)system)->Init(x, xd);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
 MoorDyn_Init_NoIC(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		return ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
@@ -2420,7 +2449,17 @@ MoorDyn_Step(MoorDyn system,
              double* dt)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Step(x, xd, f, *t, *dt);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		return ((moordyn::MoorDyn*)system)->Step(x, xd, f, *t, *dt);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
-- 
2.43.0


From 165357bd2af6ce9ce9f7db7c30669d6b71dadebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:43 +0000
Subject: [PATCH 08/60] fix: the seabed force of a line node included the
 bending stiffness force

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index 608a693..f446527 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -614,7 +614,7 @@ class Line final : public io::IO, public NatFreqCFL
 			       << ", which only has " << N + 1 << " nodes" << std::endl;
 			throw moordyn::invalid_value_error("Invalid node index");
 		}
-		return B[i] + Bs[i];
+		return B[i];
 	};
 
 	/** @brief Get the line curvature at a node position
-- 
2.43.0


From 592d289abe8605f5fb8ea4f22d1d901ad959b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:43 +0000
Subject: [PATCH 09/60] fix: rounding of the time skipped or repeated rows of
 the output files (dtOut)

---
 source/MoorDyn2.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 2e49e84..3e6d6eb 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2281,8 +2281,12 @@ moordyn::MoorDyn::AllOutput(double t, double dt)
 	// if (env->writeLog == 0)
 	// 	return MOORDYN_SUCCESS;
 
+	// Write just when a multiple of dtOut has been reached along this step. The
+	// time is the outcome of a sum, so a tolerance is required to neither skip
+	// nor repeat outputs
+	const double tol = 1.e-6;
 	if (dtOut > 0)
-		if (t < (floor((t - dt) / dtOut) + 1.0) * dtOut)
+		if (floor(t / dtOut + tol) <= floor((t - dt) / dtOut + tol))
 			return MOORDYN_SUCCESS;
 
 	// write to master output file
-- 
2.43.0


From a70a4a0aa0460e371295c87d63b3b34c1c7af912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:43 +0000
Subject: [PATCH 10/60] fix: write the header of the output files of fixed and
 coupled bodies

---
 source/Body.cpp | 25 ++++++++++++++++++-------
 source/Body.hpp |  9 +++++++++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index 97add60..e0365d6 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -59,6 +59,7 @@ Body::Body(moordyn::Log* log, size_t id)
   , M0(mat6::Zero())
   , OrMat(mat::Identity())
   , outfile(nullptr)
+  , openedoutfile(false)
   , bodyId(id)
   , number(0)
 {
@@ -204,6 +205,8 @@ Body::initializeUnfreeBody(vec6 r6_in, vec6 v6_in, vec6 a6_in)
 	// initialized otherwise
 	for (auto attached : attachedP)
 		attached->initialize();
+
+	openoutput();
 }
 
 std::pair<XYZQuat, vec6>
@@ -231,11 +234,21 @@ Body::initialize()
 			attached->initialize();
 	}
 
+	openoutput();
+
+	LOGDBG << "Initialized Body " << number << endl;
+
+	return std::make_pair(r7, v6);
+};
+
+void
+Body::openoutput()
+{
 	// create output file for writing output (and write channel header and units
 	// lines) if applicable
 
-	if (outfile) // check it's not null.  Null signals no individual line output
-	             // files
+	if (outfile && !openedoutfile) // check it's not null.  Null signals no
+	                               // individual line output files
 	{
 		if (!outfile->is_open()) {
 			LOGERR << "Unable to write file Body" << number << ".out" << endl;
@@ -262,12 +275,10 @@ Body::initialize()
 
 			*outfile << "\n"; // should also write units at some point!
 		}
-	}
-
-	LOGDBG << "Initialized Body " << number << endl;
 
-	return std::make_pair(r7, v6);
-};
+		openedoutfile = true;
+	}
+}
 
 void
 Body::setDependentStates()
diff --git a/source/Body.hpp b/source/Body.hpp
index 96908a2..3d027b8 100644
--- a/source/Body.hpp
+++ b/source/Body.hpp
@@ -153,6 +153,8 @@ class Body final : public io::IO, public SuperCFL
 
 	/// Pointer to moordyn::MoorDyn::outfileMain
 	ofstream* outfile;
+	/// Whether the header of the output file has already been written
+	bool openedoutfile;
 
 	/** @brief Types of bodies
 	 */
@@ -260,6 +262,13 @@ class Body final : public io::IO, public SuperCFL
 	 */
 	inline vec6 getUnfreeVel() const { return rd_ves; }
 
+	/** @brief Write the header of the output file, in case it is not already
+	 * written
+	 * @throws moordyn::output_file_error If an outfile has been provided, but
+	 * it cannot be written
+	 */
+	void openoutput();
+
 	/** @brief Initialize the FREE point state
 	 * @return The 6-dof position (first) and the 6-dof velocity (second)
 	 * @throw moordyn::invalid_value_error If the body is not of type
-- 
2.43.0


From b26971e57bbfff2f9cfd54e33c2e6cdd79fb79bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:16 +0000
Subject: [PATCH 11/60] fix: take and return 6 components per coupled pinned
 body, as documented and counted

---
 source/MoorDyn2.cpp | 10 ++++++----
 source/MoorDyn2.hpp | 10 +++-------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 3e6d6eb..376260f 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -439,13 +439,14 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 			moordyn::array2vec6(xd + ix, rd);
 			ix += 6;
 		} else {
-			// for pinned body 3 entries will be taken
+			// for pinned body 6 entries are passed, but just the first 3 are
+			// considered
 			vec3 r3, rd3, rdd3;
 			moordyn::array2vec(x + ix, r3);
 			r(Eigen::seqN(0, 3)) = r3;
 			moordyn::array2vec(xd + ix, rd3);
 			rd(Eigen::seqN(0, 3)) = rd3;
-			ix += 3;
+			ix += 6;
 		}
 		BodyList[l]->initializeUnfreeBody(r, rd, vec6::Zero());
 	}
@@ -647,7 +648,8 @@ moordyn::MoorDyn::Step(const double* x,
 			rdd = (rd - rd_b) / dt;
 			ix += 6;
 		} else {
-			// for pinned body 3 entries will be taken
+			// for pinned body 6 entries are passed, but just the first 3 are
+			// considered
 			vec3 r3, rd3, rdd3;
 			moordyn::array2vec(x + ix, r3);
 			r(Eigen::seqN(0, 3)) = r3;
@@ -655,7 +657,7 @@ moordyn::MoorDyn::Step(const double* x,
 			rd(Eigen::seqN(0, 3)) = rd3;
 			// determine acceleration 
 		    rdd(Eigen::seqN(0, 3)) = (rd3 - rd_b.head<3>()) / dt;
-			ix += 3;
+			ix += 6;
 		}
 		// acceleration required for inertial terms
 		BodyList[l]->initiateStep(r, rd, rdd);
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 2a093b9..93bec56 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -513,13 +513,9 @@ class MoorDyn final : public io::IO
 		for (auto l : CpldBodyIs) {
 			// BUG: These conversions will not be needed in the future
 			const vec6 f_i = BodyList[l]->getFnet();
-			if (BodyList[l]->type == Body::COUPLED) {
-				moordyn::vec62array(f_i, f + ix);
-				ix += 6; // for coupled bodies 6 entries will be taken
-			} else {
-				moordyn::vec2array(f_i(Eigen::seqN(0, 3)), f + ix);
-				ix += 3; // for pinned bodies 3 entries will be taken
-			}
+			// 6 entries are taken both for coupled and coupled pinned bodies
+			moordyn::vec62array(f_i, f + ix);
+			ix += 6;
 		}
 		for (auto l : CpldRodIs) {
 			const vec6 f_i = RodList[l]->getFnet();
-- 
2.43.0


From 5a4f34cd9471d4ef63f7abf17441504d4159483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:16 +0000
Subject: [PATCH 12/60] fix: the initial orientation of free and pinned rods
 was wrong, and so were the lines attached to their end B

---
 source/Rod.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index ac7e369..42635b5 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -169,13 +169,13 @@ Rod::setup(int number_in,
 	if (type == FREE) {
 		// For an independent rod, set the position right off the bat
 		r7.pos = endCoords.head<3>();
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>());
+		r7.quat = quaternion::Identity(); // the orientation is referred to q0
 		v6 = vec6::Zero();
 	} else if ((type == PINNED) || (type == CPLDPIN)) {
 		// for a pinned rod, just set the orientation (position will be set
 		// later by parent object) 
 		r7.pos = vec3::Zero(); 
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>()); // TODO: Check this is right
+		r7.quat = quaternion::Identity(); // the orientation is referred to q0
 		v6(Eigen::seqN(3, 3)) = vec::Zero();
 	}
 	// otherwise (for a fixed rod) the positions will be set by the parent body
-- 
2.43.0


From 10fe6d1880a0187e2128fa775d0a511f50830d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:30 +0000
Subject: [PATCH 13/60] fix: the tension column of the stiffness tables was
 ignored

---
 source/MoorDyn2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 93bec56..83c2da0 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -745,7 +745,7 @@ class MoorDyn final : public io::IO
 				return MOORDYN_INVALID_INPUT;
 			}
 			x.push_back(atof(entries[0].c_str()));
-			y.push_back(atof(entries[0].c_str()));
+			y.push_back(atof(entries[1].c_str()));
 			LOGDBG << "(" << x.back() << ", " << y.back() << ")" << std::endl;
 		}
 
@@ -780,7 +780,7 @@ class MoorDyn final : public io::IO
 
 		if (xv.size() == 1) {
 			*c = yv.back();
-			n = 0;
+			*n = 0;
 			return MOORDYN_SUCCESS;
 		}
 
-- 
2.43.0


From 914b46ba8968dea87bc1fb7ef386c17678ce4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:16 +0000
Subject: [PATCH 14/60] fix: changing the time scheme while running reset the
 clock and the objects, and left the waves with a dangling pointer

---
 source/MoorDyn2.cpp |  7 +++----
 source/MoorDyn2.hpp | 26 ++++++++++++++++----------
 source/Time.hpp     | 11 ++++++++++-
 source/Waves.hpp    |  5 +++++
 4 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 376260f..bfa1df2 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2729,19 +2729,18 @@ MoorDyn_SetTimeScheme(MoorDyn system, const char* name)
 	moordyn::error_id err = MOORDYN_SUCCESS;
 	string err_msg;
 	moordyn::MoorDyn* sys = (moordyn::MoorDyn*)system;
-	moordyn::TimeScheme* tscheme;
+	moordyn::TimeScheme* tscheme = nullptr;
 	try {
 		tscheme = create_time_scheme(name, sys->GetLogger(), sys->GetWaves());
+		sys->SetTimeScheme(tscheme);
 	}
 	MOORDYN_CATCHER(err, err_msg);
 	if (err != MOORDYN_SUCCESS) {
+		delete tscheme;
 		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
 		     << err_msg << endl;
 		return err;
 	}
-	auto state = sys->GetTimeScheme()->GetState();
-	sys->SetTimeScheme(tscheme);
-	tscheme->SetState(state);
 
 	return MOORDYN_SUCCESS;
 }
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 83c2da0..8beb52a 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -345,6 +345,7 @@ class MoorDyn final : public io::IO
 			cfl = (std::max)(cfl, obj->dt2cfl(dtM0));
 		for (auto obj : BodyList)
 			cfl = (std::max)(cfl, obj->dt2cfl(dtM0));
+		_t_integrator->SetCFL(cfl);
 	}
 
 	/** @brief Get the model Courant–Friedrichs–Lewy factor
@@ -367,6 +368,7 @@ class MoorDyn final : public io::IO
 			dtM0 = (std::min)(dtM0, obj->cfl2dt(cfl));
 		for (auto obj : BodyList)
 			dtM0 = (std::min)(dtM0, obj->cfl2dt(cfl));
+		_t_integrator->SetCFL(cfl);
 	}
 
 	/** @brief Get the current time integrator
@@ -375,22 +377,26 @@ class MoorDyn final : public io::IO
 	inline TimeScheme* GetTimeScheme() const { return _t_integrator; }
 
 	/** @brief Set the current time integrator
-	 * @return The time integrator
+	 *
+	 * The time and the state are taken from the former time integrator
+	 * @param tscheme The time integrator
 	 */
 	inline void SetTimeScheme(TimeScheme* tscheme) {
-		if (_t_integrator) delete _t_integrator;
-		_t_integrator = tscheme;
-		_t_integrator->SetGround(GroundBody);
+		tscheme->SetGround(GroundBody);
 		for (auto obj : BodyList)
-			_t_integrator->AddBody(obj);
+			tscheme->AddBody(obj);
 		for (auto obj : RodList)
-			_t_integrator->AddRod(obj);
+			tscheme->AddRod(obj);
 		for (auto obj : PointList)
-			_t_integrator->AddPoint(obj);
+			tscheme->AddPoint(obj);
 		for (auto obj : LineList)
-			_t_integrator->AddLine(obj);
-		_t_integrator->SetCFL(cfl);
-		_t_integrator->Init();
+			tscheme->AddLine(obj);
+		tscheme->SetCFL(cfl);
+		tscheme->SetState(_t_integrator->GetState());
+		tscheme->SetTime(_t_integrator->GetTime());
+		waves->setTimeScheme(tscheme);
+		delete _t_integrator;
+		_t_integrator = tscheme;
 	}
 
   protected:
diff --git a/source/Time.hpp b/source/Time.hpp
index 3ff99e0..ec45b2c 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -223,7 +223,7 @@ class TimeScheme : public io::IO
 	/** @brief Set the CFL factor
 	 * @param cfl The CFL factor
 	 */
-	inline void SetCFL(const real& cfl) { this->cfl = cfl; }
+	virtual inline void SetCFL(const real& cfl) { this->cfl = cfl; }
 
 	/** @brief Prepare everything for the next outer time step
 	 *
@@ -883,6 +883,15 @@ class LocalTimeSchemeBase : public TimeSchemeBase<NSTATE, NDERIV>
 		ComputeDt();
 	}
 
+	/** @brief Set the CFL factor
+	 * @param cfl The CFL factor
+	 */
+	inline void SetCFL(const real& cfl)
+	{
+		TimeSchemeBase<NSTATE, NDERIV>::SetCFL(cfl);
+		ComputeDt();
+	}
+
 	/** @brief Resume the simulation from the stationary solution
 	 * @param state The stationary solution
 	 * @param i The index of the state variable to take
diff --git a/source/Waves.hpp b/source/Waves.hpp
index 118a9ab..119929f 100644
--- a/source/Waves.hpp
+++ b/source/Waves.hpp
@@ -674,6 +674,11 @@ class Waves : public LogUser
 	           SeafloorRef seafloor,
 	           TimeScheme* t,
 	           const char* folder = "Mooring/");
+
+	/** @brief Set the time integration scheme, which knows the time
+	 * @param t The time integration scheme
+	 */
+	inline void setTimeScheme(TimeScheme* t) { _t_integrator = t; }
 };
 
 // other relevant functions being thrown into this file for now (should move to
-- 
2.43.0


From 4ddfe10530962d88ea149174620234414cbd2445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:16 +0000
Subject: [PATCH 15/60] fix: subtracting the states of rods and bodies added
 them

---
 source/State.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index ea42afb..8d4f209 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -115,8 +115,8 @@ StateVar<XYZQuat, vec6>
 StateVar<XYZQuat, vec6>::operator-(const StateVar<XYZQuat, vec6>& rhs)
 {
 	StateVar<XYZQuat, vec6> out;
-	out.pos = pos + rhs.pos;
-	out.vel = vel + rhs.vel;
+	out.pos = pos - rhs.pos;
+	out.vel = vel - rhs.vel;
 	return out;
 }
 
-- 
2.43.0


From 376a247da57cd9b6e5d6492759e77629fceb18db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:16 +0000
Subject: [PATCH 16/60] fix: Adams-Bashforth schemes took one derivative more
 than their order

---
 source/Time.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index dee1c55..c686a0f 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -459,7 +459,7 @@ ABScheme<order, local>::Step(real& dt)
 	shift();
 
 	// Get the new derivative
-	if (local && (n_steps == order))
+	if (local && (n_steps == order - 1))
 		SetCalcMask(dt);
 	CalcStateDeriv(0);
 
@@ -486,7 +486,9 @@ ABScheme<order, local>::Step(real& dt)
 			       rd[3] * (dt * 637.0 / 360.0) + rd[4] * (dt * 251.0 / 720.0);
 	}
 
-	n_steps = (std::min)(n_steps + 1, order);
+	// The order of the scheme is the number of derivatives considered,
+	// including the one that will be computed on the next step
+	n_steps = (std::min)(n_steps + 1, order - 1);
 	t += dt;
 	Update(dt, 0);
 	TimeSchemeBase::Step(dt);
-- 
2.43.0


From 38d5cda6504837167a9fa3c4fb9a45b5a8148d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:16 +0000
Subject: [PATCH 17/60] fix: rotations were taken as quaternion rates in
 Newmark, Wilson and stationary schemes

---
 source/State.cpp | 16 ++++++++++++----
 source/Time.cpp  | 18 ++++++++++++++++--
 source/Time.hpp  | 11 +++++++++--
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 8d4f209..e2c1c18 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -422,7 +422,9 @@ template<>
 real StateVarDeriv<XYZQuat, vec6>::MakeStationary(const real &dt)
 {
 	real ret = acc.head<3>().norm();
-	vel = XYZQuat::fromVec6(0.5 * dt * acc);
+	vel.pos = 0.5 * dt * acc.head<3>();
+	const vec w = 0.5 * dt * acc.tail<3>();
+	vel.quat = quaternion(0.0, 0.5 * w[0], 0.5 * w[1], 0.5 * w[2]);
 	acc = vec6::Zero();
 	return ret;
 }
@@ -476,7 +478,9 @@ StateVarDeriv<XYZQuat, vec6>::Newmark(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const vec6 acc_gamma = (1 - gamma) * acc + gamma * visitor.acc;
 	const vec6 acc_beta = (0.5 - beta) * acc + beta * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(dt * acc_beta);
+	ret.vel.pos = vel.pos + dt * acc_beta.head<3>();
+	// The rotation is integrated with the mean rate of change
+	ret.vel.quat = 0.5 * (vel.quat.coeffs() + visitor.vel.quat.coeffs());
 	ret.acc = acc_gamma;
 	return ret;
 }
@@ -535,8 +539,12 @@ StateVarDeriv<XYZQuat, vec6>::Wilson(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(0.5 * dt * (
-		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc));
+	ret.vel.pos = vel.pos + 0.5 * dt * (
+		(1 - 1.0 / 3.0 * f) * acc.head<3>() +
+		1.0 / 3.0 * f * visitor.acc.head<3>());
+	// The rate of change of the rotation is assumed to vary linearly
+	ret.vel.quat = (1 - 0.5 * f) * vel.quat.coeffs() +
+	               0.5 * f * visitor.vel.quat.coeffs();
 	return ret;
 }
 
diff --git a/source/Time.cpp b/source/Time.cpp
index c686a0f..39deb26 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -173,13 +173,27 @@ StationaryScheme::StationaryScheme(moordyn::Log* log, moordyn::WavesRef waves)
 #define STATIONARY_RELAX 0.5
 #endif
 
+real
+StationaryScheme::MakeStationary(const real& dt)
+{
+	const real error = rd[0].MakeStationary(dt);
+	// Refer the rotations to the current orientations
+	for (unsigned int i = 0; i < rods.size(); i++)
+		rd[0].rods[i].vel.quat =
+		    rd[0].rods[i].vel.quat * r[0].rods[i].pos.quat;
+	for (unsigned int i = 0; i < bodies.size(); i++)
+		rd[0].bodies[i].vel.quat =
+		    rd[0].bodies[i].vel.quat * r[0].bodies[i].pos.quat;
+	return error;
+}
+
 void
 StationaryScheme::Step(real& dt)
 {
 	Update(0.0, 0);
 	CalcStateDeriv(0);
 	const real error_prev = _error;
-	_error = rd[0].MakeStationary(dt);
+	_error = MakeStationary(dt);
 	if (error_prev != 0.0) {
 		if (error_prev >= _error) {
 			// Let's try to boost the convergence
@@ -192,7 +206,7 @@ StationaryScheme::Step(real& dt)
 			r[0].Mix(r[1], STATIONARY_RELAX);
 			Update(0.0, 0);
 			CalcStateDeriv(0);
-			_error = rd[0].MakeStationary(dt);
+			_error = MakeStationary(dt);
 		}
 	}
 	if (_booster > STATIONARY_MAX_BOOSTING)
diff --git a/source/Time.hpp b/source/Time.hpp
index ec45b2c..2e025bb 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -446,7 +446,7 @@ class TimeSchemeBase : public TimeScheme
 			r[i].rods.push_back(state);
 		}
 		DRodStateDt dstate;
-		dstate.vel = XYZQuat::Zero();
+		dstate.vel = XYZQuat(vec3::Zero(), quaternion(0.0, 0.0, 0.0, 0.0));
 		dstate.acc = vec6::Zero();
 		for (unsigned int i = 0; i < rd.size(); i++) {
 			rd[i].rods.push_back(dstate);
@@ -496,7 +496,7 @@ class TimeSchemeBase : public TimeScheme
 			r[i].bodies.push_back(state);
 		}
 		DBodyStateDt dstate;
-		dstate.vel = XYZQuat::Zero();
+		dstate.vel = XYZQuat(vec3::Zero(), quaternion(0.0, 0.0, 0.0, 0.0));
 		dstate.acc = vec6::Zero();
 		for (unsigned int i = 0; i < rd.size(); i++) {
 			rd[i].bodies.push_back(dstate);
@@ -824,6 +824,13 @@ class StationaryScheme : public TimeSchemeBase<2, 1>
 	}
 
   private:
+	/** @brief Replace the velocities by the ones due to the accelerations
+	 * @param dt Time step
+	 * @return The acceleration module
+	 * @see DMoorDynStateDt::MakeStationary()
+	 */
+	real MakeStationary(const real& dt);
+
 	/** The last computed acceleration module
 	 * @see DMoorDynStateDt::MakeStationary()
 	 * @see StationaryScheme::Error()
-- 
2.43.0


From dabb3070aae5b92ecfb345a4260a22d799a56454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:42 +0000
Subject: [PATCH 18/60] fix: null pointers were dereferenced after, or instead
 of, being reported

---
 source/MoorDyn2.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index bfa1df2..93fc689 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -405,10 +405,11 @@ moordyn::MoorDyn::icStationary()
 moordyn::error_id
 moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 {
-	if (NCoupledDOF() && !x) {
+	if (NCoupledDOF() && (!x || !xd)) {
 		LOGERR << "ERROR: "
-		       << "MoorDyn::Init received a Null position vector, "
+		       << "MoorDyn::Init received a Null position or velocity vector, "
 		       << "but " << NCoupledDOF() << "components are required" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	// <<<<<<<<< need to add bodys
@@ -619,6 +620,12 @@ moordyn::MoorDyn::Step(const double* x,
 
 	cout << "\rt = " << t << " " << flush;
 
+	if (NCoupledDOF() && (!f || ((dt > 0) && (!x || !xd)))) {
+		LOGERR << "Null Pointer received in " << __FUNC_NAME__ << " ("
+		       << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
+
 	if (dt <= 0) {
 		// Nothing to do, just recover the forces if there are coupled DOFs
 		if (NCoupledDOF())
@@ -627,11 +634,6 @@ moordyn::MoorDyn::Step(const double* x,
 			return MOORDYN_SUCCESS;
 	}
 
-	if (NCoupledDOF() && (!x || !xd || !f)) {
-		LOGERR << "Null Pointer received in " << __FUNC_NAME__ << " ("
-		       << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
-	}
-
 	unsigned int ix = 0;
 
 	// ---------------- set positions and velocities -----------------------
@@ -2375,6 +2377,11 @@ int DECLDIR
 MoorDyn_SetLogFile(MoorDyn system, const char* log_path)
 {
 	CHECK_SYSTEM(system);
+	if (!log_path) {
+		cerr << "Null file path received in " << __FUNC_NAME__ << " ("
+		     << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 	moordyn::error_id err = MOORDYN_SUCCESS;
 	string err_msg;
 	try {
@@ -2400,6 +2407,11 @@ int DECLDIR
 MoorDyn_Log(MoorDyn system, int level, const char* msg)
 {
 	CHECK_SYSTEM(system);
+	if (!msg) {
+		cerr << "Null message received in " << __FUNC_NAME__ << " ("
+		     << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 	((moordyn::MoorDyn*)system)->GetLogger()->Cout(level) << msg;
 	return MOORDYN_SUCCESS;
 }
@@ -2455,6 +2467,11 @@ MoorDyn_Step(MoorDyn system,
              double* dt)
 {
 	CHECK_SYSTEM(system);
+	if (!t || !dt) {
+		cerr << "Null time received in " << __FUNC_NAME__ << " ("
+		     << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 	moordyn::error_id err = MOORDYN_SUCCESS;
 	string err_msg;
 	try {
-- 
2.43.0


From 6239848c308b5823e7be9a204367b53d0b393c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:42 +0000
Subject: [PATCH 19/60] fix: IsLineConstantEA answered the opposite

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index f446527..9b9dfd1 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -414,7 +414,7 @@ class Line final : public io::IO, public NatFreqCFL
 	 * @return true if the stiffness of the line is constant, false if a
 	 * non-linear stiffness has been set
 	 */
-	inline bool isConstantEA() const { return nEApoints > 0; }
+	inline bool isConstantEA() const { return nEApoints == 0; }
 
 	/** @brief Get the constant stiffness of the line
 	 *
-- 
2.43.0


From 1bfd441c32f2d34763367517945020300bbf43f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:42 +0000
Subject: [PATCH 20/60] fix: external wave kinematics could be set in models
 without them

---
 source/MoorDyn2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 8beb52a..0bebd8d 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -177,6 +177,10 @@ class MoorDyn final : public io::IO
 	 */
 	inline unsigned int ExternalWaveKinInit()
 	{
+		if (env->waterKinOptions.waveMode != waves::WAVES_EXTERNAL) {
+			npW = 0;
+			return npW;
+		}
 		const auto& points = waves->getWaveKinematicsPoints();
 		npW = static_cast<unsigned int>(points.size());
 
-- 
2.43.0


From 907eb4612d7db0997e609e87bdbf573ebb4f7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 21/60] fix: the legacy interface lost output files when
 starting over, leaked failed starts, and made up tensions

---
 source/MoorDyn.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/MoorDyn.cpp b/source/MoorDyn.cpp
index 42e2a21..76df136 100644
--- a/source/MoorDyn.cpp
+++ b/source/MoorDyn.cpp
@@ -143,16 +143,22 @@ MoorDynInit(const double x[], const double xd[], const char* infilename)
 	}
 #endif
 
+	// The previous instance shall be closed before the new one opens the same
+	// output files
+	if (md_singleton)
+		MoorDyn_Close(md_singleton); // We do not care if this fails
+	md_singleton = NULL;
+
 	MoorDyn instance = MoorDyn_Create(infilename);
 	if (!instance)
 		return MOORDYN_UNHANDLED_ERROR;
 
 	int err = MoorDyn_Init(instance, x, xd);
-	if (err)
+	if (err) {
+		MoorDyn_Close(instance);
 		return err;
+	}
 
-	if (md_singleton)
-		MoorDyn_Close(md_singleton); // We do not care if this fails
 	md_singleton = instance;
 
 	return MOORDYN_SUCCESS;
@@ -238,7 +244,8 @@ GetFairTen(int l)
 		return -1;
 	double t;
 	auto line = MoorDyn_GetLine(md_singleton, l);
-	MoorDyn_GetLineFairTen(line, &t);
+	if (MoorDyn_GetLineFairTen(line, &t) != MOORDYN_SUCCESS)
+		return -1;
 	return t;
 }
 
-- 
2.43.0


From 93e9c33f9e4cd216660b4ecf0b268185aed5fc3b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:59:08 +0000
Subject: [PATCH 22/60] fix: input sections were read past the end of the file,
 and incomplete rod and failure rows accepted

---
 source/MoorDyn2.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 93fc689..3798c15 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -863,7 +863,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -886,7 +886,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -930,7 +930,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading line types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			LineProps* obj = readLineProps(in_txt[i]);
 			if (obj)
 				LinePropList.push_back(obj);
@@ -947,7 +947,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			RodProps* obj = readRodProps(in_txt[i]);
 
 			if (obj)
@@ -965,7 +965,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading body list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Body* obj = readBody(in_txt[i]);
 
 			if (obj) {
@@ -987,7 +987,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading point list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 9) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1108,9 +1108,13 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Rod* obj = readRod(in_txt[i]);
-			RodList.push_back(obj);
+
+			if (obj)
+				RodList.push_back(obj);
+			else
+				return MOORDYN_INVALID_INPUT;
 
 			i++;
 		}
@@ -1126,7 +1130,7 @@ moordyn::MoorDyn::ReadInFile()
 		}
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 7) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1253,7 +1257,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "FAILURE" })) != -1) {
 		LOGDBG << "   Reading failure conditions:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 4) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1339,7 +1343,7 @@ moordyn::MoorDyn::ReadInFile()
 			}
 
 			obj->time = atof(entries[3].c_str());
-			obj->ten = atof(entries[4].c_str());
+			obj->ten = entries.size() > 4 ? atof(entries[4].c_str()) : 0.0;
 
 			LOGDBG << "fail time is " << obj->time << " s" << endl;
 			LOGDBG << "fail ten is " << obj->ten << " N" << endl;
@@ -1353,7 +1357,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OUTPUT" })) != -1) {
 		LOGDBG << "   Reading output options:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 
 			for (unsigned int j = 0; j < entries.size();
-- 
2.43.0


From 79394057729159abbde2839eeaed28f73560b42c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:59:08 +0000
Subject: [PATCH 23/60] fix: output channels naming missing objects or nodes
 were read out of bounds

---
 source/MoorDyn2.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 3798c15..54883cd 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1372,6 +1372,29 @@ moordyn::MoorDyn::ReadInFile()
 				OutChanProps dummy;
 				dummy.Name = entries[j];
 
+				// the objects asked for have to exist
+				const bool is_line = str::isOneOf(
+				    let1, { "FAIRTEN", "ANCHTEN", "L", "LINE" });
+				const bool is_rod = str::isOneOf(let1, { "R", "ROD" });
+				size_t n_objs = 0;
+				if (is_line)
+					n_objs = LineList.size();
+				else if (is_rod)
+					n_objs = RodList.size();
+				else if (str::isOneOf(let1, { "P", "POINT" }))
+					n_objs = PointList.size();
+				else if (str::isOneOf(let1, { "B", "BODY" }))
+					n_objs = BodyList.size();
+				const int obj_id = atoi(num1.c_str());
+				if ((obj_id < 1) || ((size_t)obj_id > n_objs)) {
+					LOGWRN << "Warning in " << _filepath << ":" << i + 1
+					       << "..." << endl
+					       << "'" << in_txt[i] << "'" << endl
+					       << "invalid output specifier: " << entries[j]
+					       << ".  There is no such object" << endl;
+					continue;
+				}
+
 				// figure out what type of output it is and process
 				// accordingly
 				// TODO: add checks of first char of num1,2, let1,2,3 not
@@ -1573,6 +1596,23 @@ moordyn::MoorDyn::ReadInFile()
 					}
 				}
 
+				// the nodes asked for have to exist as well
+				if (((dummy.OType == 1) &&
+				     ((dummy.NodeID < 0) ||
+				      (dummy.NodeID >
+				       (int)LineList[dummy.ObjID - 1]->getN()))) ||
+				    ((dummy.OType == 3) &&
+				     ((dummy.NodeID < -1) ||
+				      (dummy.NodeID >
+				       (int)RodList[dummy.ObjID - 1]->getN())))) {
+					LOGWRN << "Warning in " << _filepath << ":" << i + 1
+					       << "..." << endl
+					       << "'" << in_txt[i] << "'" << endl
+					       << "invalid output specifier: " << entries[j]
+					       << ".  There is no such node" << endl;
+					continue;
+				}
+
 				// some name adjusting for special cases (maybe should
 				// handle this elsewhere...)
 				if ((dummy.OType == 3) && (dummy.QType == Ten)) {
-- 
2.43.0


From 3962c452bbc920c915de371821f307770c66e9e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:59:08 +0000
Subject: [PATCH 24/60] fix: unknown WaveKin and Currents values were taken as
 enumerators

---
 source/MoorDyn2.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 54883cd..1e9e0ab 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2192,18 +2192,24 @@ moordyn::MoorDyn::readOptionsLine(vector<string>& in_txt, int i)
 	else if ((name == "threshIC") || (name == "ICthresh"))
 		ICthresh = atof(entries[0].c_str());
 	else if (name == "WaveKin") {
-		WaveKinTemp = (waves::waves_settings)stoi(entries[0]);
-		if ((WaveKinTemp < waves::WAVES_NONE) ||
-		    (WaveKinTemp > waves::WAVES_SUM_COMPONENTS_NODE))
-			LOGWRN << "Unknown WaveKin option value " << WaveKinTemp << endl;
+		const int wave_mode = stoi(entries[0]);
+		if ((wave_mode < waves::WAVES_NONE) ||
+		    (wave_mode > waves::WAVES_SUM_COMPONENTS_NODE)) {
+			LOGERR << "Unknown WaveKin option value " << wave_mode << endl;
+			throw moordyn::invalid_value_error("Invalid settings");
+		}
+		WaveKinTemp = (waves::waves_settings)wave_mode;
 	} else if (name == "dtWave")
 		env->waterKinOptions.dtWave = stof(entries[0]);
 	else if (name == "Currents") {
-		auto current_mode = (waves::currents_settings)stoi(entries[0]);
-		env->waterKinOptions.currentMode = current_mode;
+		const int current_mode = stoi(entries[0]);
 		if ((current_mode < waves::CURRENTS_NONE) ||
-		    (current_mode > waves::CURRENTS_4D))
-			LOGWRN << "Unknown Currents option value " << current_mode << endl;
+		    (current_mode > waves::CURRENTS_4D)) {
+			LOGERR << "Unknown Currents option value " << current_mode << endl;
+			throw moordyn::invalid_value_error("Invalid settings");
+		}
+		env->waterKinOptions.currentMode =
+		    (waves::currents_settings)current_mode;
 	} else if (name == "UnifyCurrentGrid") {
 		if (entries[0] == "1") {
 			env->waterKinOptions.unifyCurrentGrid = true;
-- 
2.43.0


From 2409bec6d9b932d89ba5f6c75057dc65f1eb0f22 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:59:08 +0000
Subject: [PATCH 25/60] fix: time steps that are not positive made Init, Step,
 SetDt and SetCFL hang

---
 source/MoorDyn2.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 1e9e0ab..8b60eb6 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -513,6 +513,10 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 		dtM0 = (std::min)(dtM0, obj->cfl2dt(cfl));
 	for (auto obj : BodyList)
 		dtM0 = (std::min)(dtM0, obj->cfl2dt(cfl));
+	if (!(dtM0 > 0.0)) {
+		LOGERR << "Invalid time step, dtM = " << dtM0 << " s" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 	// And get the resulting CFL
 	cfl = 0.0;
 	for (auto obj : LineList)
@@ -530,6 +534,11 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 
 	// ------------------ do IC gen --------------------
 	if (!skip_ic) {
+		if (!(ICdt > 0.0)) {
+			LOGERR << "Invalid IC generation time step, dtIC = " << ICdt
+			       << " s" << endl;
+			return MOORDYN_INVALID_VALUE;
+		}
 		moordyn::error_id err;
 		if (ICgenDynamic)
 			err = icLegacy();
@@ -626,6 +635,11 @@ moordyn::MoorDyn::Step(const double* x,
 		return MOORDYN_INVALID_VALUE;
 	}
 
+	if (!std::isfinite(dt)) {
+		LOGERR << "Invalid time step, dt = " << dt << " s" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
+
 	if (dt <= 0) {
 		// Nothing to do, just recover the forces if there are coupled DOFs
 		if (NCoupledDOF())
@@ -2752,6 +2766,11 @@ int DECLDIR
 MoorDyn_SetDt(MoorDyn system, double dt)
 {
 	CHECK_SYSTEM(system);
+	if (!(dt > 0.0)) {
+		cerr << "Error: Invalid time step " << dt << endl
+		     << "while calling " << __FUNC_NAME__ << "()" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 	moordyn::real casted = (moordyn::real)dt;
 	((moordyn::MoorDyn*)system)->SetDt(casted);
 	return MOORDYN_SUCCESS;
@@ -2769,6 +2788,11 @@ int DECLDIR
 MoorDyn_SetCFL(MoorDyn system, double cfl)
 {
 	CHECK_SYSTEM(system);
+	if (!(cfl > 0.0)) {
+		cerr << "Error: Invalid CFL " << cfl << endl
+		     << "while calling " << __FUNC_NAME__ << "()" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 	moordyn::real casted = (moordyn::real)cfl;
 	((moordyn::MoorDyn*)system)->SetCFL(casted);
 	return MOORDYN_SUCCESS;
-- 
2.43.0


From 746a0b1993f6ec7f5f54f62f21a72abb0d10058d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:59:08 +0000
Subject: [PATCH 26/60] fix: seafloor files with no size or no points were read
 out of bounds

---
 source/Seafloor.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/Seafloor.cpp b/source/Seafloor.cpp
index 3422a3f..d581aa5 100644
--- a/source/Seafloor.cpp
+++ b/source/Seafloor.cpp
@@ -68,8 +68,17 @@ Seafloor::setup(EnvCondRef env, const string& filepath)
 
 		// Setup nx, ny
 		vector<string> entries = moordyn::str::split(fLines[0]);
+		if (entries.size() < 2) {
+			LOGERR << "The first line of the file '" << filepath
+			       << "' should have 2 entries (nx, ny)\n";
+			throw moordyn::input_file_error("Invalid file format");
+		}
 		nx = stoi(entries[0]);
 		ny = stoi(entries[1]);
+		if (!nx || !ny) {
+			LOGERR << "The grid of the file '" << filepath << "' is empty\n";
+			throw moordyn::input_file_error("Invalid file format");
+		}
 
 		// Setup px (x-axis ticks):
 		entries = moordyn::str::split(fLines[1]);
-- 
2.43.0


From f0f6755cd40f2b73c3899adb14649ed1f313c919 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:59:29 +0000
Subject: [PATCH 27/60] fix: the acceleration of a dynamic current was added to
 the velocity of the waves

---
 source/Waves.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index 1d7781f..9b75648 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -428,7 +428,7 @@ Waves::setup(EnvCondRef env_in,
 					for (unsigned int ix = 0; ix < waveGrid->nx; ix++) {
 						for (unsigned int iy = 0; iy < waveGrid->ny; iy++) {
 							waveGrid->WaveVel()[ix][iy][iz][it] += currentVel;
-							waveGrid->WaveVel()[ix][iy][iz][it] += currentAcc;
+							waveGrid->WaveAcc()[ix][iy][iz][it] += currentAcc;
 						}
 					}
 				}
-- 
2.43.0


From 657d45896b339f06fc3448820c3a423e4b26f834 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:59:29 +0000
Subject: [PATCH 28/60] fix: wave grid axes with no points or missing entries
 were read out of bounds

---
 source/Waves.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index 9b75648..2f512fa 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -76,9 +76,11 @@ gridAxisCoords(Waves::coordtypes coordtype, vector<string>& entries)
 		n = 1;
 	else if (coordtype == Waves::GRID_LIST)
 		n = static_cast<unsigned int>(entries.size());
-	else if (coordtype == Waves::GRID_LATTICE)
+	else if ((coordtype == Waves::GRID_LATTICE) && (entries.size() >= 3))
 		n = static_cast<unsigned int>(stoul(entries[2]));
-	else
+
+	// no points, or an unknown or incomplete definition
+	if (!n)
 		return coordarray;
 
 	// fill in coordinates
@@ -91,6 +93,8 @@ gridAxisCoords(Waves::coordtypes coordtype, vector<string>& entries)
 	} else if (coordtype == Waves::GRID_LATTICE) {
 		real first = atof(entries[0].c_str()), last = atof(entries[1].c_str());
 		coordarray.push_back(first);
+		if (n == 1)
+			return coordarray;
 		real dx = (last - first) / ((real)(n - 1));
 		for (unsigned int i = 1; i < n - 1; i++)
 			coordarray.push_back(first + ((real)i) * dx);
-- 
2.43.0


From 88b7e1621379c98e570664e2fb49eaa664912a0f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:59:29 +0000
Subject: [PATCH 29/60] fix: wave, current and 4D current files with missing
 rows or columns were read out of bounds, and the documented 4D file refused

---
 source/Waves/WaveGrid.cpp | 210 +++++++++++++++++++++++++++-----------
 1 file changed, 153 insertions(+), 57 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 933a11b..242d7a9 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -18,6 +18,22 @@
 namespace moordyn {
 namespace waves {
 
+// The working memory of kiss_fftr, released on leaving the scope
+struct FFTConfig
+{
+	FFTConfig(int nfft, int inverse)
+	  : cfg(kiss_fftr_alloc(nfft, inverse, nullptr, nullptr))
+	{
+		if (!cfg)
+			throw moordyn::mem_error("Failure allocating the FFT");
+	}
+	~FFTConfig() { free(cfg); }
+	FFTConfig(const FFTConfig&) = delete;
+	FFTConfig& operator=(const FFTConfig&) = delete;
+
+	kiss_fftr_cfg cfg;
+};
+
 /** @brief Carry out the inverse Fourier transform
  * @param cfg KISS FFT instance
  * @param nFFT Number of Fourier components
@@ -133,7 +149,8 @@ fillWaveGrid(std::unique_ptr<WaveGrid> waveGrid,
 	const int is_inverse_fft = 1;
 
 	// allocate memory for kiss_fftr
-	kiss_fftr_cfg cfg = kiss_fftr_alloc(nFFT, is_inverse_fft, NULL, NULL);
+	const FFTConfig fft(nFFT, is_inverse_fft);
+	kiss_fftr_cfg cfg = fft.cfg;
 
 	// allocate input and output arrays for kiss_fftr  (note that
 	// kiss_fft_scalar is set to double)
@@ -267,12 +284,70 @@ fillWaveGrid(std::unique_ptr<WaveGrid> waveGrid,
 		}
 	}
 
-	free(cfg);
-
 	LOGDBG << "Done!" << endl;
 	return waveGrid;
 }
 
+/** @brief Split a row of a file, checking that it has enough columns
+ *
+ * @param row The row
+ * @param n The minimum number of columns
+ * @param filepath The file, to be reported
+ * @throws moordyn::input_file_error If there are less columns than required
+ */
+static vector<string>
+splitRow(const string& row,
+         size_t n,
+         const std::filesystem::path& filepath,
+         moordyn::Log* _log)
+{
+	vector<string> entries = moordyn::str::split(row);
+	if (entries.size() < n) {
+		LOGERR << "The row '" << row << "' in the file '" << filepath
+		       << "' should have at least " << n << " columns" << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
+	return entries;
+}
+
+/** @brief Number of samples to cover a time span
+ *
+ * @param t The last time instant
+ * @param dt The time step
+ * @param filepath The file, to be reported
+ * @throws moordyn::invalid_value_error If the time span cannot be sampled
+ */
+static unsigned int
+numSamples(real t,
+           real dt,
+           const std::filesystem::path& filepath,
+           moordyn::Log* _log)
+{
+	const real n = t / dt;
+	if (!(dt > 0.0) || !(n >= 0.0) ||
+	    (n >= (real)std::numeric_limits<int>::max())) {
+		LOGERR << "The times in the file '" << filepath
+		       << "' shall be positive and increasing" << endl;
+		throw moordyn::invalid_value_error("Invalid times");
+	}
+	return (unsigned int)floor(n) + 1;
+}
+
+/** @brief Smallest step of a list of times
+ *
+ * If there is just a single time instant, 1 is returned.
+ */
+static real
+smallestStep(const vector<real>& times)
+{
+	if (times.size() < 2)
+		return 1.0;
+	real dt = std::numeric_limits<real>::max();
+	for (size_t i = 1; i < times.size(); i++)
+		dt = (std::min)(dt, times[i] - times[i - 1]);
+	return dt;
+}
+
 /** @brief Read the grid file and return the three axes
  *
  * The grid is defined in a tabulated file (separator=' '). That file has 3
@@ -312,7 +387,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 	vector<string> entries;
 	Waves::coordtypes coordtype;
 
-	entries = moordyn::str::split(lines[3]);
+	entries = splitRow(lines[3], 1, filepath, _log);
 	coordtype = (Waves::coordtypes)stoi(entries[0]);
 	entries = moordyn::str::split(lines[4]);
 	auto px = gridAxisCoords(coordtype, entries);
@@ -322,7 +397,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 		throw moordyn::invalid_value_error("Invalid line");
 	}
 
-	entries = moordyn::str::split(lines[5]);
+	entries = splitRow(lines[5], 1, filepath, _log);
 	coordtype = (Waves::coordtypes)stoi(entries[0]);
 	entries = moordyn::str::split(lines[6]);
 	auto py = gridAxisCoords(coordtype, entries);
@@ -332,7 +407,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 		throw moordyn::invalid_value_error("Invalid line");
 	}
 
-	entries = moordyn::str::split(lines[7]);
+	entries = splitRow(lines[7], 1, filepath, _log);
 	coordtype = (Waves::coordtypes)stoi(entries[0]);
 	entries = moordyn::str::split(lines[8]);
 	auto pz = gridAxisCoords(coordtype, entries);
@@ -452,7 +527,16 @@ constructWaveGridElevationData(const std::string& folder,
 	// this makes the implicit assumption that dtWave >= interval between
 	// samples the 1 extra is for the point at zero, [0.0, 1.0, 2.0] is 3
 	// points even though 2.0/1.0 = 2
-	unsigned int nt = floor(wavetimes.back() / dtWave) + 1;
+	if (wavetimes.empty()) {
+		LOGERR << "The file '" << WaveFilename << "' is empty" << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
+	unsigned int nt = numSamples(wavetimes.back(), dtWave, WaveFilename, _log);
+	if (nt < 2) {
+		LOGERR << "The file '" << WaveFilename
+		       << "' shall cover at least one wave time step" << endl;
+		throw moordyn::invalid_value_error("Invalid times");
+	}
 	LOGDBG << "Number of wave time samples = " << nt << "(" << wavetimes.size()
 	       << " samples provided in the file)" << endl;
 
@@ -493,7 +577,8 @@ constructWaveGridElevationData(const std::string& folder,
 	    pi / (dtWave * (int)(nt / 2)); // wave frequency interval (rad/s)
 
 	// allocate memory for kiss_fftr
-	kiss_fftr_cfg cfg = kiss_fftr_alloc(nFFT, is_inverse_fft, 0, 0);
+	const FFTConfig fft(nFFT, is_inverse_fft);
+	kiss_fftr_cfg cfg = fft.cfg;
 
 	// allocate input and output arrays for kiss_fftr
 	// (note that kiss_fft_scalar is set to double)
@@ -512,7 +597,6 @@ constructWaveGridElevationData(const std::string& folder,
 	kiss_fftr(cfg, cx_t_in.data(), cx_w_out.data());
 	LOGDBG << "Done!" << endl;
 
-	free(cfg);
 	// copy frequencies over from FFT output
 	std::vector<moordyn::complex> zetaC0(nw);
 	for (unsigned int i = 0; i < nw; i++)
@@ -701,11 +785,10 @@ constructDynamicCurrentGrid(const std::string& folder,
 	// inputted times
 	// real dtWave = std::numeric_limits<real>::max();
 
-	real dtWave = std::numeric_limits<real>::max();
-	for (unsigned int i = 1; i < ntin; i++)
-		if (UProfileT[i] - UProfileT[i - 1] < dtWave)
-			dtWave = UProfileT[i] - UProfileT[i - 1];
-	unsigned int nt = floor(UProfileT[ntin - 1] / dtWave) + 1;
+	real dtWave = smallestStep(UProfileT);
+	unsigned int nt =
+	    ntin == 1 ? 1
+	              : numSamples(UProfileT.back(), dtWave, CurrentsFilename, _log);
 
 	auto currentGrid =
 	    make_unique<CurrentGrid>(_log, px, py, UProfileZ, nt, dtWave);
@@ -717,10 +800,11 @@ constructDynamicCurrentGrid(const std::string& folder,
 		unsigned iti = 1;
 		for (unsigned int it = 0; it < currentGrid->nt; it++) {
 			iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+			const unsigned int itp = iti ? iti - 1 : 0;
 
-			auto x = lerp(UProfileUx[iz][iti - 1], UProfileUx[iz][iti], ft);
-			auto y = lerp(UProfileUy[iz][iti - 1], UProfileUy[iz][iti], ft);
-			auto z = lerp(UProfileUz[iz][iti - 1], UProfileUz[iz][iti], ft);
+			auto x = lerp(UProfileUx[iz][itp], UProfileUx[iz][iti], ft);
+			auto y = lerp(UProfileUy[iz][itp], UProfileUy[iz][iti], ft);
+			auto z = lerp(UProfileUz[iz][itp], UProfileUz[iz][iti], ft);
 			currentGrid->CurrentVel()[0][0][iz][it] = vec3(x, y, z);
 			// TODO: approximate fluid accelerations using finite
 			//       differences
@@ -764,12 +848,24 @@ construct4DCurrentGrid(const std::string& folder,
 
 	// The first line must contain the number of x, y, z, t values in the
 	// input meshgrid (1-indexed, space delimited)
-	vector<string> gridDimensions = moordyn::str::split(lines[0]);
+	vector<string> gridDimensions =
+	    splitRow(lines[0], 4, CurrentsFilename, _log);
 	unsigned int nxCurGrid = stoul(gridDimensions[0]);
 	unsigned int nyCurGrid = stoul(gridDimensions[1]);
 	unsigned int nzCurGrid = stoul(gridDimensions[2]);
 	unsigned int ntCurGrid = stoul(gridDimensions[3]);
 
+	// Need to ensure that there is an entry for each gridpoint:
+	size_t nCurGridPoints = 1;
+	for (const auto n : { nxCurGrid, nyCurGrid, nzCurGrid, ntCurGrid }) {
+		nCurGridPoints *= n;
+		if (!n || (nCurGridPoints > lines.size() - 5)) {
+			LOGERR << "The file'" << CurrentsFilename
+			       << "' should have a line for each gridpoint\n";
+			throw moordyn::input_file_error("Invalid file format\n");
+		}
+	}
+
 	// Next four rows specify grid points x, y, t, z
 	vector<real> UProfileX;
 	vector<real> UProfileY;
@@ -779,33 +875,33 @@ construct4DCurrentGrid(const std::string& folder,
 	// Need to keep track of
 
 	// And a map to keep track of coord->idx mapping...
-	map<string, unsigned int> XMap;
-	map<string, unsigned int> YMap;
-	map<string, unsigned int> ZMap;
-	map<string, unsigned int> TMap;
+	map<real, unsigned int> XMap;
+	map<real, unsigned int> YMap;
+	map<real, unsigned int> ZMap;
+	map<real, unsigned int> TMap;
 
-	auto entry = moordyn::str::split(lines[1]);
+	auto entry = splitRow(lines[1], nxCurGrid, CurrentsFilename, _log);
 	for (unsigned int i = 0; i < nxCurGrid; i++) {
 		UProfileX.push_back(stod(entry[i]));
-		XMap[entry[i]] = i;
+		XMap[UProfileX.back()] = i;
 	}
 
-	entry = moordyn::str::split(lines[2]);
+	entry = splitRow(lines[2], nyCurGrid, CurrentsFilename, _log);
 	for (unsigned int i = 0; i < nyCurGrid; i++) {
 		UProfileY.push_back(stod(entry[i]));
-		YMap[entry[i]] = i;
+		YMap[UProfileY.back()] = i;
 	}
 
-	entry = moordyn::str::split(lines[3]);
+	entry = splitRow(lines[3], nzCurGrid, CurrentsFilename, _log);
 	for (unsigned int i = 0; i < nzCurGrid; i++) {
 		UProfileZ.push_back(stod(entry[i]));
-		ZMap[entry[i]] = i;
+		ZMap[UProfileZ.back()] = i;
 	}
 
-	entry = moordyn::str::split(lines[4]);
+	entry = splitRow(lines[4], ntCurGrid, CurrentsFilename, _log);
 	for (unsigned int i = 0; i < ntCurGrid; i++) {
 		UProfileT.push_back(stod(entry[i]));
-		TMap[entry[i]] = i;
+		TMap[UProfileT.back()] = i;
 	}
 
 	// Need 3 4D grids - one for each component of current velocity:
@@ -816,42 +912,41 @@ construct4DCurrentGrid(const std::string& folder,
 	Vec4D<real> currentGridUz =
 	    init4DArray(nxCurGrid, nyCurGrid, nzCurGrid, ntCurGrid);
 
-	// Number of points in the current grid (important for iteration):
-	unsigned int nCurGridPoints = nxCurGrid * nyCurGrid * nzCurGrid * ntCurGrid;
-
-	// Need to ensure that there is an entry for each gridpoint:
-	if (lines.size() < nCurGridPoints + 5) {
-		LOGERR << "The file'" << CurrentsFilename
-		       << "' should have a line for each gridpoint\n";
-		throw moordyn::input_file_error("Invalid file format\n");
-	}
-
 	// Read values into 4D array
-	for (int i = 6; i < (int)lines.size(); i++) {
-		vector<string> entry = moordyn::str::split(lines[i]);
+	for (int i = 5; i < (int)lines.size(); i++) {
+		entry = splitRow(lines[i], 7, CurrentsFilename, _log);
 
 		// Need to get indices (don't match coord values)
-		auto ix = XMap[entry[0]];
-		auto iy = YMap[entry[1]];
-		auto iz = ZMap[entry[2]];
-		auto it = TMap[entry[3]];
+		const auto ix = XMap.find(stod(entry[0]));
+		const auto iy = YMap.find(stod(entry[1]));
+		const auto iz = ZMap.find(stod(entry[2]));
+		const auto it = TMap.find(stod(entry[3]));
+		if ((ix == XMap.end()) || (iy == YMap.end()) || (iz == ZMap.end()) ||
+		    (it == TMap.end())) {
+			LOGERR << "The row '" << lines[i] << "' in the file '"
+			       << CurrentsFilename << "' is not a grid point" << endl;
+			throw moordyn::input_file_error("Invalid file format");
+		}
 
 		// Need to set velocity components in three separate vectors
 		// at the coordinate above
-		currentGridUx[ix][iy][iz][it] = stod(entry[4]);
-		currentGridUy[ix][iy][iz][it] = stod(entry[5]);
-		currentGridUz[ix][iy][iz][it] = stod(entry[6]);
+		currentGridUx[ix->second][iy->second][iz->second][it->second] =
+		    stod(entry[4]);
+		currentGridUy[ix->second][iy->second][iz->second][it->second] =
+		    stod(entry[5]);
+		currentGridUz[ix->second][iy->second][iz->second][it->second] =
+		    stod(entry[6]);
 	}
 
 	// set the time step size to be the smallest interval in the
 	// inputted times
-	real dtWave = std::numeric_limits<real>::max();
-	for (unsigned int i = 1; i < ntCurGrid; i++)
-		if (UProfileT[i] - UProfileT[i - 1] < dtWave)
-			dtWave = UProfileT[i] - UProfileT[i - 1];
+	real dtWave = smallestStep(UProfileT);
 
 	// set number of timesteps
-	unsigned int nt = floor(UProfileT[ntCurGrid - 1] / dtWave) + 1;
+	unsigned int nt =
+	    ntCurGrid == 1
+	        ? 1
+	        : numSamples(UProfileT.back(), dtWave, CurrentsFilename, _log);
 
 	auto currentGrid = make_unique<CurrentGrid>(
 	    _log, UProfileX, UProfileY, UProfileZ, nt, dtWave);
@@ -865,14 +960,15 @@ construct4DCurrentGrid(const std::string& folder,
 				unsigned iti = 1;
 				for (unsigned int it = 0; it < currentGrid->nt; it++) {
 					iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+					const unsigned int itp = iti ? iti - 1 : 0;
 
-					auto x = lerp(currentGridUx[ix][iy][iz][iti - 1],
+					auto x = lerp(currentGridUx[ix][iy][iz][itp],
 					              currentGridUx[ix][iy][iz][iti],
 					              ft);
-					auto y = lerp(currentGridUy[ix][iy][iz][iti - 1],
+					auto y = lerp(currentGridUy[ix][iy][iz][itp],
 					              currentGridUy[ix][iy][iz][iti],
 					              ft);
-					auto z = lerp(currentGridUz[ix][iy][iz][iti - 1],
+					auto z = lerp(currentGridUz[ix][iy][iz][itp],
 					              currentGridUz[ix][iy][iz][iti],
 					              ft);
 					currentGrid->CurrentVel()[ix][iy][iz][it] = vec3(x, y, z);
-- 
2.43.0


From 0e8324b4d403bc3508d8b628b8197f962672ad62 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:24:37 +0000
Subject: [PATCH 30/60] fix: copying states left them half cleared when memory
 ran out

---
 source/State.cpp | 42 ++++++++++--------------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index e2c1c18..dcdc284 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -630,22 +630,11 @@ MoorDynState::AsString() const
 MoorDynState&
 MoorDynState::operator=(const MoorDynState& rhs)
 {
-	lines.clear();
-	lines.reserve(rhs.lines.size());
-	for (auto l : rhs.lines)
-		lines.push_back(l);
-	points.clear();
-	points.reserve(rhs.points.size());
-	for (auto l : rhs.points)
-		points.push_back(l);
-	rods.clear();
-	rods.reserve(rhs.rods.size());
-	for (auto l : rhs.rods)
-		rods.push_back(l);
-	bodies.clear();
-	bodies.reserve(rhs.bodies.size());
-	for (auto l : rhs.bodies)
-		bodies.push_back(l);
+	// The memory is reused, so it cannot fail when the sizes match
+	lines = rhs.lines;
+	points = rhs.points;
+	rods = rhs.rods;
+	bodies = rhs.bodies;
 
 	return *this;
 }
@@ -748,22 +737,11 @@ DMoorDynStateDt::AsString() const
 DMoorDynStateDt&
 DMoorDynStateDt::operator=(const DMoorDynStateDt& rhs)
 {
-	lines.clear();
-	lines.reserve(rhs.lines.size());
-	for (auto l : rhs.lines)
-		lines.push_back(l);
-	points.clear();
-	points.reserve(rhs.points.size());
-	for (auto l : rhs.points)
-		points.push_back(l);
-	rods.clear();
-	rods.reserve(rhs.rods.size());
-	for (auto l : rhs.rods)
-		rods.push_back(l);
-	bodies.clear();
-	bodies.reserve(rhs.bodies.size());
-	for (auto l : rhs.bodies)
-		bodies.push_back(l);
+	// The memory is reused, so it cannot fail when the sizes match
+	lines = rhs.lines;
+	points = rhs.points;
+	rods = rhs.rods;
+	bodies = rhs.bodies;
 
 	return *this;
 }
-- 
2.43.0


From 48e76497299e37c13d045bbe6019fb58177ea270 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:24:37 +0000
Subject: [PATCH 31/60] fix: points made by line failures had no room for wave
 kinematics

---
 source/MoorDyn2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 8b60eb6..0cae7f5 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2312,7 +2312,7 @@ moordyn::MoorDyn::detachLines(FailProps* failure)
 	           Ca,
 	           env);
 	obj->setWaves(waves, seafloor);
-	PointList.push_back(obj);
+	waves->addPoint(obj);
 
 	// Kinematics of old attachment point
 	vec pos, vel;
-- 
2.43.0


From de75144be8dcc1c6b516cc52fd5525bea59e0be9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:24:37 +0000
Subject: [PATCH 32/60] fix: failed creations left everything built so far
 behind

---
 source/MoorDyn2.cpp | 99 +++++++++++++++++++++++++++++----------------
 source/MoorDyn2.hpp | 10 +++++
 2 files changed, 74 insertions(+), 35 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 0cae7f5..c270240 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -64,6 +64,19 @@ ui_size(const std::vector<T>& a)
 	return static_cast<unsigned int>(a.size());
 }
 
+/** @brief Hand an object over to a list
+ * @param list The list, owner of its objects
+ * @param obj The object, that is released if it cannot be added to the list
+ * @return The object
+ */
+template<typename T>
+T*
+keep(std::vector<T*>& list, std::unique_ptr<T> obj)
+{
+	list.push_back(obj.get());
+	return obj.release();
+}
+
 namespace moordyn {
 
 /// The list of units for the output
@@ -98,6 +111,18 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
   , nX(0)
   , nXtra(0)
   , npW(0)
+{
+	// The destructor is not called when the constructor fails
+	try {
+		Create(infilename, log_level);
+	} catch (...) {
+		Release();
+		throw;
+	}
+}
+
+void
+moordyn::MoorDyn::Create(const char* infilename, int log_level)
 {
 	SetLogger(new Log(log_level));
 
@@ -139,11 +164,7 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
 
 	waves = std::make_shared<moordyn::Waves>(_log);
 
-	const moordyn::error_id err = ReadInFile();
-	if (err != MOORDYN_SUCCESS) {
-		delete GetLogger();
-	}
-	MOORDYN_THROW(err, "Exception while reading the input file");
+	MOORDYN_THROW(ReadInFile(), "Exception while reading the input file");
 
 	LOGDBG << "MoorDyn is expecting " << NCoupledDOF()
 	       << " coupled degrees of freedom" << endl;
@@ -157,6 +178,12 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
 }
 
 moordyn::MoorDyn::~MoorDyn()
+{
+	Release();
+}
+
+void
+moordyn::MoorDyn::Release()
 {
 	if (outfileMain.is_open())
 		outfileMain.close();
@@ -945,11 +972,10 @@ moordyn::MoorDyn::ReadInFile()
 
 		// parse until the next header or the end of the file
 		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
-			LineProps* obj = readLineProps(in_txt[i]);
+			std::unique_ptr<LineProps> obj(readLineProps(in_txt[i]));
 			if (obj)
-				LinePropList.push_back(obj);
+				keep(LinePropList, std::move(obj));
 			else {
-				delete obj; // Skips error lines... TODO update this
 				return MOORDYN_INVALID_INPUT;
 			}
 			i++;
@@ -962,12 +988,11 @@ moordyn::MoorDyn::ReadInFile()
 
 		// parse until the next header or the end of the file
 		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
-			RodProps* obj = readRodProps(in_txt[i]);
+			std::unique_ptr<RodProps> obj(readRodProps(in_txt[i]));
 
 			if (obj)
-				RodPropList.push_back(obj);
+				keep(RodPropList, std::move(obj));
 			else {
-				delete obj;
 				return MOORDYN_INVALID_INPUT;
 			}
 			i++;
@@ -980,12 +1005,11 @@ moordyn::MoorDyn::ReadInFile()
 
 		// parse until the next header or the end of the file
 		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
-			Body* obj = readBody(in_txt[i]);
+			std::unique_ptr<Body> obj(readBody(in_txt[i]));
 
 			if (obj) {
-				BodyList.push_back(obj);
+				keep(BodyList, std::move(obj));
 			} else {
-				delete obj;
 				return MOORDYN_INVALID_INPUT;
 			}
 			i++;
@@ -1099,9 +1123,10 @@ moordyn::MoorDyn::ReadInFile()
 			       << PointList.size() << endl;
 
 			// now make Point object!
-			Point* obj = new Point(_log, PointList.size());
+			Point* obj = keep(
+			    PointList,
+			    std::unique_ptr<Point>(new Point(_log, PointList.size())));
 			obj->setup(number, type, r0, M, V, F, CdA, Ca, env);
-			PointList.push_back(obj);
 
 			// depending on type, assign the Point to its respective
 			// parent body
@@ -1123,10 +1148,10 @@ moordyn::MoorDyn::ReadInFile()
 
 		// parse until the next header or the end of the file
 		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
-			Rod* obj = readRod(in_txt[i]);
+			std::unique_ptr<Rod> obj(readRod(in_txt[i]));
 
 			if (obj)
-				RodList.push_back(obj);
+				keep(RodList, std::move(obj));
 			else
 				return MOORDYN_INVALID_INPUT;
 
@@ -1194,7 +1219,8 @@ moordyn::MoorDyn::ReadInFile()
 			       << " - of class " << type << " (" << TypeNum << ")"
 			       << " with id " << LineList.size() << endl;
 
-			Line* obj = new Line(_log, LineList.size());
+			Line* obj = keep(
+			    LineList, std::unique_ptr<Line>(new Line(_log, LineList.size())));
 			obj->setup(number,
 			           LinePropList[TypeNum],
 			           UnstrLen,
@@ -1202,7 +1228,6 @@ moordyn::MoorDyn::ReadInFile()
 			           env,
 			           outfiles.back(),
 			           outchannels);
-			LineList.push_back(obj);
 			LineStateIs.push_back(
 			    nX);                 // assign start index of this Line's states
 			nX += 6 * (NumSegs - 1); // add 6 state variables for each
@@ -1282,11 +1307,11 @@ moordyn::MoorDyn::ReadInFile()
 				return MOORDYN_INVALID_INPUT;
 			}
 
-			FailProps* obj = new FailProps();
+			FailProps* obj =
+			    keep(FailList, std::unique_ptr<FailProps>(new FailProps()));
 			obj->rod = NULL;
 			obj->point = NULL;
 			obj->status = false;
-			FailList.push_back(obj);
 
 			std::string let1, num1, let2, num2, let3;
 			// divided outWord into letters and numbers
@@ -1783,7 +1808,7 @@ moordyn::MoorDyn::readLineProps(string inputText)
 		return nullptr;
 	}
 
-	LineProps* obj = new LineProps();
+	std::unique_ptr<LineProps> obj(new LineProps());
 
 	obj->type = entries[0];
 	obj->d = atof(entries[1].c_str());
@@ -1824,7 +1849,7 @@ moordyn::MoorDyn::readLineProps(string inputText)
 	       << "\t\tCan : " << obj->Can << endl
 	       << "\t\tCdt : " << obj->Cdt << endl
 	       << "\t\tCat : " << obj->Cat << endl;
-	return obj;
+	return obj.release();
 }
 
 RodProps*
@@ -1835,7 +1860,7 @@ moordyn::MoorDyn::readRodProps(string inputText)
 		return nullptr;
 	}
 
-	RodProps* obj = new RodProps();
+	std::unique_ptr<RodProps> obj(new RodProps());
 	obj->type = entries[0];
 	obj->d = atof(entries[1].c_str());
 	obj->w = atof(entries[2].c_str());
@@ -1854,7 +1879,7 @@ moordyn::MoorDyn::readRodProps(string inputText)
 	       << "\t\tCan : " << obj->Can << endl
 	       << "\t\tCdEnd : " << obj->CdEnd << endl
 	       << "\t\tCaEnd : " << obj->CaEnd << endl;
-	return obj;
+	return obj.release();
 }
 
 Body*
@@ -1998,13 +2023,13 @@ moordyn::MoorDyn::readBody(string inputText)
 	}
 
 	// id = size + 1 because of ground body, which has an Id of zero
-	Body* obj = new Body(_log, BodyList.size() + 1);
+	std::unique_ptr<Body> obj(new Body(_log, BodyList.size() + 1));
 	LOGDBG << "\t'" << number << "'"
 	       << " - of type " << Body::TypeName(type) << " with id "
 	       << BodyList.size() << endl;
 	obj->setup(
 	    number, type, r6, rCG, M, V, Inert, CdA, Ca, env, outfiles.back());
-	return obj;
+	return obj.release();
 }
 
 Rod*
@@ -2127,7 +2152,7 @@ moordyn::MoorDyn::readRod(string inputText)
 	       << " and type " << Rod::TypeName(type) << " with id "
 	       << RodList.size() << endl;
 
-	Rod* obj = new Rod(_log, RodList.size());
+	std::unique_ptr<Rod> obj(new Rod(_log, RodList.size()));
 	obj->setup(number,
 	           type,
 	           RodPropList[TypeNum],
@@ -2140,16 +2165,16 @@ moordyn::MoorDyn::readRod(string inputText)
 	// depending on type, assign the Rod to its respective parent
 	// body
 	if (str::isOneOf(let1, { "ANCHOR", "FIXED", "FIX" }))
-		GroundBody->addRod(obj, endCoords);
+		GroundBody->addRod(obj.get(), endCoords);
 	if (str::isOneOf(let1, { "PINNED", "PIN" }))
-		GroundBody->addRod(obj, endCoords);
+		GroundBody->addRod(obj.get(), endCoords);
 	else if (let1 == "BODY") {
 		unsigned int bodyID = stoi(num1);
-		BodyList[bodyID - 1]->addRod(obj, endCoords);
+		BodyList[bodyID - 1]->addRod(obj.get(), endCoords);
 	}
 	LOGDBG << endl;
 
-	return obj;
+	return obj.release();
 }
 
 void
@@ -2180,7 +2205,10 @@ moordyn::MoorDyn::readOptionsLine(vector<string>& in_txt, int i)
 		moordyn::error_id err = MOORDYN_SUCCESS;
 		string err_msg;
 		try {
-			_t_integrator = create_time_scheme(entries[0], _log, waves);
+			TimeScheme* t_integrator =
+			    create_time_scheme(entries[0], _log, waves);
+			delete _t_integrator;
+			_t_integrator = t_integrator;
 		}
 		MOORDYN_CATCHER(err, err_msg);
 		if (err != MOORDYN_SUCCESS) {
@@ -2301,7 +2329,8 @@ moordyn::MoorDyn::detachLines(FailProps* failure)
 	PointStateIs.push_back(nX);
 
 	// now make Point object!
-	Point* obj = new Point(_log, PointList.size());
+	Point* obj = keep(
+	    PointList, std::unique_ptr<Point>(new Point(_log, PointList.size())));
 	obj->setup(static_cast<int>(PointList.size() + 1),
 	           type,
 	           r0,
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 0bebd8d..a6bac1f 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -404,6 +404,16 @@ class MoorDyn final : public io::IO
 	}
 
   protected:
+	/** @brief Build the simulation, the part of the constructor that can fail
+	 * @param infilename The input file
+	 * @param log_level The verbosity level
+	 */
+	void Create(const char* infilename, int log_level);
+
+	/** @brief Release all the resources
+	 */
+	void Release();
+
 	/** @brief Read the input file, setting up all the required objects and
 	 * their relationships
 	 *
-- 
2.43.0


From 1307d670fa353bd1fa610ad7fd47bb6dd57c1bce Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:41:18 +0000
Subject: [PATCH 33/60] fix: segments rising out of the water from exactly its
 surface counted as submerged

---
 source/Line.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 690b1c7..6121b9b 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -635,8 +635,10 @@ Line::calcSubSeg(unsigned int firstNodeIdx,
 		return 0.5; // Segment halfway submerged
 	} else {
 		// Segment partially submerged - figure out which node is above water
-		vec lowerEnd = firstNodeZ < 0.0 ? r[firstNodeIdx] : r[secondNodeIdx];
-		vec upperEnd = firstNodeZ < 0.0 ? r[secondNodeIdx] : r[firstNodeIdx];
+		// (any of them might be exactly at the water surface)
+		const bool firstIsLower = firstNodeZ < secondNodeZ;
+		vec lowerEnd = firstIsLower ? r[firstNodeIdx] : r[secondNodeIdx];
+		vec upperEnd = firstIsLower ? r[secondNodeIdx] : r[firstNodeIdx];
 		lowerEnd.z() -= surface_height;
 		upperEnd.z() -= surface_height;
 
-- 
2.43.0


From 24a9f1f328a8b5b524b255a60ed2ee5a71559656 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:57:21 +0000
Subject: [PATCH 34/60] fix: input files that could only be read in part were
 taken as complete

---
 source/Misc.cpp     | 6 ++++++
 source/MoorDyn2.cpp | 6 ++++++
 source/MoorDyn2.hpp | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/source/Misc.cpp b/source/Misc.cpp
index 2b1a8c2..370beb0 100644
--- a/source/Misc.cpp
+++ b/source/Misc.cpp
@@ -158,6 +158,12 @@ fileToLines(const std::filesystem::path& path)
 			str::rtrim(line);
 			lines.push_back(line);
 		}
+		if (file.bad()) {
+			// the end of the file was not reached
+			std::stringstream ss;
+			ss << "Error reading the file: " << path;
+			throw input_file_error(ss.str().c_str());
+		}
 		file.close();
 
 		return lines;
diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index c270240..669cc07 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1775,6 +1775,12 @@ moordyn::MoorDyn::readFileIntoBuffers(vector<string>& in_txt)
 		moordyn::str::rtrim(line_txt);
 		in_txt.push_back(line_txt);
 	}
+	if (in_file.bad()) {
+		// the end of the file was not reached
+		LOGERR << "Error: unable to read the whole file '" << _filepath
+		       << "'\n";
+		return MOORDYN_INVALID_INPUT_FILE;
+	}
 	in_file.close();
 	return MOORDYN_SUCCESS;
 }
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index a6bac1f..dfb0f48 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -748,6 +748,12 @@ class MoorDyn final : public io::IO
 			}
 			i++;
 		}
+		if (f.bad()) {
+			// the end of the file was not reached
+			LOGERR << "Cannot read the whole file '" << fpath << "'"
+			       << std::endl;
+			return MOORDYN_INVALID_INPUT_FILE;
+		}
 		f.close();
 
 		if (i < 5) {
-- 
2.43.0


From f4c9b01a5abc1f2094f223d4256fbf1a0ae5e913 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:58:39 +0000
Subject: [PATCH 35/60] fix: words lost silently when splitting a line runs out
 of memory

---
 source/Misc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/Misc.cpp b/source/Misc.cpp
index 370beb0..676ec13 100644
--- a/source/Misc.cpp
+++ b/source/Misc.cpp
@@ -81,6 +81,8 @@ split(const string& str, const char sep)
 		if (token.size())
 			words.push_back(token);
 	}
+	if (spliter.bad()) // The stream swallows the lack of memory
+		throw std::bad_alloc();
 	return words;
 }
 
-- 
2.43.0


From a42856de05a35ef59901470ad09fb6c1c2bc09f6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:02:04 +0000
Subject: [PATCH 36/60] fix: lack of memory changed the time integration scheme
 silently

---
 source/MoorDyn2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 669cc07..45df46d 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2215,6 +2215,8 @@ moordyn::MoorDyn::readOptionsLine(vector<string>& in_txt, int i)
 			    create_time_scheme(entries[0], _log, waves);
 			delete _t_integrator;
 			_t_integrator = t_integrator;
+		} catch (const std::bad_alloc&) {
+			throw; // Nothing wrong with the selected scheme
 		}
 		MOORDYN_CATCHER(err, err_msg);
 		if (err != MOORDYN_SUCCESS) {
-- 
2.43.0


From 01bc8aaeae2be06427a5eb37d22163392ac29b8b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:15:48 +0000
Subject: [PATCH 37/60] fix: crash when the Fourier transform runs out of
 memory

---
 source/kiss_fft.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/kiss_fft.cpp b/source/kiss_fft.cpp
index 16aee81..169c622 100644
--- a/source/kiss_fft.cpp
+++ b/source/kiss_fft.cpp
@@ -7,6 +7,7 @@
  */
 
 #include "_kiss_fft_guts.h"
+#include <new>
 /* The guts header contains all the multiplication and addition macros that are
  defined for fixed or floating point complex numbers.  It also delares the kf_
  internal functions.
@@ -210,6 +211,8 @@ kf_bfly_generic(kiss_fft_cpx* Fout,
 
 	kiss_fft_cpx* scratch =
 	    (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx) * p);
+	if (!scratch)
+		throw std::bad_alloc();
 
 	for (u = 0; u < m; ++u) {
 		k = u;
@@ -410,6 +413,8 @@ kiss_fft_stride(kiss_fft_cfg st,
 		// It just performs an out-of-place FFT into a temp buffer
 		kiss_fft_cpx* tmpbuf =
 		    (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx) * st->nfft);
+		if (!tmpbuf)
+			throw std::bad_alloc();
 		kf_work(tmpbuf, fin, 1, in_stride, st->factors, st);
 		memcpy(fout, tmpbuf, sizeof(kiss_fft_cpx) * st->nfft);
 		KISS_FFT_TMP_FREE(tmpbuf);
-- 
2.43.0


From 9df936212083f3538c4b7b78d150fecebebfc79c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:39:08 +0000
Subject: [PATCH 38/60] fix: bending moments of lines were never applied to the
 rods holding them

---
 source/Line.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index 6121b9b..c79e242 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -939,6 +939,8 @@ Line::getStateDeriv()
 		Bs[i] = vec::Zero();
 		Pb[i] = vec::Zero();
 	}
+	endMomentA = vec::Zero();
+	endMomentB = vec::Zero();
 
 	// and now compute them (if possible)
 	if (isEI) {
@@ -973,6 +975,9 @@ Line::getStateDeriv()
 					// apply these forces to the node forces
 					Bs[i] += Mforce_i;
 					Bs[i + 1] += Mforce_ip1;
+
+					// and the reaction to their moment to the rod
+					endMomentA = Kurvi * EI * pvec[i];
 				}
 			}
 			// end node A case (only if attached to a Rod, i.e. a cantilever
@@ -1003,6 +1008,9 @@ Line::getStateDeriv()
 					// apply these forces to the node forces
 					Bs[i - 1] += Mforce_im1;
 					Bs[i] += Mforce_i;
+
+					// and the reaction to their moment to the rod
+					endMomentB = -Kurvi * EI * pvec[i];
 				}
 			}
 			// internal node
@@ -1431,6 +1439,10 @@ Line::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(F);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(endMomentA);
+	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(endMomentB);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -1464,6 +1476,8 @@ Line::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, B);
 	ptr = io::IO::Deserialize(ptr, Fnet);
 	ptr = io::IO::Deserialize(ptr, F);
+	ptr = io::IO::Deserialize(ptr, endMomentA);
+	ptr = io::IO::Deserialize(ptr, endMomentB);
 
 	return ptr;
 }
-- 
2.43.0


From 776fe857652d8928f797f6e7a059b1b2eea17c56 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:51:10 +0000
Subject: [PATCH 39/60] fix: the loads on anchored points, rods and bodies were
 never computed

---
 source/Time.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index 39deb26..2fbf6f3 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -140,13 +140,14 @@ TimeSchemeBase<NSTATE, NDERIV>::CalcStateDeriv(unsigned int substep)
 		obj->doRHS();
 	}
 	for (auto obj : bodies) {
-		if (obj->type != Body::COUPLED)
+		if ((obj->type != Body::COUPLED) && (obj->type != Body::FIXED))
 			continue;
 		obj->doRHS();
 	}
 
-	// call ground body to update all the fixed things
+	// call ground body to update all the fixed things, and the loads on them
 	ground->setDependentStates(); // NOTE: (not likely needed)
+	ground->doRHS();
 }
 
 StationaryScheme::StationaryScheme(moordyn::Log* log, moordyn::WavesRef waves)
-- 
2.43.0


From 681e751aaca9e2ae04c050632eaa9c32669a1ca8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:54:14 +0000
Subject: [PATCH 40/60] fix: the maximum tension of a line left its end B out

---
 source/Line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index c79e242..244c3b4 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1868,7 +1868,7 @@ MoorDyn_GetLineMaxTen(MoorDynLine l, double* t)
 {
 	CHECK_LINE(l);
 	double t_max = 0.0;
-	for (unsigned int i = 0; i < ((moordyn::Line*)l)->getN(); i++) {
+	for (unsigned int i = 0; i <= ((moordyn::Line*)l)->getN(); i++) {
 		const double t_candidate = ((moordyn::Line*)l)->getNodeTen(i).norm();
 		if (t_candidate > t_max)
 			t_max = t_candidate;
-- 
2.43.0


From 556a4516c57eae9ca1fc32c67f8da7ae1ee3c78a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:54:14 +0000
Subject: [PATCH 41/60] fix: the drag of bodies along x was lost when given per
 direction

---
 source/MoorDyn2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 45df46d..c422e29 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1957,12 +1957,12 @@ moordyn::MoorDyn::readBody(string inputText)
 			CdA[i + 3] = CdA[3];
 		}
 	} else if (entries_CdA.size() == 3) {
-		for (unsigned int i = 1; i < 3; i++) {
+		for (unsigned int i = 0; i < 3; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 			CdA[i + 3] = CdA[i];
 		}
 	} else if (entries_CdA.size() == 6) {
-		for (unsigned int i = 1; i < 6; i++) {
+		for (unsigned int i = 0; i < 6; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 		}
 	} else {
-- 
2.43.0


From b7c15e4b7115b70e7558ef4c163c6d3d717ca28d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:54:14 +0000
Subject: [PATCH 42/60] fix: inertial loads of coupled pinned rods were not
 handed to the host

---
 source/Rod.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 42635b5..def2ef7 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -693,7 +693,6 @@ Rod::getStateDeriv()
 		// of the matrix. See
 		// https://eigen.tuxfamily.org/dox/group__TutorialLinearAlgebra.html
 		const mat M_out3 = M_out6(Eigen::seqN(3, 3), Eigen::seqN(3, 3));
-		acc6(Eigen::seqN(0, 3)) = vec::Zero();
 		acc6(Eigen::seqN(3, 3)) = M_out3.inverse() * Fnet_out3;
 
 		// dxdt = V   (velocities)
-- 
2.43.0


From c1d2f79ee24afabfea5b86c8db06ba58a2ee816a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:55:44 +0000
Subject: [PATCH 43/60] fix: the lower half of the mass matrices of rods and
 bodies was not returned

---
 source/Misc.hpp | 42 ++++++------------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index 9a46d11..1028ab5 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -424,24 +424,9 @@ template<typename T>
 inline void
 mat62array(const mat6& v, T a[6][6])
 {
-	a[0][0] = (T)v(0, 0);
-	a[0][1] = (T)v(0, 1);
-	a[0][2] = (T)v(0, 2);
-	a[0][3] = (T)v(0, 3);
-	a[0][4] = (T)v(0, 4);
-	a[0][5] = (T)v(0, 5);
-	a[1][0] = (T)v(1, 0);
-	a[1][1] = (T)v(1, 1);
-	a[1][2] = (T)v(1, 2);
-	a[1][3] = (T)v(1, 3);
-	a[1][4] = (T)v(1, 4);
-	a[1][5] = (T)v(1, 5);
-	a[2][0] = (T)v(2, 0);
-	a[2][1] = (T)v(2, 1);
-	a[2][2] = (T)v(2, 2);
-	a[2][3] = (T)v(2, 3);
-	a[2][4] = (T)v(2, 4);
-	a[2][5] = (T)v(2, 5);
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			a[i][j] = (T)v(i, j);
 }
 
 /** @brief Convert a C-ish array to a matrix
@@ -452,24 +437,9 @@ template<typename T>
 inline void
 array2mat6(const T a[6][6], mat6& v)
 {
-	v(0, 0) = (moordyn::real)a[0][0];
-	v(0, 1) = (moordyn::real)a[0][1];
-	v(0, 2) = (moordyn::real)a[0][2];
-	v(0, 3) = (moordyn::real)a[0][3];
-	v(0, 4) = (moordyn::real)a[0][4];
-	v(0, 5) = (moordyn::real)a[0][5];
-	v(1, 0) = (moordyn::real)a[1][0];
-	v(1, 1) = (moordyn::real)a[1][1];
-	v(1, 2) = (moordyn::real)a[1][2];
-	v(1, 3) = (moordyn::real)a[1][3];
-	v(1, 4) = (moordyn::real)a[1][4];
-	v(1, 5) = (moordyn::real)a[1][5];
-	v(2, 0) = (moordyn::real)a[2][0];
-	v(2, 1) = (moordyn::real)a[2][1];
-	v(2, 2) = (moordyn::real)a[2][2];
-	v(2, 3) = (moordyn::real)a[2][3];
-	v(2, 4) = (moordyn::real)a[2][4];
-	v(2, 5) = (moordyn::real)a[2][5];
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			v(i, j) = (moordyn::real)a[i][j];
 }
 
 /** Slice a C++ vector
-- 
2.43.0


From affdbbc630fe5f4354a755798a0365b409f5f121 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:56:58 +0000
Subject: [PATCH 44/60] fix: the inner nodes of rods lagged behind the rod

---
 source/Rod.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index def2ef7..e548fef 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -578,6 +578,13 @@ Rod::setDependentStates()
 		r[N] = r[0] + rRel;
 		const vec w = v6.tail<3>();
 		rd[N] = rd[0] + w.cross(rRel);
+		// set interior node positions and velocities (stretch the nodes
+		// between the endpoints linearly)
+		for (unsigned int i = 1; i < N; i++) {
+			const real f = i / (real)N;
+			r[i] = r[0] + f * (r[N] - r[0]);
+			rd[i] = rd[0] + f * (rd[N] - rd[0]);
+		}
 	}
 
 	// pass end node kinematics to any attached lines (this is just like what a
@@ -902,14 +909,9 @@ Rod::doRHS()
 	roll = -phi * sinBeta;
 	pitch = phi * cosBeta;
 
-	// set interior node positions and velocities (stretch the nodes between the
-	// endpoints linearly) (skipped for zero-length Rods)
-	for (unsigned int i = 1; i < N; i++) {
-		const real f = i / (real)N;
-		r[i] = r[0] + f * (r[N] - r[0]);
-		rd[i] = rd[0] + f * (rd[N] - rd[0]);
+	// set the volume of the interior nodes (skipped for zero-length Rods)
+	for (unsigned int i = 1; i < N; i++)
 		V[i] = 0.25 * pi * d * d * l[i]; // volume attributed to segment
-	}
 
 	//	// stretched length of entire rod and strain rate
 	//	double lstr_squared = 0.0;
-- 
2.43.0


From 86b06e8ce977ec85aa2fcd08735a2ddafc8fcbad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:26:03 +0000
Subject: [PATCH 45/60] fix: rods pinned to a rotated body started as if the
 body was not rotated

---
 source/Body.cpp | 10 ++++++++++
 source/Rod.cpp  |  7 +++++--
 source/Rod.hpp  | 12 ++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index e0365d6..d1b56a3 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -196,6 +196,11 @@ Body::initializeUnfreeBody(vec6 r6_in, vec6 v6_in, vec6 a6_in)
 	initiateStep(r6_in, v6_in, a6_in);
 	updateFairlead(0.0);
 
+	// The rods pinned to the body are described in its reference frame
+	for (auto attached : attachedR)
+		if (attached->type == Rod::PINNED)
+			attached->setInitialOrientation(r7.quat.normalized());
+
 	// If any Rod is fixed to the body (not pinned), initialize it now because
 	// otherwise it won't be initialized
 	for (auto attached : attachedR)
@@ -223,6 +228,11 @@ Body::initialize()
 	setDependentStates();
 
 	if (type == FREE) { // Attached objects already initalized for coupled pinned body
+		// The rods pinned to the body are described in its reference frame
+		for (auto attached : attachedR)
+			if (attached->type == Rod::PINNED)
+				attached->setInitialOrientation(r7.quat.normalized());
+
 		// If any Rod is fixed to the body (not pinned), initialize it now because
 		// otherwise it won't be initialized
 		for (auto attached : attachedR)
diff --git a/source/Rod.cpp b/source/Rod.cpp
index e548fef..a48122f 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -347,12 +347,15 @@ Rod::initialize()
 	// matters if it's an independent Rod)
 
 	// copy over state values for potential use during derivative calculations
-	// Regarding the angles, they are always initialized as zeroes, considering
-	// q0 as the reference for the orientation-related transformations
+	// Regarding the angles, they are initialized as zeroes, considering q0 as
+	// the reference for the orientation-related transformations, unless the rod
+	// is pinned to a body, which may be already rotated
 	XYZQuat pos = XYZQuat::Zero();
 	vec6 vel = vec6::Zero();
 	if (type == FREE)
 		pos.pos = r[0];
+	else if (type == PINNED)
+		pos.quat = r7.quat;
 
 	LOGMSG << "Initialized Rod " << number << endl;
 	return std::make_pair(pos, vel);
diff --git a/source/Rod.hpp b/source/Rod.hpp
index 9851a40..92b58b3 100644
--- a/source/Rod.hpp
+++ b/source/Rod.hpp
@@ -335,6 +335,18 @@ class Rod final : public io::IO, public SuperCFL
 	 */
 	inline void openoutput();
 
+	/** @brief Set the initial orientation of a rod pinned to a body
+	 *
+	 * The ends of such a rod are described in the reference frame of the body
+	 * @param quat The orientation of the body
+	 * @note To be called before moordyn::Rod::initialize()
+	 */
+	inline void setInitialOrientation(const quaternion& quat)
+	{
+		r7.quat = quat;
+		q = quat.toRotationMatrix() * q0;
+	}
+
 	/** @brief Initialize the rod state
 	 * @return The position and orientation angles (first) and the linear and
 	 * angular velocity (second)
-- 
2.43.0


From ec0f241880bd55bfca500cd356a605c2acb2e7de Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:07:50 +0000
Subject: [PATCH 46/60] fix: roll and pitch channels of rods were those of an
 earlier instant

They were taken from the last force evaluation: zero at the start, and the
orientation at some intermediate stage of the integrator afterwards.
---
 source/Rod.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index a48122f..2b5a8cc 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -377,10 +377,16 @@ Rod::GetRodOutput(OutChanProps outChan)
 			return r7.pos.y();
 		else if (outChan.QType == PosZ)
 			return r7.pos.z();
-		else if (outChan.QType == RX)
-			return roll * 180.0 / pi;
-		else if (outChan.QType == RY)
-			return pitch * 180.0 / pi;
+		else if ((outChan.QType == RX) || (outChan.QType == RY)) {
+			// the orientation of the rod right now, not the one it had the last
+			// time its forces were computed
+			if (q.squaredNorm() < 1.e-12)
+				return 0.0;
+			const auto angles = orientationAngles(q);
+			roll = -angles.first * sin(angles.second);
+			pitch = angles.first * cos(angles.second);
+			return (outChan.QType == RX ? roll : pitch) * 180.0 / pi;
+		}
 		else if (outChan.QType == VelX)
 			return v6[0];
 		else if (outChan.QType == VelY)
-- 
2.43.0


From 2cbad182f4d5316bd0d273c317f0c227664581d1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 47/60] fix: rods across the water surface with end A on top
 were loaded as if fully submerged

The submerged part of a rod whose end A is above the water and end B below was
compared with the wrong sign, so that every node of it counted as submerged,
and the moment of its water plane was left out.
---
 source/Rod.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 2b5a8cc..64ebf17 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -988,10 +988,10 @@ Rod::doRHS()
 		// get scalar for submerged portion
 
 		if (h0 < 0.0) { // Upside down case
-			if (Lsum + dL >= h0) // if fully submerged
+			if (Lsum >= -h0) // if fully submerged
 				VOF0 = 1.0;
-			else if (Lsum > h0) // if partially below waterline
-				VOF0 = (h0 - Lsum) / dL;
+			else if (Lsum + dL > -h0) // if partially below waterline
+				VOF0 = (Lsum + dL + h0) / dL;
 			else // must be out of water
 				VOF0 = 0.0;
 		}
@@ -1215,7 +1215,8 @@ Rod::doRHS()
 	} // i - done looping through nodes
 
 	// ----- add waterplane moment of inertia moment if applicable -----
-	if ((r[0][2] < zeta_i) && (r[N][2] > zeta_i)) {
+	if (((r[0][2] < zeta_i) && (r[N][2] > zeta_i)) ||
+	    ((r[0][2] > zeta_i) && (r[N][2] < zeta_i))) {
 		// the water plane is crossing the rod
 		real Mtemp = 1.0 / 16.0 * pi * d * d * d * d * env->rho_w * env->g *
 		             sinPhi * cosPhi; // Matches fortran
-- 
2.43.0


From d962e5c077d79fa5402cfdc89dc42963dd77a08c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 48/60] fix: wave and current files of a model named without
 its folder were looked for in the root folder

---
 source/MoorDyn2.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index c422e29..84654d7 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -592,7 +592,10 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 		if (seafloor) {
 			env->WtrDpth = -seafloor->getAverageDepth();
 		}
-		waves->setup(env, seafloor, _t_integrator, _basepath.c_str());
+		waves->setup(env,
+		             seafloor,
+		             _t_integrator,
+		             _basepath.empty() ? "./" : _basepath.c_str());
 		env->WtrDpth = tmp;
 	}
 	MOORDYN_CATCHER(err, err_msg);
@@ -1731,7 +1734,10 @@ moordyn::MoorDyn::ReadInFile()
 		if (seafloor) {
 			env->WtrDpth = -seafloor->getAverageDepth();
 		}
-		waves->setup(env, seafloor, _t_integrator, _basepath.c_str());
+		waves->setup(env,
+		             seafloor,
+		             _t_integrator,
+		             _basepath.empty() ? "./" : _basepath.c_str());
 		env->WtrDpth = tmp;
 	}
 	MOORDYN_CATCHER(err, err_msg);
-- 
2.43.0


From d2f083c19b134eb72fe62af2e67d4e980e61a526 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:04:57 +0000
Subject: [PATCH 49/60] fix: moordyn.GetWavesKin of the Python module always
 raised a TypeError, and read an undefined object without a seafloor

---
 wrappers/python/cmoordyn.cpp       | 2 +-
 wrappers/python/moordyn/moordyn.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index d1597aa..1fccfc8 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -1018,7 +1018,7 @@ waves_getkin(PyObject*, PyObject* args)
 {
 	PyObject* capsule;
 	double x, y, z;
-	PyObject* seafloor;
+	PyObject* seafloor = Py_None;
 
 	if (!PyArg_ParseTuple(args, "Oddd|O", &capsule, &x, &y, &z, &seafloor))
 		return NULL;
diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 6363779..2ff59f6 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -594,7 +594,7 @@ def GetWavesKin(instance, x, y, z, t, seafloor=None):
     pdyn: The dynamic pressure
     """
     import cmoordyn
-    return cmoordyn.waves_getkin(instance, x, y, z, t, seafloor)
+    return cmoordyn.waves_getkin(instance, x, y, z, seafloor)
 
 
 #                                  Seafloor.h
-- 
2.43.0


From a4e2f6a80772e86bcee836ed66753f1f627688ec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:04:57 +0000
Subject: [PATCH 50/60] fix: moordyn.IsLinePressBend of the Python module
 always raised a NameError

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 2ff59f6..a0d53ba 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -1146,7 +1146,7 @@ def IsLinePressBend(instance):
     b: True if the pressure bending of the line is enabled, False otherwise
     """
     import cmoordyn
-    return cmoordyn.line_is_pbend(b)
+    return cmoordyn.line_is_pbend(instance)
 
 
 def SetLinePressBend(instance, b):
-- 
2.43.0


From ec229e561b5a25c73efc33ec50e2e79dc867738b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:04:57 +0000
Subject: [PATCH 51/60] fix: moordyn.GetLineNodeSeabedForce of the Python
 module returned the Froude-Krylov force

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index a0d53ba..9d1aaa9 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -1309,7 +1309,7 @@ def GetLineNodeSeabedForce(instance, i):
     f: The node force (a 3 components tuple)
     """
     import cmoordyn
-    return cmoordyn.line_get_node_froudekrylov(instance, i)
+    return cmoordyn.line_get_node_seabed(instance, i)
 
 
 def GetLineNodeCurv(instance, i):
-- 
2.43.0


From 94b4f319ec2e7945ab541d816683501551583ab8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:04:57 +0000
Subject: [PATCH 52/60] fix: moordyn.ExternalWaveKinGetN of the Python module
 initialised the external waves again and returned 0

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 9d1aaa9..95f6983 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -303,7 +303,7 @@ def ExternalWaveKinGetN(instance):
     int: The number of points
     """
     import cmoordyn
-    return cmoordyn.ext_wave_init(instance)
+    return cmoordyn.ext_wave_n(instance)
 
 
 def GetWaveKinCoordinates(instance):
-- 
2.43.0


From 40f64dd179bdfaf53b1b394d3c1c5a8d1328f6a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:04:58 +0000
Subject: [PATCH 53/60] fix: moordyn.UseBodyVTK of the Python module called a
 function that does not exist

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 95f6983..4050252 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -793,7 +793,7 @@ def UseBodyVTK(instance, filename):
     int: 0 uppon success, an error code otherwise
     """
     import cmoordyn
-    return cmoordyn.use_save_vtk(instance, filename)
+    return cmoordyn.body_use_vtk(instance, filename)
 
 #                                  Rod.h
 #  =============================================================================
-- 
2.43.0


From 933573a808de2017fbe8b6cbcfab676157326462 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:04:58 +0000
Subject: [PATCH 54/60] fix: the Python module stored one byte of the flag of
 SetLinePressBend in an uninitialised int

---
 wrappers/python/cmoordyn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index 1fccfc8..4fce58e 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -2235,7 +2235,7 @@ line_set_pbend(PyObject*, PyObject* args)
 	PyObject* capsule;
 	int b;
 
-	if (!PyArg_ParseTuple(args, "Ob", &capsule, &b))
+	if (!PyArg_ParseTuple(args, "Op", &capsule, &b))
 		return NULL;
 
 	MoorDynLine instance =
-- 
2.43.0


From 4013590f09de1a97572fe0e7a2cf625f46525e23 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:04:58 +0000
Subject: [PATCH 55/60] fix: moordyn.Deserialize of the Python module read past
 the end of short arrays, and refused other types without raising an exception

---
 wrappers/python/cmoordyn.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index 4fce58e..1921f6d 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -919,11 +919,29 @@ deserialize(PyObject*, PyObject* args)
 
 	MoorDyn system =
 	    (MoorDyn)PyCapsule_GetPointer(capsule, moordyn_capsule_name);
-	if (!system || !PyBytes_Check(bytes))
+	if (!system)
+		return NULL;
+	if (!PyBytes_Check(bytes)) {
+		PyErr_SetString(PyExc_TypeError, "2nd argument must be bytes");
 		return NULL;
+	}
+
+	int err;
+	size_t array_size;
+	err = MoorDyn_Serialize(system, &array_size, NULL);
+	if (err != 0) {
+		PyErr_SetString(PyExc_RuntimeError, "MoorDyn reported an error");
+		return NULL;
+	}
+	if ((size_t)PyBytes_Size(bytes) != array_size) {
+		std::stringstream err;
+		err << "2nd argument must have " << array_size << " bytes";
+		PyErr_SetString(PyExc_ValueError, err.str().c_str());
+		return NULL;
+	}
 
 	char* array = PyBytes_AsString(bytes);
-	const int err = MoorDyn_Deserialize(system, (uint64_t*)array);
+	err = MoorDyn_Deserialize(system, (uint64_t*)array);
 	if (err != 0) {
 		PyErr_SetString(PyExc_RuntimeError, "MoorDyn reported an error");
 		return NULL;
-- 
2.43.0


From 76396c7998841fabd4c2e1cd3d9cd61a1e4c082a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:21:50 +0000
Subject: [PATCH 56/60] fix: MD_SetVerbosity of the Fortran module was bound to
 a function that does not exist

---
 wrappers/fortran/MoorDyn.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 26ebdc6..cb5e947 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -93,10 +93,10 @@ module moordyn
       integer(c_int), intent(out) :: n
     end function MD_NCoupledDOF
 
-    integer(c_int) function MD_SetVerbosity(instance, n) bind(c, name='MD_SetVerbosity')
+    integer(c_int) function MD_SetVerbosity(instance, n) bind(c, name='MoorDyn_SetVerbosity')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
     end function MD_SetVerbosity
 
     function MoorDyn_SetLogFile(instance, f) bind(c, name='MoorDyn_SetLogFile') result(rc)
-- 
2.43.0


From 8b5e71d543899a39b0b3cccd18e6043519954657 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 57/60] fix: the Fortran module passed the address of the level
 to MoorDyn_SetLogLevel and MoorDyn_Log

---
 wrappers/fortran/MoorDyn.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index cb5e947..88691c2 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -109,13 +109,13 @@ module moordyn
     integer(c_int) function MD_SetLogLevel(instance, n) bind(c, name='MoorDyn_SetLogLevel')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
     end function MD_SetLogLevel
 
     function MoorDyn_Log(instance, n, f) bind(c, name='MoorDyn_Log') result(rc)
       import :: c_ptr, c_int, c_char
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
       character(kind=c_char), intent(in) :: f(*)
       integer(c_int) :: rc
     end function MoorDyn_Log
-- 
2.43.0


From 5f18dc15e1bd1424c677d8846653816b34b77799 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 58/60] fix: the Fortran module passed the address of the time
 to MoorDyn_ExternalWaveKinSet

---
 wrappers/fortran/MoorDyn.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 88691c2..05968a8 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -186,7 +186,7 @@ module moordyn
       type(c_ptr), value, intent(in) :: instance
       type(c_ptr), value, intent(in) :: u
       type(c_ptr), value, intent(in) :: ud
-      real(c_double), intent(in) :: t
+      real(c_double), value, intent(in) :: t
       integer(c_int) :: rc
     end function MoorDyn_ExternalWaveKinSet
 
-- 
2.43.0


From 6e4faf6b59e097535cfb620503f25239856d43a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 59/60] fix: the Fortran module passed the addresses of the
 stiffness and of the flag to MoorDyn_SetLineConstantEA and
 MoorDyn_SetLinePressBend

---
 wrappers/fortran/MoorDyn.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 05968a8..fadebba 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -554,7 +554,7 @@ module moordyn
     integer(c_int) function MD_SetLineConstantEA(instance, ea) bind(c, name='MoorDyn_SetLineConstantEA')
       import :: c_ptr, c_double, c_int
       type(c_ptr), value, intent(in) :: instance
-      real(c_double), intent(out) :: ea
+      real(c_double), value, intent(in) :: ea
     end function MD_SetLineConstantEA
 
     integer(c_int) function MD_IsLinePressBend(instance, t) bind(c, name='MoorDyn_IsLinePressBend')
@@ -566,7 +566,7 @@ module moordyn
     integer(c_int) function MD_SetLinePressBend(instance, b) bind(c, name='MoorDyn_SetLinePressBend')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(out) :: b
+      integer(c_int), value, intent(in) :: b
     end function MD_SetLinePressBend
 
     function MoorDyn_SetLinePressInt(instance, p) bind(c, name='MoorDyn_SetLinePressInt') result(rc)
-- 
2.43.0


From 4c1fdfd0cbd7926497f3f62fbfa7861e959f6259 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 60/60] fix: MD_GetFASTtens of the Fortran module let the
 single precision tensions be written into double precision arrays

---
 wrappers/fortran/MoorDyn.f90 | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index fadebba..66043af 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -775,11 +775,18 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), intent(inout) :: n
-    real(c_double), intent(in), target :: fht(:)
-    real(c_double), intent(in), target :: fvt(:)
-    real(c_double), intent(in), target :: aht(:)
-    real(c_double), intent(in), target :: avt(:)
-    MD_GetFASTtens = MoorDyn_GetFASTtens(instance, n, c_loc(fht), c_loc(fvt), c_loc(aht), c_loc(avt))
+    real(c_double), intent(inout) :: fht(:)
+    real(c_double), intent(inout) :: fvt(:)
+    real(c_double), intent(inout) :: aht(:)
+    real(c_double), intent(inout) :: avt(:)
+    real(c_float), target :: tens(max(n, 1), 4)
+    MD_GetFASTtens = MoorDyn_GetFASTtens(instance, n, c_loc(tens(1, 1)), c_loc(tens(1, 2)), c_loc(tens(1, 3)), c_loc(tens(1, 4)))
+    if (MD_GetFASTtens == 0) then
+      fht(1:n) = tens(1:n, 1)
+      fvt(1:n) = tens(1:n, 2)
+      aht(1:n) = tens(1:n, 3)
+      avt(1:n) = tens(1:n, 4)
+    end if
   end function MD_GetFASTtens
 
   integer function MD_Save(instance, f)
-- 
2.43.0

