From df868103d986c729f8515ca555beec609429913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 01/15] fix: treat particles with NaN positions as out of
 domain

---
 src/bucket.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index d616aa3..d170347 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -37,12 +37,13 @@ void Bucket::storeParticles(Particles& particles) {
         if (p.type == ParticleType::Ghost)
             continue;
 
+        // The conditions are written so that NaN positions are also regarded as out of domain.
         bool isInDomain = true;
-        if (p.position.x() < domain.xMin || domain.xMax < p.position.x())
+        if (!(domain.xMin <= p.position.x() && p.position.x() <= domain.xMax))
             isInDomain = false;
-        if (p.position.y() < domain.yMin || domain.yMax < p.position.y())
+        if (!(domain.yMin <= p.position.y() && p.position.y() <= domain.yMax))
             isInDomain = false;
-        if (p.position.z() < domain.zMin || domain.zMax < p.position.z())
+        if (!(domain.zMin <= p.position.z() && p.position.z() <= domain.zMax))
             isInDomain = false;
         if (!isInDomain) {
             cerr << "WARNING: particle " << p.id << " is out of domain." << endl;
-- 
2.43.0


From b7f29e53238ea72d102b2e07e8a3347d3a2b2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 02/15] fix: sum reference values over the whole effective
 radius

---
 src/refvalues.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/refvalues.cpp b/src/refvalues.cpp
index 281bb71..c40f280 100644
--- a/src/refvalues.cpp
+++ b/src/refvalues.cpp
@@ -9,8 +9,10 @@
 RefValues::RefValues(int dim, double particleDistance, double re) {
     assert(dim == 2 || dim == 3);
     assert(particleDistance < re);
-    int iZ_start = -4;
-    int iZ_end   = 5;
+    // The lattice must cover the whole sphere of the effective radius.
+    const int range = (int) std::ceil(re / particleDistance);
+    int iZ_start    = -range;
+    int iZ_end      = range + 1;
     if (dim == 2) {
         iZ_start = 0;
         iZ_end   = 1;
@@ -18,8 +20,8 @@ RefValues::RefValues(int dim, double particleDistance, double re) {
 
     this->n0     = 0.0;
     this->lambda = 0.0;
-    for (int iX = -4; iX < 5; iX++) {
-        for (int iY = -4; iY < 5; iY++) {
+    for (int iX = -range; iX <= range; iX++) {
+        for (int iY = -range; iY <= range; iY++) {
             for (int iZ = iZ_start; iZ < iZ_end; iZ++) {
                 if (((iX == 0) && (iY == 0)) && (iZ == 0))
                     continue;
-- 
2.43.0


From bf7c70154428f197fe2a523d26a602c182664f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 03/15] fix: take densities of a vtu file only from its Density
 array

---
 src/particles_loader/vtu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index d66ab11..7189659 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -100,7 +100,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         }
 
         // Extract densities
-        if (line.find("Density") != std::string::npos) {
+        if (line.find("\"Density\"") != std::string::npos || line.find("'Density'") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
                 std::istringstream iss(line);
-- 
2.43.0


From 34c81bac58e1694a6851417149dec1fedd9a33a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 04/15] fix: reject profiles with missing or invalid values

---
 src/particles_loader/prof.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/particles_loader/prof.cpp b/src/particles_loader/prof.cpp
index 74cfc74..afd4432 100644
--- a/src/particles_loader/prof.cpp
+++ b/src/particles_loader/prof.cpp
@@ -1,5 +1,6 @@
 #include "prof.hpp"
 
+#include <cctype>
 #include <fstream>
 #include <iostream>
 
@@ -7,6 +8,15 @@ using ParticlesLoader::Prof;
 using std::cerr;
 using std::endl;
 
+namespace {
+/**
+ * @brief Read one value, which must be followed by white space or the end of the file
+ */
+template <typename T> bool readValue(std::istream& is, T& value) {
+    return (is >> value) && (is.peek() == EOF || std::isspace(is.peek()));
+}
+} // namespace
+
 Prof::Prof() {
 }
 
@@ -21,16 +31,21 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
     Particles particles;
     double startTime = NAN;
     int particleSize = 0;
-    ifs >> startTime;
-    ifs >> particleSize;
+    if (!readValue(ifs, startTime) || !readValue(ifs, particleSize)) {
+        cerr << "invalid time or number of particles in prof file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
     for (int i = 0; i < particleSize; i++) {
         int type_int = 0;
         ParticleType type;
         Eigen::Vector3d pos, vel;
 
-        ifs >> type_int;
-        ifs >> pos.x() >> pos.y() >> pos.z();
-        ifs >> vel.x() >> vel.y() >> vel.z();
+        if (!readValue(ifs, type_int) || //
+            !readValue(ifs, pos.x()) || !readValue(ifs, pos.y()) || !readValue(ifs, pos.z()) ||
+            !readValue(ifs, vel.x()) || !readValue(ifs, vel.y()) || !readValue(ifs, vel.z())) {
+            cerr << "particle " << i << " is missing or invalid in prof file: " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
 
         type = static_cast<ParticleType>(type_int);
         particles.add(Particle(particles.size(), type, pos, vel, defaultDensity));
-- 
2.43.0


From 6a21326d06a52fa58b9d2dd84b663b85011b7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 05/15] fix: reject csv files without a required column

---
 src/particles_loader/csv.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index d0bcb40..a097081 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -21,6 +21,13 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
     double numParticles = std::stod(in.next_line());
 
     in.read_header(io::ignore_missing_column, "type", "fluidType", "x", "y", "z", "vx", "vy", "vz", "density");
+    for (const auto& column : {"type", "x", "y", "z", "vx", "vy", "vz"}) {
+        if (!in.has_column(column)) {
+            cerr << "column " << column << " is missing in csv file: " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
+    }
+
     int type;
     int fluidType = 0;
     double x, y, z, vx, vy, vz;
-- 
2.43.0


From c99004e4e81d017a7cf493eec279530ffa4e01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 06/15] fix: reject csv cells that are not numbers

---
 src/particles_loader/csv.cpp | 52 +++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index a097081..6bc9964 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -3,7 +3,9 @@
 #include "../particles.hpp"
 
 #include <Eigen/Dense>
+#include <cmath>
 #include <csv.h>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <string>
@@ -12,6 +14,36 @@ using ParticlesLoader::Csv;
 using std::cerr;
 using std::endl;
 
+namespace {
+/**
+ * @brief Convert the text of a cell to a finite number
+ * @warning If the text is not entirely a number, the program will exit.
+ */
+double toDouble(const std::string& text) {
+    char* end    = nullptr;
+    double value = std::strtod(text.c_str(), &end);
+    if (text.empty() || *end != '\0' || !std::isfinite(value)) {
+        cerr << "invalid value in csv file: \"" << text << "\"" << endl;
+        std::exit(-1);
+    }
+    return value;
+}
+
+/**
+ * @brief Convert the text of a cell to an integer
+ * @warning If the text is not entirely an integer, the program will exit.
+ */
+int toInt(const std::string& text) {
+    char* end  = nullptr;
+    long value = std::strtol(text.c_str(), &end, 10);
+    if (text.empty() || *end != '\0' || value != static_cast<int>(value)) {
+        cerr << "invalid integer in csv file: \"" << text << "\"" << endl;
+        std::exit(-1);
+    }
+    return static_cast<int>(value);
+}
+} // namespace
+
 Csv::Csv() {
 }
 
@@ -28,18 +60,20 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
         }
     }
 
-    int type;
-    int fluidType = 0;
-    double x, y, z, vx, vy, vz;
-    double density = -1.0;
+    // Cells are read as text, since the number conversion of the csv library accepts incomplete and empty numbers.
+    std::string type, fluidType, x, y, z, vx, vy, vz, density;
     Particles particles;
     while (in.read_row(type, fluidType, x, y, z, vx, vy, vz, density)) {
-        Eigen::Vector3d pos(x, y, z);
-        Eigen::Vector3d vel(vx, vy, vz);
-        if (density < 0) {
-            density = defaultDensity;
+        Eigen::Vector3d pos(toDouble(x), toDouble(y), toDouble(z));
+        Eigen::Vector3d vel(toDouble(vx), toDouble(vy), toDouble(vz));
+        int fluidTypeValue  = fluidType.empty() ? 0 : toInt(fluidType);
+        double densityValue = density.empty() ? -1.0 : toDouble(density);
+        if (densityValue < 0) {
+            densityValue = defaultDensity;
         }
-        particles.add(Particle(particles.size(), static_cast<ParticleType>(type), pos, vel, density, fluidType));
+        particles.add(
+            Particle(particles.size(), static_cast<ParticleType>(toInt(type)), pos, vel, densityValue, fluidTypeValue)
+        );
     }
 
     return std::make_pair(startTime, particles);
-- 
2.43.0


From c07680385e5587f615a6c39bfa6156766e0bc0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 07/15] fix: reject lines of vtu arrays with malformed or
 surplus values

---
 src/particles_loader/vtu.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index 7189659..94bc612 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -1,5 +1,6 @@
 #include "vtu.hpp"
 
+#include <cctype>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -10,6 +11,17 @@ using ParticlesLoader::Vtu;
 using std::cerr;
 using std::endl;
 
+namespace {
+/**
+ * @brief Read values from a line, which must hold these values separated by white space and nothing else
+ */
+template <typename... T> bool readValues(const std::string& line, T&... values) {
+    std::istringstream iss(line);
+    bool success = ((iss >> values && (iss.peek() == EOF || std::isspace(iss.peek()))) && ...);
+    return success && (iss >> std::ws).eof();
+}
+} // namespace
+
 Vtu::Vtu() {
 }
 
@@ -54,9 +66,8 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         // Extract particle positions
         if (line.find("Position") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
-                std::istringstream iss(line);
                 double x, y, z;
-                if (!(iss >> x >> y >> z)) {
+                if (!readValues(line, x, y, z)) {
                     throw std::runtime_error("Invalid position data format");
                 }
                 positions.emplace_back(x, y, z);
@@ -66,9 +77,8 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         // Extract velocities
         if (line.find("Velocity") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
-                std::istringstream iss(line);
                 double vx, vy, vz;
-                if (!(iss >> vx >> vy >> vz)) {
+                if (!readValues(line, vx, vy, vz)) {
                     throw std::runtime_error("Invalid velocity data format");
                 }
                 velocities.emplace_back(vx, vy, vz);
@@ -79,8 +89,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         if (line.find("Particle Type") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 int type;
-                std::istringstream iss(line);
-                if (!(iss >> type)) {
+                if (!readValues(line, type)) {
                     throw std::runtime_error("Invalid particle type data format");
                 }
                 types.push_back(type);
@@ -91,8 +100,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         if (line.find("Fluid Type") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 int fluidType;
-                std::istringstream iss(line);
-                if (!(iss >> fluidType)) {
+                if (!readValues(line, fluidType)) {
                     throw std::runtime_error("Invalid fluid type data format");
                 }
                 fluidTypes.push_back(fluidType);
@@ -103,8 +111,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         if (line.find("\"Density\"") != std::string::npos || line.find("'Density'") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
-                std::istringstream iss(line);
-                if (!(iss >> density)) {
+                if (!readValues(line, density)) {
                     throw std::runtime_error("Invalid density data format");
                 }
                 densities.push_back(density);
-- 
2.43.0


From 1fd99b24d98db4479a95582cd5ffe11d44414789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 08/15] fix: report outputs that could not be written
 completely

---
 src/particles_exporter.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/particles_exporter.cpp b/src/particles_exporter.cpp
index fb0e6c9..092ba91 100644
--- a/src/particles_exporter.cpp
+++ b/src/particles_exporter.cpp
@@ -10,6 +10,17 @@ using std::cerr;
 using std::endl;
 namespace fs = std::filesystem;
 
+/**
+ * @brief Close the output file and stop the program if anything could not be written
+ */
+static void closeFile(std::ofstream& ofs, const fs::path& path) {
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "cannot write " << path << endl;
+        std::exit(-1);
+    }
+}
+
 bool ParticlesExporter::isBigEndian() const {
     uint32_t i         = 1; // 0x00000001
     uint8_t first_byte = *reinterpret_cast<uint8_t*>(&i);
@@ -64,6 +75,8 @@ void ParticlesExporter::toProf(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << " " << p.velocity.y() << " " << p.velocity.z();
         ofs << endl;
     }
+
+    closeFile(ofs, path);
 }
 void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
     std::ofstream ofs(path);
@@ -177,6 +190,8 @@ void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, con
     ofs << "</FieldData>" << endl;
     ofs << "</UnstructuredGrid>" << endl;
     ofs << "</VTKFile>" << endl;
+
+    closeFile(ofs, path);
 }
 
 void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
@@ -341,6 +356,8 @@ void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, co
     ofs << "_" << binaryData.str() << endl;
     ofs << "</AppendedData>" << endl;
     ofs << "</VTKFile>" << endl;
+
+    closeFile(ofs, path);
 }
 
 void ParticlesExporter::toVtu(
@@ -370,4 +387,6 @@ void ParticlesExporter::toCsv(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << "," << p.velocity.y() << "," << p.velocity.z();
         ofs << endl;
     }
+
+    closeFile(ofs, path);
 }
-- 
2.43.0


From f82da3cf9afe9effd26ead9a370cc1d393e661ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 09/15] fix: generators cancel at the end of their input
 instead of asking for ever

---
 generator/generator_src/generator_dialogue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/generator_src/generator_dialogue.cpp b/generator/generator_src/generator_dialogue.cpp
index 9752dbe..aed01d5 100644
--- a/generator/generator_src/generator_dialogue.cpp
+++ b/generator/generator_src/generator_dialogue.cpp
@@ -37,7 +37,10 @@ void GeneratorDialogue::generatorDialogue(
             std::string response;
             while (true) {
                 std::cout << "Are you sure you want to overwrite the input files? (y/n): ";
-                std::cin >> response;
+                // the end of the input is not a consent
+                if (!(std::cin >> response)) {
+                    response = "n";
+                }
                 if (response == "n" || response == "N") {
                     std::cout << "The request has been cancelled." << std::endl;
                     std::exit(0);
-- 
2.43.0


From 36e9f0480dc06ac3df588f631347f8e46f1e3247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 10/15] fix: prof_to_csv.sh keeps a last line without newline
 and tab-separated lines

---
 scripts/prof_to_csv.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/prof_to_csv.sh b/scripts/prof_to_csv.sh
index 173919e..488927c 100755
--- a/scripts/prof_to_csv.sh
+++ b/scripts/prof_to_csv.sh
@@ -10,13 +10,14 @@ input_file="$1"
 output_file="$2"
 
 # Copy the first two lines (start time and number of particles) of the input file to the output file
-head -n2 "$input_file" > "$output_file"
+# (awk ends the last line even if the input file does not)
+awk 'NR <= 2' < "$input_file" > "$output_file"
 
 # Add the csv header
 echo "type,x,y,z,vx,vy,vz" >> "$output_file"
 
 # Convert the rest of the input file to csv format (start from the third line)
-tail -n +3 "$input_file" | while IFS=" " read -r type x y z vx vy vz; do
+tail -n +3 "$input_file" | while IFS=$' \t' read -r type x y z vx vy vz || [[ -n "$type" ]]; do
     # Skip the line if the type is empty or not a number
     if [[ -z "$type" || ! "$type" =~ ^[0-9]+$ ]]; then
         continue
-- 
2.43.0


From caea72d283310c05d7c11c5b1b4fd0c950ca1d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 11/15] fix: runner scripts work in paths with spaces and never
 continue in a wrong directory

---
 scripts/runner.sh      | 2 +-
 scripts/safe_runner.sh | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/runner.sh b/scripts/runner.sh
index f96bc4f..1b81d8e 100755
--- a/scripts/runner.sh
+++ b/scripts/runner.sh
@@ -10,7 +10,7 @@ errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-cd $(dirname $0)/..
+cd -- "$(dirname -- "$0")/.." || exit 1
 
 # create output directory if not exist
 mkdir -p ${outputDir}
diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index a69a5f3..8fc198e 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -22,10 +22,10 @@ errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-cd $(dirname $0)/..
+cd -- "$(dirname -- "$0")/.." || exit 1
 
 # create output directory if not exist
-mkdir -p ${outputDir}
+mkdir -p "${outputDir}"
 
 # run simulation
-./build/mps --setting ${settingFile} --output ${outputDir} 2> ${errorLogFile} | tee ${consoleLogFile}
+./build/mps --setting "${settingFile}" --output "${outputDir}" 2> "${errorLogFile}" | tee "${consoleLogFile}"
-- 
2.43.0


From ed41a0040268c9a7aa633e3341223e55be0b1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 12/15] fix: runner scripts end with the status of mps

---
 scripts/runner.sh      | 3 ++-
 scripts/safe_runner.sh | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/runner.sh b/scripts/runner.sh
index 1b81d8e..5fb7e65 100755
--- a/scripts/runner.sh
+++ b/scripts/runner.sh
@@ -21,5 +21,6 @@ rm -rf ${outputDir}/*
 # -r, --recursive: remove directories and their contents
 # -f, --force: ignore nonexistent files and arguments, never prompt
 
-# run simulation
+# run simulation (the status is that of mps, not that of tee)
+set -o pipefail
 ./build/mps --setting ${settingFile} --output ${outputDir} 2> ${errorLogFile} | tee ${consoleLogFile}
diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index 8fc198e..b8860cd 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -27,5 +27,6 @@ cd -- "$(dirname -- "$0")/.." || exit 1
 # create output directory if not exist
 mkdir -p "${outputDir}"
 
-# run simulation
+# run simulation (the status is that of mps, not that of tee)
+set -o pipefail
 ./build/mps --setting "${settingFile}" --output "${outputDir}" 2> "${errorLogFile}" | tee "${consoleLogFile}"
-- 
2.43.0


From f7ada1c18e0018f647ecf4bb64b631a52fa190c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 13/15] fix: safe_runner.sh does not overwrite the logs of a
 run in the same second

---
 scripts/safe_runner.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index b8860cd..e53e950 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -24,8 +24,8 @@ consoleLogFile="${outputDir}/console.log"
 # go to root directory so that we can activate the script from any directory
 cd -- "$(dirname -- "$0")/.." || exit 1
 
-# create output directory if not exist
-mkdir -p "${outputDir}"
+# create output directory; a run within the same second must not use it again
+mkdir -p "$(dirname -- "${outputDir}")" && mkdir "${outputDir}" || exit 1
 
 # run simulation (the status is that of mps, not that of tee)
 set -o pipefail
-- 
2.43.0


From 4f12b2844f9a614a629166c2abb0c128f92b4dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 14/15] fix: report the time step with its digits, not rounded
 to one

---
 src/simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation.cpp b/src/simulation.cpp
index 587e2fa..1142527 100644
--- a/src/simulation.cpp
+++ b/src/simulation.cpp
@@ -84,7 +84,7 @@ void Simulation::timeStepReport(
 
     // terminal output
     printf(
-        "%d: dt=%.gs   t=%.3lfs   fin=%.1lfs   %s   %s   ave=%.3lfs/step   "
+        "%d: dt=%gs   t=%.3lfs   fin=%.1lfs   %s   %s   ave=%.3lfs/step   "
         "last=%.3lfs/step   out=%dfiles   Courant=%.2lf\n",
         timeStep,
         dt,
-- 
2.43.0


From c47c51ea093c04e13b44c22d56087902d38ce295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:43 +0000
Subject: [PATCH 15/15] fix: do not overflow the number of buckets of a very
 large domain

---
 src/bucket.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index d170347..0200947 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -11,6 +11,13 @@ Bucket::Bucket(const double& reMax, const Domain& domain, const size_t& particle
     this->length = reMax;
     this->domain = domain;
 
+    // The number of buckets must fit in an int (and in memory).
+    // Buckets longer than reMax find the same neighbors, so they are enlarged for a very large domain.
+    const double maxNum = 1e7;
+    while ((domain.xLength / length + 3) * (domain.yLength / length + 3) * (domain.zLength / length + 3) > maxNum) {
+        length *= 2;
+    }
+
     this->numX = (int) (domain.xLength / length) + 3;
     this->numY = (int) (domain.yLength / length) + 3;
     this->numZ = (int) (domain.zLength / length) + 3;
-- 
2.43.0

