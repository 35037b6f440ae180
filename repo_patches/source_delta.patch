From 0a1dfdc9329c44d86ffb1e13359d24a7981332f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 01/32] fix: do not abort when the allowed time step is above
 min(dt)

When the distance to the next output time was below 3*min(dt) and the
largest acceptable step was slightly smaller, the stepper returned
stride-2*min(dt) < min(dt) and the simulation was aborted.
---
 src/time_integration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 9ba87dd..c9dcf14 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -30,7 +30,8 @@ public:
         double step = std::min(stride, soft_max);
         if (step > stride - 2 * hard_min && step < stride)
             {
-            step = stride - 2 * hard_min;
+            // Leave a remainder the next steps can cover, without going below hard_min.
+            step = std::max(stride - 2 * hard_min, std::min(step, stride / 2));
             }
         soft_max = std::max(soft_max, std::min(step * 1.1, hard_max));
         return step;
-- 
2.43.0


From 33445d173aa786dd9e73a2bef27338ddaf1c007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 02/32] fix: do not save a rejected trial magnetization at exit

After a time step rejected because of max(du), the trial magnetization was
left in the nodes, and saved in _at_exit.sol if a signal came in.
---
 src/mesh.h               | 7 +++++++
 src/time_integration.cpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/mesh.h b/src/mesh.h
index 3f6eaad..5bc6d76 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -192,6 +192,13 @@ public:
                       [](Nodes::Node &nod) { nod.evolution(); });
         }
 
+    /** discard the trial magnetization of a rejected time step */
+    inline void rejectTrial(void)
+        {
+        std::for_each(EXEC_POL, node.begin(), node.end(),
+                      [](Nodes::Node &nod) { nod.d[Nodes::NEXT].u = nod.d[Nodes::CURRENT].u; });
+        }
+
     /** isobarycenter */
     Eigen::Vector3d c;
 
diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index c9dcf14..2d64ddc 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -226,6 +226,7 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
             if (dumax > settings.DUMAX)
                 {
                 flag++;
+                msh.rejectTrial();
                 continue;
                 }
 
-- 
2.43.0


From 64d3eaebaa70a89f2139b3e016ae655058913059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 03/32] fix: count the steps rejected because of max(du) as
 failed steps

---
 src/time_integration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 2d64ddc..649ce38 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -215,8 +215,6 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                 }
 
             double dumax = t_prm.get_dt() * vmax;
-            stats.good_dt.add(t_prm.get_dt());
-            stats.good_dumax.add(dumax);
             if (settings.verbose)
                 {
                 std::cout << "  -> dumax = " << dumax << ",  vmax = " << vmax << std::endl;
@@ -226,9 +224,12 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
             if (dumax > settings.DUMAX)
                 {
                 flag++;
+                stats.bad_dt.add(t_prm.get_dt());
                 msh.rejectTrial();
                 continue;
                 }
+            stats.good_dt.add(t_prm.get_dt());
+            stats.good_dumax.add(dumax);
 
             compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
             nt++;
-- 
2.43.0


From a1b4ffd5aaab721a2587da235664b55f2d59c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 04/32] fix: flush the messages and statistics before dying
 from a signal

---
 src/time_integration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 649ce38..68c2244 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -125,6 +125,7 @@ static void exit_if_signal_received(const Fem &fem, const Settings &settings, co
     std::cout << "Terminating.\n";
 
     print_stats(stats);
+    fflush(stdout);  // buffered output is lost when killed by a signal
 
     // Re-send ourselves the signal we caught in order to return the correct status.
     signal(received_signal, SIG_DFL);
-- 
2.43.0


From 429a713498fcbc17bdbf1ba12fea27fe3d77493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 05/32] fix: compute the Zeeman energy with the field at the
 new time

The energies were computed before the time was advanced, so the rows of the
.evol file mixed E_zeeman at the beginning of the last integration step with
the magnetization at its end.
---
 src/time_integration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 68c2244..864fe37 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -232,16 +232,16 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
             stats.good_dt.add(t_prm.get_dt());
             stats.good_dumax.add(dumax);
 
-            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
-            nt++;
-            flag = 0;
-
             // Prevent rounding errors from making us miss the target.
             if (last_step)
                 t_prm.set_t(t_target);
             else
                 t_prm.inc_t();
 
+            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
+            nt++;
+            flag = 0;
+
             if (settings.recenter) recenter(settings.threshold, settings.recentering_direction);
             if (!settings.verbose) show_progress(t_prm.get_t() / t_prm.tf);
 
-- 
2.43.0


From 3a09cd879c873ebca04f6136d87b05b86d9f5f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:32 +0000
Subject: [PATCH 06/32] fix: tolerate rounding errors when comparing the time
 step to min(dt)

With evol_time_step equal to min(dt), the distance between two output times
may round to slightly less than min(dt), which aborted the simulation.
---
 src/time_integration.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time_integration.h b/src/time_integration.h
index 32e20aa..1ae1774 100644
--- a/src/time_integration.h
+++ b/src/time_integration.h
@@ -1,6 +1,8 @@
 #ifndef time_integration_h
 #define time_integration_h
 
+#include <cfloat>
+
 /** all timing parameters for integrating in time LLG with adaptative time-step and relaxation
  * corrections throught prefactor=f(dt) */
 class timing
@@ -41,8 +43,8 @@ public:
         prefactor = (1. + t_tilde * abs(log( t_tilde)));
         }
 
-    /** basic test to know if dt is too small */
-    inline bool is_dt_TooSmall() const { return (dt < DTMIN); }
+    /** basic test to know if dt is too small, with some tolerance for rounding errors */
+    inline bool is_dt_TooSmall() const { return (dt < DTMIN * (1 - FLT_EPSILON)); }
 
     /** increment time t with time step dt */
     inline void inc_t() { t += dt; }
-- 
2.43.0


From ff6c1e1aab5fca502026760d7a3ce224534f5e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:16 +0000
Subject: [PATCH 07/32] fix: do not let a rounding error forbid a step equal to
 max(dt)

With min(dt) = max(dt) = evol_time_step, the distance between two output
times may round to slightly more than the largest step, and the simulation
was aborted.
---
 src/time_integration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 864fe37..6b52dfe 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -27,7 +27,8 @@ public:
      * time we want to hit exactly. */
     double operator()(const double stride)
         {
-        double step = std::min(stride, soft_max);
+        // Reach the target if we can, with some tolerance for rounding errors.
+        double step = (stride <= soft_max * (1 + FLT_EPSILON)) ? stride : soft_max;
         if (step > stride - 2 * hard_min && step < stride)
             {
             // Leave a remainder the next steps can cover, without going below hard_min.
-- 
2.43.0


From 243b9433322c2e580af6c3fc67a6e25d659517ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:40 +0000
Subject: [PATCH 08/32] fix: let the last settings layer define the initial
 magnetization and the field

A file name or a function read from the user's defaults was kept, and took
precedence over what the simulation's settings define in another form.
---
 src/settings.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 0ffd9a1..1c541f3 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -458,9 +458,13 @@ void Settings::read(YAML::Node yaml)
             {
             std::string s_mag = magnetization.as<std::string>();
             if (s_mag.find("function") == std::string::npos || s_mag.find('{') == std::string::npos)
-                { restoreFileName = s_mag; }
+                {
+                restoreFileName = s_mag;
+                sM.clear();
+                }
             else
                 {
+                restoreFileName.clear();
                 sM = s_mag;
                 mag_parser.set_function(sM);
                 }
@@ -472,6 +476,8 @@ void Settings::read(YAML::Node yaml)
             sMx = magnetization[0].as<std::string>();
             sMy = magnetization[1].as<std::string>();
             sMz = magnetization[2].as<std::string>();
+            restoreFileName.clear();
+            sM.clear();
             mag_parser.set_expressions("x,y,z", sMx, sMy, sMz);
             }
         else
@@ -512,6 +518,7 @@ void Settings::read(YAML::Node yaml)
             sBx = field[0].as<std::string>();
             sBy = field[1].as<std::string>();
             sBz = field[2].as<std::string>();
+            sB.clear();
             field_parser.set_expressions("t", sBx, sBy, sBz);
             field_type = RtoR3;
             }
-- 
2.43.0


From d257b8b5567de1666b10be936da8c0820c7b0952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:40 +0000
Subject: [PATCH 09/32] fix: keep recentering.direction when a later settings
 layer does not define it

---
 src/settings.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 1c541f3..6f0bb2d 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -490,14 +490,17 @@ void Settings::read(YAML::Node yaml)
     if (recentering && !recentering.IsNull())
         {
         assign(recenter, recentering["enable"]);
-        std::string direction = recentering["direction"].as<std::string>("Z");
-        if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
-            { error("recentering.direction should be X, Y or Z."); }
-        switch (direction[0])
+        std::string direction;
+        if (assign(direction, recentering["direction"]))
             {
-            case 'X': recentering_direction = IDX_X; break;
-            case 'Y': recentering_direction = IDX_Y; break;
-            case 'Z': recentering_direction = IDX_Z; break;
+            if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
+                { error("recentering.direction should be X, Y or Z."); }
+            switch (direction[0])
+                {
+                case 'X': recentering_direction = IDX_X; break;
+                case 'Y': recentering_direction = IDX_Y; break;
+                case 'Z': recentering_direction = IDX_Z; break;
+                }
             }
         assign(threshold, recentering["threshold"]);
         }  // recentering
-- 
2.43.0


From 040a2c4aa899c5d88e71205b373a29ea0d276346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:13 +0000
Subject: [PATCH 10/32] fix: merge a region defined in several settings layers
 instead of ignoring the last one

---
 src/settings.cpp | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 6f0bb2d..309f498 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -388,10 +388,16 @@ void Settings::read(YAML::Node yaml)
                 bool has_Ms = false, has_Js = false;  // whether Ms and/or Js are defined
                 std::string name = it->first.as<std::string>();
                 YAML::Node volume = it->second;
-                Tetra::prm &p = paramTetra.emplace_back();
-                if (default_idx >= 0)
-                    { p = paramTetra[default_idx]; }
-                p.regName = name;
+                int idx = findRegionIdx<Tetra::prm>(name);
+                if (idx < 0)  // new region
+                    {
+                    idx = paramTetra.size();
+                    paramTetra.emplace_back();
+                    if (default_idx >= 0)
+                        { paramTetra[idx] = paramTetra[default_idx]; }
+                    paramTetra[idx].regName = name;
+                    }
+                Tetra::prm &p = paramTetra[idx];
 
                 assign(p.A, volume["Ae"]);
                 if (assign(p.Ms, volume["Ms"]))
@@ -428,24 +434,34 @@ void Settings::read(YAML::Node yaml)
                 {
                 std::string name = it->first.as<std::string>();
                 YAML::Node surface = it->second;
-                Triangle::prm &p = paramTriangle.emplace_back();
-                if (default_idx >= 0)
-                    { p = paramTriangle[default_idx]; }
-                p.regName = name;
+                int idx = findRegionIdx<Triangle::prm>(name);
+                if (idx < 0)  // new region
+                    {
+                    idx = paramTriangle.size();
+                    paramTriangle.emplace_back();
+                    if (default_idx >= 0)
+                        { paramTriangle[idx] = paramTriangle[default_idx]; }
+                    paramTriangle[idx].regName = name;
+                    paramTriangle[idx].jn = NAN;
+                    paramTriangle[idx].V = NAN;
+                    paramTriangle[idx].uP = Eigen::Vector3d(NAN,NAN,NAN);
+                    paramTriangle[idx].s = Eigen::Vector3d(NAN,NAN,NAN);
+                    }
+                Triangle::prm &p = paramTriangle[idx];
                 assign(p.suppress_charges, surface["suppress_charges"]);
                 assign(p.Ks, surface["Ks"]);
                 assign(NORMALIZE, p.uk, surface["uk"]);
 
                 // J and V may be null, which we map to NAN.
-                if (!assign(p.jn, surface["jn"]))
+                if (!assign(p.jn, surface["jn"]) && surface["jn"])
                     { p.jn = NAN; }
-                if (!assign(p.V, surface["V"]))
+                if (!assign(p.V, surface["V"]) && surface["V"])
                     { p.V = NAN; }
                 if (!isnan(p.jn) && !isnan(p.V))
                     { error("A surface region cannot have both no-null J and V."); }
-                if (!assign(NORMALIZE, p.uP, surface["uP"]))
+                if (!assign(NORMALIZE, p.uP, surface["uP"]) && surface["uP"])
                     { p.uP = Eigen::Vector3d(NAN,NAN,NAN); }
-                if (!assign(!NORMALIZE, p.s, surface["s"]))
+                if (!assign(!NORMALIZE, p.s, surface["s"]) && surface["s"])
                     { p.s = Eigen::Vector3d(NAN,NAN,NAN); }
                 }
             }  // mesh.surface_regions
-- 
2.43.0


From 325478c08851278c8899003972430c6d9c3f7985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:20 +0000
Subject: [PATCH 11/32] fix: derive the default output name from the mesh file
 of the last settings layer

---
 src/settings.cpp | 38 +++++++++++++++++++++-----------------
 src/settings.h   |  4 ++--
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 309f498..ee57adb 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -152,11 +152,31 @@ void Settings::dumpTemplate()
     std::cout << s;
     }
 
+std::string Settings::getSimName(void) const
+    {
+    if (!simName.empty())
+        { return simName; }
+
+    // outputs.file_basename defaults to base name of mesh.filename.
+    std::string name = pbName;
+
+    // Remove directory part.
+    size_t pos = name.rfind('/');
+    if (pos != name.npos)
+        { name.erase(0, pos + 1); }
+
+    // Remove everything after last dot.
+    pos = name.rfind('.');
+    if (pos != name.npos)
+        { name.erase(pos); }
+    return name;
+    }
+
 void Settings::toYaml()
     {
     std::cout << "outputs:\n";
     std::cout << "  directory: " << r_path_output_dir << "\n";
-    std::cout << "  file_basename: " << simName << "\n";
+    std::cout << "  file_basename: " << getSimName() << "\n";
     std::cout << "  evol_time_step: " << time_step << "\n";
     std::cout << "  final_time: " << tf << "\n";
     std::cout << "  evol_columns:\n";
@@ -601,22 +621,6 @@ void Settings::read(YAML::Node yaml)
         assign(dt_min, time_integration["min(dt)"]);
         assign(dt_max, time_integration["max(dt)"]);
         }  // time_integration
-
-    // outputs.file_basename defaults to base name of mesh.filename.
-    if (simName.empty() && !pbName.empty())
-        {
-        simName = pbName;
-
-        // Remove directory part.
-        size_t pos = simName.rfind('/');
-        if (pos != simName.npos)
-            { simName.erase(0, pos + 1); }
-
-        // Remove everything after last dot.
-        pos = simName.rfind('.');
-        if (pos != simName.npos)
-            { simName.erase(pos); }
-        }
     }
 
 bool Settings::read(const std::string& filename)
diff --git a/src/settings.h b/src/settings.h
index 49dc1c9..9bb637f 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -117,8 +117,8 @@ public:
     /** setter for .sol output file name */
     inline void setSimName(const std::string &str) { simName = str; }
 
-    /** getter for output file name */
-    inline std::string getSimName(void) const { return simName; }
+    /** getter for output file name, defaults to the base name of the mesh file */
+    std::string getSimName(void) const;
 
     /** setter for geometrical scaling factor for physical coordinates of the mesh */
     inline void setScale(const double s) { _scale = s; }
-- 
2.43.0


From ffe5cc41c9bf28bf47a4ce7fe552df689ad489e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:43 +0000
Subject: [PATCH 12/32] fix: make the output of --verify a settings file
 defining the same settings

---
 src/settings.cpp | 141 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 89 insertions(+), 52 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index ee57adb..8ec294c 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <string>
 #include <algorithm>
+#include <charconv>  // for std::to_chars()
 #include <regex>
 #include <cmath>
 #include <unistd.h>  // for sysconf(), gethostname()
@@ -79,38 +80,74 @@ static void replace(std::string &s, const std::string &search, const std::string
 // Stringify a boolean
 static const char *str(const bool x) { return x ? "true" : "false"; }
 
-// Stringify a vector
-// do NOT use std::to_string here, because cout << to_string(1e-7); does print 0.000000
-// with C++20 we should use std::format
+// Stringify a number: this is the shortest representation that reads back as the same value.
+static const std::string str(const double x)
+    {
+    if (std::isnan(x))
+        { return ".nan"; }
+    if (std::isinf(x))
+        { return x > 0 ? ".inf" : "-.inf"; }
+    char buffer[32];
+    return std::string(buffer, std::to_chars(buffer, buffer + sizeof buffer, x).ptr);
+    }
+
+// Stringify a vector. A vector of NAN stands for an undefined value.
 static const std::string str(Eigen::Vector3d v)
     {
-    char buffer[100];
-    std::sprintf(buffer,"[%g, %g, %g]",v.x(),v.y(),v.z());
-    return std::string(buffer);
+    if (v.array().isNaN().any())
+        { return ""; }
+    return '[' + str(v.x()) + ", " + str(v.y()) + ", " + str(v.z()) + ']';
+    }
+
+// Enclose a string in quotes, and escape embedded quotes, backslashes and control characters.
+static const std::string quote(const std::string &s)
+    {
+    std::string result = "\"";
+    for (const char c : s)
+        {
+        if (c == '"' || c == '\\')
+            { result += '\\'; result += c; }
+        else if (static_cast<unsigned char>(c) < 0x20 || c == 0x7f)
+            {
+            char buffer[8];
+            std::snprintf(buffer, sizeof buffer, "\\x%02x", c);
+            result += buffer;
+            }
+        else
+            { result += c; }
+        }
+    return result + '"';
+    }
+
+// Stringify a name: quote it unless it can be written as is.
+static const std::string name(const std::string &s)
+    {
+    static const std::regex plain("[A-Za-z0-9_./<][A-Za-z0-9_./<>:-]*[A-Za-z0-9_./>]|[A-Za-z0-9_./]");
+    static const std::regex null("null|Null|NULL");
+    if (std::regex_match(s, plain) && !std::regex_match(s, null))
+        { return s; }
+    return quote(s);
     }
 
 // Stringify a string: if it contains a newline, convert it to a multiline string in "literal style"
-// (introduced by '|'). Otherwise enclose it in quotes, and escape embedded quotes.
+// (introduced by '|'). Otherwise quote it.
 // `level` is the indentation level of the property whose value is being stringified.
 static const std::string str(std::string s, const int level = 0)
     {
-    // If it doesn't have a newline, quote it.
-    if (s.find('\n') == s.npos)
-        {
-        replace(s, "\"", "\\\"");  // escape embedded quotes
-        return '"' + s + '"';
-        }
+    // If it doesn't have a newline, or if the literal style can't represent it, quote it.
+    const bool final_eol = !s.empty() && s.back() == '\n';
+    const std::string text = final_eol ? s.substr(0, s.size() - 1) : s;
+    if (s.find('\n') == s.npos || text.empty() || isspace(text.front()) || isspace(text.back())
+        || std::any_of(text.begin(), text.end(),
+                       [](unsigned char c) { return c != '\n' && (c < 0x20 || c == 0x7f); }))
+        { return quote(s); }
 
     // Indentation to be added to each line.
     int indent_size = (level + 1) * 2;  // the value is indented one level more than the property
     std::string indent(indent_size, ' ');
 
-    // Prepend "|\n".
-    s.insert(0, "|\n");
-
-    // Remove trailing eol.
-    if (s.back() == '\n')
-        { s.resize(s.size() - 1); }
+    // Introduce the literal, '-' telling that the final eol is not part of the value.
+    s = (final_eol ? "|\n" : "|-\n") + text;
 
     // Add indentation.
     replace(s, "\n", "\n" + indent);
@@ -175,67 +212,67 @@ std::string Settings::getSimName(void) const
 void Settings::toYaml()
     {
     std::cout << "outputs:\n";
-    std::cout << "  directory: " << r_path_output_dir << "\n";
-    std::cout << "  file_basename: " << getSimName() << "\n";
-    std::cout << "  evol_time_step: " << time_step << "\n";
-    std::cout << "  final_time: " << tf << "\n";
+    std::cout << "  directory: " << name(r_path_output_dir) << "\n";
+    std::cout << "  file_basename: " << name(getSimName()) << "\n";
+    std::cout << "  evol_time_step: " << str(time_step) << "\n";
+    std::cout << "  final_time: " << str(tf) << "\n";
     std::cout << "  evol_columns:\n";
     for (auto it = evol_columns.begin(); it != evol_columns.end(); ++it)
-        { std::cout << "    - " << *it << "\n"; }
+        { std::cout << "    - " << name(*it) << "\n"; }
 
     std::cout << "  mag_config_every: " << save_period << "\n";
     std::cout << "  metadata:\n";
     for (auto it = userMetadata.begin(); it != userMetadata.end(); ++it)
-        { std::cout << "    " << it->first << ": " << str(it->second, 2) << '\n'; }
+        { std::cout << "    " << name(it->first) << ": " << str(it->second, 2) << '\n'; }
 
     std::cout << "mesh:\n";
-    std::cout << "  filename: " << pbName << "\n";
-    std::cout << "  length_unit: " << _scale << "\n";
+    std::cout << "  filename: " << name(pbName) << "\n";
+    std::cout << "  length_unit: " << str(_scale) << "\n";
     std::cout << "  volume_regions:\n";
     for (auto it = paramTetra.begin(); it != paramTetra.end(); ++it)
         {
         if (it->regName == "__default__")  // skip
             { continue; }
-        std::cout << "    " << it->regName << ":\n";
-        std::cout << "      Ae: " << it->A << "\n";
-        std::cout << "      Ms: " << it->Ms << "\n";
-        std::cout << "      K: " << it->K << "\n";
+        std::cout << "    " << name(it->regName) << ":\n";
+        std::cout << "      Ae: " << str(it->A) << "\n";
+        std::cout << "      Ms: " << str(it->Ms) << "\n";
+        std::cout << "      K: " << str(it->K) << "\n";
         if (it->K != 0)
             { std::cout << "      uk: " << str(it->uk) << "\n"; }
-        std::cout << "      K3: " << it->K3 << "\n";
+        std::cout << "      K3: " << str(it->K3) << "\n";
         if (it->K3 != 0)
             {
             std::cout << "      ex: " << str(it->ex) << "\n";
             std::cout << "      ey: " << str(it->ey) << "\n";
             std::cout << "      ez: " << str(it->ez) << "\n";
             }
-        std::cout << "      alpha_LLG: " << it->alpha_LLG << "\n";
-        std::cout << "      sigma: " << it->sigma << "\n";
-        std::cout << "      dens_state: " << it->N0 << "\n";
-        std::cout << "      P: " << it->P << "\n";
-        std::cout << "      l_sd: " << it->lsd << "\n";
-        std::cout << "      l_sf: " << it->lsf << "\n";
+        std::cout << "      alpha_LLG: " << str(it->alpha_LLG) << "\n";
+        std::cout << "      sigma: " << str(it->sigma) << "\n";
+        std::cout << "      dens_state: " << str(it->N0) << "\n";
+        std::cout << "      P: " << str(it->P) << "\n";
+        std::cout << "      l_sd: " << str(it->lsd) << "\n";
+        std::cout << "      l_sf: " << str(it->lsf) << "\n";
         }
     std::cout << "  surface_regions:\n";
     for (auto it = paramTriangle.begin(); it != paramTriangle.end(); ++it)
         {
         if (it->regName == "__default__")  // skip
             { continue; }
-        std::cout << "    " << it->regName << ":\n";
+        std::cout << "    " << name(it->regName) << ":\n";
         std::cout << "      suppress_charges: " << str(it->suppress_charges) << "\n";
-        std::cout << "      Ks: " << it->Ks << "\n";
+        std::cout << "      Ks: " << str(it->Ks) << "\n";
         if (it->Ks != 0)
             { std::cout << "      uk: " << str(it->uk) << "\n"; }
-        std::cout <<  "      J:";
+        std::cout <<  "      jn:";
         if (isnan(it->jn))
             { std::cout << "\n"; }
         else
-            { std::cout << ' ' << it->jn << '\n'; }
+            { std::cout << ' ' << str(it->jn) << '\n'; }
         std::cout <<  "      V:";
         if (isnan(it->V))
             { std::cout << "\n"; }
         else
-            { std::cout << ' ' << it->V << '\n'; }
+            { std::cout << ' ' << str(it->V) << '\n'; }
         if (spin_acc)
             {
             std::cout << "      uP: " << str(it->uP) << "\n";
@@ -246,14 +283,14 @@ void Settings::toYaml()
     if (!sM.empty())
         { std::cout << str(sM) << "\n"; }
     else if (restoreFileName.empty())
-        { std::cout << "[\"" << sMx << "\", \"" << sMy << "\", \"" << sMz << "\"]\n"; }
+        { std::cout << '[' << quote(sMx) << ", " << quote(sMy) << ", " << quote(sMz) << "]\n"; }
     else
-        { std::cout << restoreFileName << "\n"; }
+        { std::cout << name(restoreFileName) << "\n"; }
     std::cout << "initial_time:";
     if (isnan(initial_time))
         { std::cout << '\n'; }
     else
-        { std::cout << ' ' << initial_time << '\n'; }
+        { std::cout << ' ' << str(initial_time) << '\n'; }
     std::cout << "recentering:\n";
     std::cout << "  enable: " << str(recenter) << "\n";
     if (recenter)
@@ -266,7 +303,7 @@ void Settings::toYaml()
             case IDX_Y: std::cout << "Y\n"; break;
             case IDX_Z: std::cout << "Z\n"; break;
             }
-        std::cout << "  threshold: " << threshold << "\n";
+        std::cout << "  threshold: " << str(threshold) << "\n";
         }
     std::cout << "Bext: ";
     if (field_type == R4toR3)
@@ -274,7 +311,7 @@ void Settings::toYaml()
     else if (!sB.empty())
         { std::cout << str(sB) << "\n"; }
     else
-        { std::cout << "[\"" << sBx << "\", \"" << sBy << "\", \"" << sBz << "\"]\n"; }
+        { std::cout << '[' << quote(sBx) << ", " << quote(sBy) << ", " << quote(sBz) << "]\n"; }
     std::cout << "spin_accumulation:\n";
     std::cout << "  enable: " << str(spin_acc) << "\n";
     if (spin_acc)
@@ -283,11 +320,11 @@ void Settings::toYaml()
     std::cout << "  nb_threads: " << scalfmmNbTh << "\n";
     std::cout << "finite_element_solver:\n";
     std::cout << "  max(iter): " << MAXITER << "\n";
-    std::cout << "  tolerance: " << TOL << "\n";
+    std::cout << "  tolerance: " << str(TOL) << "\n";
     std::cout << "time_integration:\n";
-    std::cout << "  max(du): " << DUMAX << "\n";
-    std::cout << "  min(dt): " << dt_min << "\n";
-    std::cout << "  max(dt): " << dt_max << "\n";
+    std::cout << "  max(du): " << str(DUMAX) << "\n";
+    std::cout << "  min(dt): " << str(dt_min) << "\n";
+    std::cout << "  max(dt): " << str(dt_max) << "\n";
     }
 
 std::ostringstream Settings::commonMetadata() const
-- 
2.43.0


From 9b20e29925787f8f4de275980277199c8c9f8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:43 +0000
Subject: [PATCH 13/32] fix: do not read past the beginning of an empty
 metadata value

---
 src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 8ec294c..f657f3d 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -340,7 +340,7 @@ std::ostringstream Settings::commonMetadata() const
     for (auto it = userMetadata.begin(); it != userMetadata.end(); ++it)
         {
         std::string value = it->second;
-        if (value.back() == '\n') value.resize(value.size() - 1);  // remove trailing newline
+        if (!value.empty() && value.back() == '\n') value.resize(value.size() - 1);  // remove trailing newline
         replace(value, "\n", "\n##  ");  // escape and indent continuation lines
         ss << "## " << it->first << ": " << value << '\n';
         }
-- 
2.43.0


From 0cfae714ac3d7dd67b820284b0369ec704c12859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:43 +0000
Subject: [PATCH 14/32] fix: reject an empty list of evol columns

---
 src/settings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/settings.cpp b/src/settings.cpp
index f657f3d..6c24e60 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -401,6 +401,8 @@ void Settings::read(YAML::Node yaml)
             {
             if (!columns.IsSequence())
                 { error("outputs.evol_columns should be a sequence."); }
+            if (columns.size() == 0)
+                { error("outputs.evol_columns should not be empty."); }
             evol_columns.clear();
             for (auto it = columns.begin(); it != columns.end(); ++it)
                 { evol_columns.push_back(it->as<std::string>()); }
-- 
2.43.0


From 84c643473590dea71c32f42cb9e29b61d7ed865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:43 +0000
Subject: [PATCH 15/32] fix: reject a field whose space or time part is not an
 expression

---
 src/settings.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 6c24e60..ad39e25 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -604,18 +604,12 @@ void Settings::read(YAML::Node yaml)
             {
             YAML::Node field_space = field["space"];
             YAML::Node field_time = field["time"];
-            if (field_space && field_time)
+            if (field_space && field_space.IsScalar() && field_time && field_time.IsScalar())
                 {
-                if (field_space.IsScalar())
-                    {
-                    sB_space = field_space.as<std::string>();
-                    field_space_parser.set_function(sB_space);
-                    }
-                if (field_time.IsScalar())
-                    {
-                    sB_time = field_time.as<std::string>();
-                    field_time_parser.set_function(sB_time);
-                    }
+                sB_space = field_space.as<std::string>();
+                field_space_parser.set_function(sB_space);
+                sB_time = field_time.as<std::string>();
+                field_time_parser.set_function(sB_time);
                 field_type = R4toR3;
                 }
             else
-- 
2.43.0


From 276da5468d57e5d2a87fa718873b03423f1de1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:43 +0000
Subject: [PATCH 16/32] fix: make --verify fail when there are no settings to
 verify

---
 src/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index e17436b..75b4145 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -188,7 +188,11 @@ std::string parseOptions(Settings &settings, int argc, char *argv[], unsigned in
     if (verify)
         {
         settings.read(get_user_defaults_filename());
-        settings.read(filename);
+        if (!settings.read(filename))
+            {
+            std::cerr << "Error: no settings found.\n";
+            exit(1);
+            }
         settings.toYaml();
         exit(0);
         }
-- 
2.43.0


From a1807b9d57b20adf9e578208fe44d5eeb832f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 17/32] fix: index the space dependent field by tetrahedron, as
 its readers do

---
 src/mesh.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 6afad41..a772d40 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -376,14 +376,12 @@ double mesh::surface(std::vector<int> &triIndices) const
 
 void mesh::setExtSpaceField()
     {
-    extSpaceField.resize(magTet.size());
-    int k(0);
-    std::for_each(magTet.begin(), magTet.end(), [this,&k](const int idx)
+    extSpaceField.resize(tet.size());
+    std::for_each(magTet.begin(), magTet.end(), [this](const int idx)
         {
         const Tetra::Tet &t = tet[idx];
         Eigen::Matrix<double,Nodes::DIM,Tetra::NPI> pg = t.getPtGauss();
         for(int i=0;i<Tetra::NPI;i++)
-            { extSpaceField[k].col(i) = settings.getFieldSpace(pg.col(i)); }
-        k++;
+            { extSpaceField[idx].col(i) = settings.getFieldSpace(pg.col(i)); }
         });
     }
-- 
2.43.0


From ab1294534eb28e64705c991752d3ee9dcfff817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 18/32] fix: compute the right bounding box when all
 coordinates are negative

---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 5bc6d76..4774e52 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -425,7 +425,7 @@ private:
     /** return the maximum of all nodes coordinate along coord axis */
     inline double maxNodes(const Nodes::index coord /**< [in] */) const
         {
-        return doOnNodes(__DBL_MIN__, coord, [](const double a, const double b)
+        return doOnNodes(-__DBL_MAX__, coord, [](const double a, const double b)
                         { return a > b; });
         }
 
-- 
2.43.0


From 7dd0d5e0da7fd63f5ae7e241c832f6b096c235f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 19/32] fix: recenter along the direction set by the user

---
 src/fem.h           |  4 ++--
 src/recentering.cpp | 12 +-----------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/fem.h b/src/fem.h
index 3d016e9..7654cec 100644
--- a/src/fem.h
+++ b/src/fem.h
@@ -116,7 +116,7 @@ public:
 
         if (mySets.recenter)
             {
-            direction(Nodes::IDX_Z);
+            direction(mySets.recentering_direction);
             } /* DW propagation direction for recentering */
         }
 
@@ -179,7 +179,7 @@ public:
     */
 
     bool recenter(double thres /**< [in] threshold parameter */,
-                  char recentering_direction /**< [in] X|Y|Z */);
+                  Nodes::index idx_dir /**< [in] recentering direction */);
 
     /** performs the time integration of the LLG problem, with spin accumulation if any */
     int time_integration(Settings &settings /**< [in] */,
diff --git a/src/recentering.cpp b/src/recentering.cpp
index 76dbb10..8916a7e 100644
--- a/src/recentering.cpp
+++ b/src/recentering.cpp
@@ -44,18 +44,8 @@ void Fem::direction(const enum index idx_dir)
     annDeallocPt(queryPt);
     }
 
-bool Fem::recenter(double thres, const char recentering_direction)
+bool Fem::recenter(double thres, const enum index idx_dir)
     {
-    enum index idx_dir;
-
-    switch (recentering_direction)
-        {
-        case 'X': idx_dir = IDX_X; break;
-        case 'Y': idx_dir = IDX_Y; break;
-        case 'Z': idx_dir = IDX_Z; break;
-        default: idx_dir = IDX_Z; break;
-        }
-
     thres = abs(thres);
     double m_i = msh.avg(Nodes::get_u_comp, idx_dir);
     if (fabs(m_i) < thres) return false;
-- 
2.43.0


From fc374b14c3def8ec4a52453b3b634aaef4c350b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 20/32] fix: initialize the speed of the domain wall

---
 src/linear_algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_algebra.h b/src/linear_algebra.h
index fa15855..90fa756 100644
--- a/src/linear_algebra.h
+++ b/src/linear_algebra.h
@@ -115,7 +115,7 @@ private:
     const int verbose;
 
     /** speed of the domain wall */
-    double DW_vz;
+    double DW_vz = 0;
 
     /** maximum speed of the magnetization in the whole physical object */
     double v_max;
-- 
2.43.0


From 50d4522073f9a9770b03c833160d14855f1e8180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 21/32] fix: rebuild the spin diffusion problem from scratch at
 each time step

---
 src/spinAccumulationSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 965e84f..14649a3 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -166,6 +166,8 @@ bool spinAcc::compute(void)
 bool spinAcc::solve(void)
     {
     iter.reset();
+    K.clear();
+    std::fill(L_rhs.begin(), L_rhs.end(), 0);
 
     for (Tetra::Tet &elem : msh->tet)
         {
-- 
2.43.0


From af62ca833a5e8dd623c215a49e1e739c50a966b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 22/32] fix: write the potential in the output directory

---
 src/spinAccumulationSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 14649a3..a508736 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -24,7 +24,7 @@ using namespace Nodes;
             pot_solver.V.resize(_msh.getNbNodes());
             std::string V_fileName("");
             if(mySettings.V_file)
-                { V_fileName = mySettings.getSimName() + "_V.sol"; }
+                { V_fileName = mySettings.r_path_output_dir + '/' + mySettings.getSimName() + "_V.sol"; }
             pot_solver.compute(mySettings.verbose, V_fileName);
 
             V = pot_solver.V;
-- 
2.43.0


From 5e6322dcaa6f4dd0da71f952d6ecd7fcb276920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 23/32] fix: report that the potential has been written when it
 has

---
 src/electrostatSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electrostatSolver.cpp b/src/electrostatSolver.cpp
index e40a2b4..2c76320 100644
--- a/src/electrostatSolver.cpp
+++ b/src/electrostatSolver.cpp
@@ -153,7 +153,7 @@ bool electrostatSolver::save(const std::string &V_fileName, const std::string &m
         fout << i << '\t' << V[_i] << "\n";
         }
     fout.close();
-    return !(fout.good());
+    return fout.good();
     }
 
 double electrostatSolver::getSigma(const Tetra::Tet &tet) const
-- 
2.43.0


From 6f5ec87dacedb928b17ab43357045e175c95ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:35 +0000
Subject: [PATCH 24/32] fix: ignore the non-magnetic nodes in the maximum
 angle, and the rounding errors

---
 src/mesh.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 4774e52..6a15e5c 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -305,11 +305,13 @@ public:
                 [](const double a, const double b){ return std::min(a, b); },
                 [this](const Edge &edge)
                     {
+                    if (!magNode[edge.first] || !magNode[edge.second])
+                        { return 1.0; }  // no magnetization there
                     Eigen::Vector3d m1 = getNode_u(edge.first);
                     Eigen::Vector3d m2 = getNode_u(edge.second);
                     return m1.dot(m2);
                     });
-        return std::acos(min_dot_product);
+        return std::acos(std::max(min_dot_product, -1.0));  // beware of rounding errors
         }
 
     /** text file (tsv) writing function for a solution, node indices are zero based
-- 
2.43.0


From f7903e4432ba8e67256408a26af53d3459c7e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:35 +0000
Subject: [PATCH 25/32] fix: restart from a .sol file having undefined values,
 extra columns or missing data

---
 src/read.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/read.cpp b/src/read.cpp
index 036f451..2324e6b 100644
--- a/src/read.cpp
+++ b/src/read.cpp
@@ -1,5 +1,6 @@
 #include <fstream>
 #include <algorithm>
+#include <sstream>
 #include <gmsh.h>
 
 #include "settings.h"
@@ -231,11 +232,19 @@ double mesh::readSol(bool VERBOSE, const std::string& fileName)
 
     for (unsigned int i = 0; i < node.size(); i++)
         {
-        double mx,my,mz;
         unsigned int i_;
+        std::string mx, my, mz, phi;  // not read as numbers, because the streams can't read "nan"
         int node_idx = node_index[i];
-        fin >> i_ >> mx >> my >> mz >> node[node_idx].d[Nodes::NEXT].phi;
-        node[node_idx].d[Nodes::NEXT].u = Eigen::Vector3d(mx,my,mz);
+        getline(fin, str);  // the line may have extra columns
+        std::istringstream row(str);
+        if (!(row >> i_ >> mx >> my >> mz >> phi))
+            {
+            std::cerr << "error: missing data in input .sol file " << fileName << "\n";
+            fin.close();
+            SYSTEM_ERROR;
+            }
+        node[node_idx].d[Nodes::NEXT].u = Eigen::Vector3d(stod(mx), stod(my), stod(mz));
+        node[node_idx].d[Nodes::NEXT].phi = stod(phi);
         if (i != i_)
             {
             std::cerr << "error: mesh node index mismatch between mesh and input .sol file\n";
-- 
2.43.0


From ba33a83078af56a51fe9075aad6fe7d8d4d47a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:35 +0000
Subject: [PATCH 26/32] fix: reject a .sol file with more nodes than the mesh

---
 src/read.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/read.cpp b/src/read.cpp
index 2324e6b..a023545 100644
--- a/src/read.cpp
+++ b/src/read.cpp
@@ -252,6 +252,12 @@ double mesh::readSol(bool VERBOSE, const std::string& fileName)
             SYSTEM_ERROR;
             }
         }
+    if (fin >> str)
+        {
+        std::cerr << "error: more nodes in input .sol file than in the mesh\n";
+        fin.close();
+        SYSTEM_ERROR;
+        }
     fin.close();
 
     return t;
-- 
2.43.0


From 47620cd080003619d33a65095658927da63879b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:35 +0000
Subject: [PATCH 27/32] fix: give the applied field in the columns having a
 region name

---
 src/save.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/save.cpp b/src/save.cpp
index fc3a06a..d1f1e1e 100644
--- a/src/save.cpp
+++ b/src/save.cpp
@@ -17,8 +17,12 @@ void Fem::saver(Settings &settings, const timing &t_prm, std::ofstream &fout, co
 
     // Cache the applied field if we are going to print any of "Hx", "Hy" or "Hz".
     bool field_needed = std::any_of(settings.evol_columns.begin(), settings.evol_columns.end(),
-        [](const std::string &col_name)
-        { return col_name[0] == 'H' && col_name[1] >= 'x' && col_name[1] <= 'z'; });
+        [](const std::string &column)
+        {
+        // Skip the region name, if any.
+        const std::string col_name = column.substr(column.rfind(':') + 1);
+        return col_name[0] == 'H' && col_name[1] >= 'x' && col_name[1] <= 'z';
+        });
     Eigen::Vector3d applied_field(NAN, NAN, NAN);
     if (field_needed)
         { applied_field = settings.getField(t_prm.get_t()); }
-- 
2.43.0


From ac497621370a454139a2a825793a87a8f44647bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:44 +0000
Subject: [PATCH 28/32] fix: surface anisotropy field divides by mu0 Ms of the
 magnetic side

The field was 2 Ks / dMs: mu0 was missing, the sign depended on the
orientation of the triangle, and on an interface between two regions of
the same Ms it was infinite, making the run fail. Use the average Ms of
the adjacent magnetic tetrahedrons, so the field derives from the
surface anisotropy energy.
---
 src/mesh.cpp     | 11 ++++++++++-
 src/triangle.cpp |  7 ++++++-
 src/triangle.h   |  6 +++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index a772d40..5ff988f 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -224,12 +224,14 @@ bool mesh::controlTriangles()
         tri.push_back(Triangle::Tri(node, curIdxPrm, {i0 + 1, i1 + 1, i2 + 1}));
         }
 
-    // Update dMs on each triangular element.
+    // Update dMs and Ms on each triangular element.
     for (Triangle::Tri &curTri : tri)
         {
         BasicTri triangle(curTri);
         // Find the tetrahedron faces that match this surface element.
         auto face = std::lower_bound(allTriCtnr.begin(), allTriCtnr.end(), triangle);
+        double sumMs = 0;
+        int nbMag = 0;
         for (; face != allTriCtnr.end() && face->nodesInd == triangle.nodesInd; face++)
             {
             if (!face->isSurfaceElement)
@@ -237,8 +239,15 @@ bool mesh::controlTriangles()
                 double Ms = settings.paramTetra[face->idRegion].Ms;
                 bool isFlipped = triangle.isFlipped ^ face->isFlipped;
                 curTri.dMs += isFlipped ? -Ms : Ms;
+                if (Ms > 0)
+                    {
+                    sumMs += Ms;
+                    nbMag++;
+                    }
                 }
             }
+        if (nbMag > 0)
+            { curTri.Ms = sumMs / nbMag; }
         }
 
     return true;
diff --git a/src/triangle.cpp b/src/triangle.cpp
index 800560b..3d31a35 100644
--- a/src/triangle.cpp
+++ b/src/triangle.cpp
@@ -5,7 +5,12 @@ using namespace Nodes;
 
 void Tri::integrales(Triangle::prm const &params)
     {
-    double Kbis = 2.0*params.Ks / dMs;
+    if (Ms == 0)
+        {
+        Lp.setZero();
+        return;
+        }
+    double Kbis = 2.0*params.Ks / (mu0*Ms);
     
     Eigen::Matrix<double,DIM,NPI> u;
     interpolation(Nodes::get_u<CURRENT>, u);
diff --git a/src/triangle.h b/src/triangle.h
index 4b4b784..33de239 100644
--- a/src/triangle.h
+++ b/src/triangle.h
@@ -113,7 +113,7 @@ public:
     inline Tri(const std::vector<Nodes::Node> &_p_node /**< [in] vector of nodes */,
                const int _idx /**< [in] region index in region vector */,
                std::initializer_list<int> _i /**< [in] node index */)
-        : element<N,NPI>(_p_node,_idx,_i),surf(0),dMs(0)
+        : element<N,NPI>(_p_node,_idx,_i),surf(0),dMs(0),Ms(0)
         {
         if (existNodes())
             {
@@ -133,6 +133,10 @@ public:
      * tetrahedrons */
     double dMs;
 
+    /** mean magnetization of the magnetic tetrahedrons the triangle is a face of, 0 if there is
+     * none */
+    double Ms;
+
     /** normal vector (unit vector) */
     Eigen::Vector3d n;
 
-- 
2.43.0


From c1b7b3c76cbeb8aad9547f8fe542c8a45c68ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:24 +0000
Subject: [PATCH 29/32] fix: the second order term of the spin accumulation was
 multiplied by gamma0

---
 src/tetra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tetra.cpp b/src/tetra.cpp
index 72bd24e..02f98fd 100644
--- a/src/tetra.cpp
+++ b/src/tetra.cpp
@@ -298,7 +298,7 @@ void Tet::integrales(Tetra::prm const &param, timing const &prm_t,
             BE.col(i) -= w*Abis*(da(i,0)*dUdx.col(npi) + da(i,1)*dUdy.col(npi)
                     + da(i,2)*dUdz.col(npi));// exchange
             BE.col(i) += ai_w*(H.col(npi) + Hst.col(npi) ); // Hst contribution to BE
-            BE.col(i) -= ai_w*scal_Hst_u*s_dt*V.col(npi); // spin acc second order contrib
+            BE.col(i) -= ai_w*scal_Hst_u*(s_dt/gamma0)*V.col(npi); // spin acc second order contrib
             }
         }
 
-- 
2.43.0


From 2eb521e02da8af053ece853c19acbc0bf169d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:24 +0000
Subject: [PATCH 30/32] fix: the spin accumulation mixed the magnetizations of
 two time steps

---
 src/spinAccumulationSolver.cpp | 6 +++---
 src/tetra.cpp                  | 4 ++--
 src/tetra.h                    | 5 +++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index a508736..96d7bae 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -246,13 +246,13 @@ void spinAcc::integrales(const Tetra::Tet &tet,
         {
         const double invTau_sd = D0 / sq(getLsd(tet)); //units: [D0/sq(lsd)] = s^-1 : it is 1/tau_sd
 
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_X));
+        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_X, NEXT));
         AE.block<N,N>(    N, 2 * N).diagonal() += diag;
         AE.block<N,N>(2 * N,     N).diagonal() -= diag;
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Y));
+        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Y, NEXT));
         AE.block<N,N>(    0, 2 * N).diagonal() -= diag;
         AE.block<N,N>(2 * N,     0).diagonal() += diag;
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Z));
+        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Z, NEXT));
         AE.block<N,N>(    0,     N).diagonal() += diag;
         AE.block<N,N>(    N,     0).diagonal() -= diag;
         }
diff --git a/src/tetra.cpp b/src/tetra.cpp
index 02f98fd..79bad49 100644
--- a/src/tetra.cpp
+++ b/src/tetra.cpp
@@ -139,11 +139,11 @@ Eigen::Matrix<double,N,N> Tet::calcDiagBlock(const double c,
     return result;
     }
 
-Eigen::Matrix<double,N,1> Tet::calcOffDiagBlock(const Nodes::index idx) const
+Eigen::Matrix<double,N,1> Tet::calcOffDiagBlock(const Nodes::index idx, const Nodes::step k) const
     {
     Eigen::Matrix<double,N,1> result;
     for (int i = 0; i < N; i++)
-        result[i] = getNode(i).get_u(Nodes::CURRENT)[idx];
+        result[i] = getNode(i).get_u(k)[idx];
     return result;
     }
 
diff --git a/src/tetra.h b/src/tetra.h
index 4620b82..56a1e40 100644
--- a/src/tetra.h
+++ b/src/tetra.h
@@ -253,9 +253,10 @@ public:
 
     /**
      * computes elementary diagonal elementary block (stored in a N vector)
-     * returns m(idx) on the nodes, with m(idx) a component of the magnetization
+     * returns m(idx) on the nodes, with m(idx) a component of the magnetization at step k
      * */
-    Eigen::Matrix<double,N,1> calcOffDiagBlock(const Nodes::index idx) const;
+    Eigen::Matrix<double,N,1> calcOffDiagBlock(const Nodes::index idx,
+                                               const Nodes::step k = Nodes::CURRENT) const;
 
     /** add drift contribution due to eventual recentering to vectors BE */
     void add_drift_BE(double alpha, double s_dt, double Vdrift,
-- 
2.43.0


From 9b80c787db7dc5334bc3fcf6406e6f632f98804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:16 +0000
Subject: [PATCH 31/32] fix: recentering copied the undefined magnetization of
 non-magnetic nodes

---
 src/fem.h           | 13 +++++++++----
 src/recentering.cpp | 17 +++++++++++------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/fem.h b/src/fem.h
index 7654cec..edaa4aa 100644
--- a/src/fem.h
+++ b/src/fem.h
@@ -69,11 +69,15 @@ public:
                 std::cout << "  points allocated\n";
                 }
 
+            // only the magnetic nodes have a magnetization to look for
             for (int i = 0; i < msh.getNbNodes(); i++)
                 {
-                this->pts[i][0] = msh.getNode_p(i).x();
-                this->pts[i][1] = msh.getNode_p(i).y();
-                this->pts[i][2] = msh.getNode_p(i).z();
+                if (!msh.magNode[i]) continue;
+                const int k = ptsNode.size();
+                ptsNode.push_back(i);
+                this->pts[k][0] = msh.getNode_p(i).x();
+                this->pts[k][1] = msh.getNode_p(i).y();
+                this->pts[k][2] = msh.getNode_p(i).z();
                 }
 
             if (mySets.verbose)
@@ -81,7 +85,7 @@ public:
                 std::cout << "  building kd_tree\n";
                 }
 
-            kdtree = new ANNkd_tree(pts, msh.getNbNodes(), Nodes::DIM);
+            kdtree = new ANNkd_tree(pts, ptsNode.size(), Nodes::DIM);
             if (!kdtree)
                 {
                 std::cerr << "ANN memory error while allocating kd_tree\n";
@@ -194,6 +198,7 @@ private:
     ANNkd_tree *kdtree; /**< ANN kdtree to find efficiently the closest set of nodes to a physical
                            point in the mesh  */
     ANNpointArray pts;  /**< container for the building of the kdtree (handled by ANN library) */
+    std::vector<int> ptsNode; /**< index of the (magnetic) node of each point of pts */
 
     /** find direction of motion of DW */
     void direction(enum Nodes::index idx_dir /**< [in] */);
diff --git a/src/recentering.cpp b/src/recentering.cpp
index 8916a7e..2ffbd50 100644
--- a/src/recentering.cpp
+++ b/src/recentering.cpp
@@ -6,6 +6,9 @@ using namespace Nodes;
 
 void Fem::direction(const enum index idx_dir)
     {
+    DW_dir = 0.0;
+    if (ptsNode.empty()) return;  // nothing is magnetic
+
     constexpr int NPS = 1;
 
     ANNidxArray nnIdx = new ANNidx[NPS];
@@ -22,7 +25,7 @@ void Fem::direction(const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    int ns = nnIdx[0];
+    int ns = ptsNode[nnIdx[0]];
     double u2L = msh.getNode_u(ns)(idx_dir);
 
     /* right */
@@ -32,7 +35,7 @@ void Fem::direction(const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = ptsNode[nnIdx[0]];
 
     double u2R = msh.getNode_u(ns)(idx_dir);
     if (u2L * u2R > 0.)
@@ -46,6 +49,8 @@ void Fem::direction(const enum index idx_dir)
 
 bool Fem::recenter(double thres, const enum index idx_dir)
     {
+    if (ptsNode.empty()) return false;  // nothing is magnetic
+
     thres = abs(thres);
     double m_i = msh.avg(Nodes::get_u_comp, idx_dir);
     if (fabs(m_i) < thres) return false;
@@ -68,7 +73,7 @@ bool Fem::recenter(double thres, const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = ptsNode[nnIdx[0]];
     double u2L = msh.getNode_u(ns)(idx_dir);
 
     // right frontier
@@ -78,7 +83,7 @@ bool Fem::recenter(double thres, const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = ptsNode[nnIdx[0]];
 
     double u2R = msh.getNode_u(ns)(idx_dir);
     if (u2L * u2R > 0)
@@ -90,7 +95,7 @@ bool Fem::recenter(double thres, const enum index idx_dir)
     assert(u2L * u2R < 0);
     double D_i = m_i * 0.5 * msh.l(idx_dir) * u2L;  // shift with correct sign
 
-    for (int i = 0; i < msh.getNbNodes(); i++)
+    for (int i : ptsNode)
         {
         Eigen::Vector3d p = msh.getNode_p(i) + D_i * p_dir;
 
@@ -108,7 +113,7 @@ bool Fem::recenter(double thres, const enum index idx_dir)
         queryPt[2] = p.z();
         kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
 
-        int ns = nnIdx[0];
+        int ns = ptsNode[nnIdx[0]];
         msh.set_node_u0(i, msh.getNode_u(ns));
         msh.set_node_zero_v(i);
         }
-- 
2.43.0


From 6eb472bf017d223710c07c9b99d96360a48f2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:36 +0000
Subject: [PATCH 32/32] fix: flat tetrahedra were accepted when rounding errors
 hide that they are flat

---
 src/tetra.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tetra.cpp b/src/tetra.cpp
index 79bad49..dc3f0b3 100644
--- a/src/tetra.cpp
+++ b/src/tetra.cpp
@@ -2,6 +2,7 @@
   Elementary matrix Calculation for a tetrahedron element
  */
 
+#include <algorithm>  // for std::max()
 #include <set>
 
 #include "config.h"  // to get gamma0 constant
@@ -413,7 +414,9 @@ void Tet::orientate(void)
     Eigen::Vector3d p0p2 = getNode(2).p - getNode(0).p;
     Eigen::Vector3d p0p3 = getNode(3).p - getNode(0).p;
     const double mixed_prod = p0p1.dot(p0p2.cross(p0p3));
-    if ( fabs(mixed_prod) < Tetra::epsilon )
+    // what is below this relative limit is only the rounding errors of the positions
+    const double rounding = 1e-12 * p0p1.norm() * p0p2.norm() * p0p3.norm();
+    if ( fabs(mixed_prod) < std::max(Tetra::epsilon, rounding) )
         {
         std::cerr << "Singular tetrahedron: mixed product= " << mixed_prod << std::endl;
         element::infos();
-- 
2.43.0

