From ecd847f5d11ab3a5898c98d08997a5897ff5319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 01/39] fix: do not return a stale terminal voltage after the
 temperature, the parameters or the degradation states of an SPM cell changed

---
 src/cells/Cell_SPM/Cell_SPM.cpp        | 1 +
 src/cells/Cell_SPM/Cell_SPM.hpp        | 2 ++
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index ce31e03..6dcefcf 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -553,6 +553,7 @@ void Cell_SPM::setT(double Ti)
    */
 
   st.T() = Ti; //!< #TODO if we need to check if we are in limits.  if T is in limits.
+  Vcell_valid = false; //!< the voltage depends on the temperature
 
   //!< the stress values stored in the class variables for stress are no longer valid because the state has changed
   sparam.s_dai_update = false;
diff --git a/src/cells/Cell_SPM/Cell_SPM.hpp b/src/cells/Cell_SPM/Cell_SPM.hpp
index b2f18c4..138f019 100644
--- a/src/cells/Cell_SPM/Cell_SPM.hpp
+++ b/src/cells/Cell_SPM/Cell_SPM.hpp
@@ -240,6 +240,7 @@ public:
     //!< Overwrite both current and initial states.
     st.overwriteCharacterisationStates(Dpi, Dni, ri);
     s_ini.overwriteCharacterisationStates(Dpi, Dni, ri);
+    Vcell_valid = false;
   }
 
   void overwriteGeometricStates(double thickpi, double thickni, double epi, double eni, double api, double ani)
@@ -247,6 +248,7 @@ public:
     //!< Overwrite both current and initial states.
     st.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
     s_ini.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
+    Vcell_valid = false;
   }
 
   //!< time integration
diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 6239d8b..dd3be09 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -358,6 +358,8 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
     //!< degradation accumulation
     for (size_t i = 0; i < st.size(); i++)
       st[i] += d_st[i] * dt * nstep;
+
+    Vcell_valid = false; //!< the voltage depends on the degradation states
   }
 }
 
-- 
2.43.0


From ba1b517c482167d5b65933997ed82f2bedaec011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 02/39] fix: an SPM state vector with negative lost lithium is
 refused like any other illegal state instead of being left half set

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 6dcefcf..7e4594d 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -434,7 +434,7 @@ bool Cell_SPM::validStates(bool print)
   if (st.LLI() < 0) {
     std::cerr << "Error in State::validState. The lost lithium LLI is " << st.LLI()
               << ", which is too low. Only non-negative values are allowed.\n";
-    throw 15;
+    range = false;
   }
 
   const double app = 3 * st.ep() / geo.Rp;
-- 
2.43.0


From b78d9f15e7df3f333467c24aedcd8943eb02a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 03/39] fix: the SPM constructor applies the cell-to-cell
 variation factors it is given

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 7e4594d..5bbfa21 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -643,6 +643,11 @@ Cell_SPM::Cell_SPM(std::string IDi, const DEG_ID &degid, double capf, double res
   geo.elec_surf *= capf;     //!< surface area of the electrodes (current to current density)
 
   //!< set the degradation factor
+  var_cap = capf;
+  var_R = resf;
+  var_degSEI = degfsei;
+  var_degLAM = degflam;
+
   sei_p *= var_degSEI;
   csparam *= var_degSEI;
   lam_p *= var_degLAM;
-- 
2.43.0


From 2b0a30d84ac8a08cfec920afd00468a9684f6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 04/39] fix: a series module that refuses a current restores
 the current of its first cell too

---
 src/modules/Module_s.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 1d8e466..b38c3a3 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -106,7 +106,7 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
                   << getStatusMessage(status) << '\n';
 
 
-      for (int j{ i }; j > 0; j--)
+      for (int j{ i }; j >= 0; j--)
         SUs[j]->setCurrent(Iolds[j], false, false); // #TODO this can start from j{i-1} since probably SUs[i] failed to assign any currents.
 
       return status; // #TODO setCurrent here may be costly.
-- 
2.43.0


From 116fa0404fa7a00ed9bbeeb16044b3261a5ecb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 05/39] fix: the heat of a parallel module's contact
 resistances uses the current through each resistance

---
 src/modules/Module_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 612d1bf..8417dab 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -314,8 +314,8 @@ void Module_p::timeStep_CC(double dt, int nstep)
     therm.time += nstep * dt;
 
     //!< Increase the heat from the contact resistances
-    double Ii = 0; //!< current through resistor I
     for (size_t i = 0; i < SUs.size(); i++) {
+      double Ii = 0;                        //!< current through resistor I
       for (size_t j = i; j < SUs.size(); j++) // #TODO very important! Not calculating current for Rcontact properly!!!!!!!!!!
         Ii += SUs[j]->I();                    //!< resistor i sees the currents through the cells 'behind' them
 
-- 
2.43.0


From 52473b3e452809ff85cfb97517f01f6742e51437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 06/39] fix: blocking degradation and thermal models through
 the base class reaches every cell

---
 src/StorageUnit.hpp    | 2 +-
 src/modules/Module.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StorageUnit.hpp b/src/StorageUnit.hpp
index 2bd8e99..0e0f373 100644
--- a/src/StorageUnit.hpp
+++ b/src/StorageUnit.hpp
@@ -61,7 +61,7 @@ public:
 
   virtual void getStates(getStates_t s) = 0;       //!< returns one long array with the states
   virtual viewStates_t viewStates() { return {}; } //!< Only for cells to see individual states.
-  void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
+  virtual void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
   virtual void setParent(StorageUnit *p) { parent = p; }                             //!< set the parent
   virtual Status setCurrent(double Inew, bool checkV = true, bool print = true) = 0; //
   virtual Status setVoltage(double Vnew, bool checkI = true, bool print = true)
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 731d1f7..cf04b5f 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -170,7 +170,7 @@ public:
 #endif
   }
 
-  void setBlockDegAndTherm(bool block)
+  void setBlockDegAndTherm(bool block) override
   {
     for (auto &SU : SUs)
       SU->setBlockDegAndTherm(block);
-- 
2.43.0


From a947cbb5914489fed5a12dbf131cf10505582138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 07/39] fix: the highest and lowest cell voltage of modules and
 batteries are voltages of single cells

---
 src/modules/Module.cpp | 4 ++--
 src/system/Battery.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 511d075..a1a862a 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -141,7 +141,7 @@ double Module::getVhigh()
 {
   //!< return the voltage of the cell with the highest voltage
   //!< 	note CELL not child SU
-  double Vhigh = Vmin(); // #TODO
+  double Vhigh = SUs.empty() ? Vmin() : SUs[0]->getVhigh();
   for (const auto &SU : SUs)
     Vhigh = std::max(Vhigh, SU->getVhigh()); //!< will be called recursively to the cell levels
 
@@ -151,7 +151,7 @@ double Module::getVhigh()
 double Module::getVlow()
 {
   //!< return the voltage of the cell with the lowest voltage note CELL not child SU
-  double Vlow = Vmax(); // #TODO
+  double Vlow = SUs.empty() ? Vmax() : SUs[0]->getVlow();
   for (const auto &SU : SUs)
     Vlow = std::min(Vlow, SU->getVlow()); //!< will be called recursively to the cell levels
 
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 12673f4..026a38a 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -54,7 +54,7 @@ public:
   Module *getCells() { return cells.get(); }
   //!< int getNstates() { return cells->getNstates() + 1; } //!< +1 for the temperature of this battery
   void getStates(getStates_t &s) override; //!< returns one long array with the states
-  void setBlockDegAndTherm(bool block);
+  void setBlockDegAndTherm(bool block) override;
 
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override
   {
@@ -70,8 +70,8 @@ public:
   double getOCV() override { return cells->getOCV() * nseries; }
   double V() override { return cells->V() * nseries; }
   Status checkVoltage(double &v, bool print) noexcept override;      //!< get the voltage and check if it is valid
-  double getVhigh() override { return cells->getVhigh() * nseries; } //!< return the voltage of the cell with the highest voltage
-  double getVlow() override { return cells->getVlow() * nseries; }   //!< return the voltage of the cell with the lowest voltage
+  double getVhigh() override { return cells->getVhigh(); } //!< return the voltage of the cell with the highest voltage
+  double getVlow() override { return cells->getVlow(); }   //!< return the voltage of the cell with the lowest voltage
 
   //!< thermal model
   double T() override { return cool->T(); }
-- 
2.43.0


From 7c80c32e688100bec7f80c0eb00d52387f320923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 08/39] fix: refusing a storage unit that already has a parent
 does not dereference the missing parent of the module

---
 src/modules/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index a1a862a..32c7b11 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -84,7 +84,7 @@ void Module::setSUs(SUs_span_t c, bool checkCells, bool print)
     {
       if (verb)
         std::cerr << "ERROR in Module::setCells, SU " << i << ", already has a parent "
-                  << "with full ID: " << parent->getFullID() << ". Throwing 10.\n";
+                  << "with full ID: " << p->getFullID() << ". Throwing 10.\n";
       std::cout << "Throwed in File: " << __FILE__ << ", line: " << __LINE__ << '\n';
       throw 10;
     }
-- 
2.43.0


From 943a7c04194380e8d26889b0bbfc3fcbadf68827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 09/39] fix: a module that refuses a state vector restores
 every child, also when the module temperature is illegal

---
 src/modules/Module.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 32c7b11..54ea7b5 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -234,7 +234,7 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
                   << ". Restoring the old states, status: " << getStatusMessage(status) << '\n';
 
       for (size_t j = 0; j <= i; j++)
-        SUs[i]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
+        SUs[j]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
 
       return status;
     }
@@ -242,8 +242,14 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
   } //!< end loop to set the cell states
 
   //!< set the module temperature
-  assert(s[0] >= PhyConst::Kelvin); //!< #TODO here we are checking but should we?
-  setT(s[0]);
+  try {
+    setT(s[0]);
+  } catch (int) { //!< illegal temperature
+    for (auto &SU : SUs)
+      SU->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
+
+    return Status::Invalid_states;
+  }
   s = s.last(s.size() - 1);
 
   //!< check that the cells are valid for this module configuration (same I if series, same V if parallel)
-- 
2.43.0


From 27cc474b337ad46a1e12ccf584a2cb11201856cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 10/39] fix: a battery that refuses a state vector keeps its
 temperature, and one that accepts it consumes it

---
 src/system/Battery.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 0581721..93fd58e 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -105,8 +105,21 @@ void Battery::setBlockDegAndTherm(bool block)
 
 Status Battery::setStates(setStates_t s, bool checkStates, bool print)
 {
-  auto status = cells->setStates(s, checkStates, print);
-  setT(s.back()); //!< #TODO probably here we need to check?
+  std::vector<double> sorig; //!< to restore the cells if the battery temperature is illegal
+  cells->getStates(sorig);
+
+  const auto status = cells->setStates(s, checkStates, print);
+  if (isStatusBad(status)) return status; //!< the cells have restored their states
+
+  try {
+    setT(s[0]);
+  } catch (int) {
+    std::span<double> spn_orig{ sorig };
+    cells->setStates(spn_orig, false, print);
+    return Status::Invalid_states;
+  }
+  s = s.last(s.size() - 1);
+
   return status;
 }
 
-- 
2.43.0


From 094697ec181dad22f5b5fcaf852bf5d02ee72f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 11/39] fix: the children of a copied module or battery have
 the copy as their parent

---
 src/modules/Module.hpp | 7 +++++++
 src/system/Battery.hpp | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index cf04b5f..fe5268d 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -75,6 +75,13 @@ protected:
 public:
   Module() : StorageUnit("Module") {}
   Module(std::string_view ID_) : StorageUnit(ID_) {}
+  Module(const Module &other)
+    : StorageUnit(other), SUs(other.SUs), Rcontact(other.Rcontact), cool(other.cool), therm(other.therm), Ncells(other.Ncells),
+      Vmodule(other.Vmodule), Vmodule_valid(other.Vmodule_valid), par(other.par), st_module(other.st_module), data(other.data)
+  {
+    for (auto &SU : SUs) //!< the copied children belong to this module
+      SU->setParent(this);
+  }
   Module(std::string_view ID_, double Ti, bool print, bool pari, int Ncells, int coolControl, int cooltype);
   Module(std::string_view ID_, double Ti, bool print, bool pari, int Ncells, CoolSystem_t &&coolControlPtr, int cooltype);
 
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 026a38a..627901c 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -92,7 +92,12 @@ public:
   void storeData() override;
   void writeData(const std::string &prefix) override;
 
-  Battery *copy() override { return new Battery(*this); }
+  Battery *copy() override
+  {
+    auto *battery = new Battery(*this);
+    if (battery->cells) battery->cells->setParent(battery); //!< the copied module belongs to the copied battery
+    return battery;
+  }
 };
 
 } // namespace slide
-- 
2.43.0


From eea3787708eba25af066a94ee110e93f3833d07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 12/39] fix: a parallel module reaches exactly the requested
 total current, or restores the currents of its cells

---
 src/modules/Module_p.cpp | 43 ++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 8417dab..5ef6efc 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -124,7 +124,12 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
   for (; iter < maxIteration; iter++) {
     double error{ 0 };
 
-    const auto Vmean = std::accumulate(Va.begin(), Va.begin() + nSU, 0.0) / nSU; // Compute the mean voltage
+    double Vmean{ 0 }, Captot{ 0 };  // Mean voltage weighted with the gain of each SU, such that the sum of the currents is preserved
+    for (size_t i = 0; i < nSU; i++) {
+      Vmean += Va[i] * SUs[i]->Cap();
+      Captot += SUs[i]->Cap();
+    }
+    Vmean /= Captot;
 
     for (size_t i = 0; i < nSU; i++) // Compute the error between mean voltage and individual cell voltages
       error += std::abs(Vmean - Va[i]);
@@ -136,7 +141,7 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
     // Update the currents based on the difference between mean and individual voltages
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      SUs[i]->setCurrent(Ia[i]);
+      SUs[i]->setCurrent(Ia[i], checkV, print);
     }
 
     getVall(Va, print);
@@ -218,24 +223,34 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
     Itot += Iolds[i];
   }
 
+  const auto restore = [&]() {
+    for (size_t i{}; i < SUs.size(); i++)
+      SUs[i]->setCurrent(Iolds[i], false, false);
+  };
+
   const auto dI = (Inew - Itot) / nSU; // #TODO must change if charge/discharge.
 
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] += dI;
-    StatusNow = SUs[i]->setCurrent(Ia[i]); // #TODO worse status should be here.
-    if (!isStatusOK(StatusNow)) return StatusNow;
+    StatusNow = SUs[i]->setCurrent(Ia[i], checkV, print); // #TODO worse status should be here.
+    if (!isStatusOK(StatusNow)) {
+      restore();
+      return StatusNow;
+    }
   }
 
   getVall(Va, print);
 
   int iter{ 0 };
   for (; iter < maxIteration; iter++) {
-    double Vmean{ 0 }, error{ 0 };
+    double Vmean{ 0 }, Captot{ 0 }, error{ 0 };
 
-    for (size_t i = 0; i < nSU; i++)
-      Vmean += Va[i];
+    for (size_t i = 0; i < nSU; i++) { // weighted with the gain of each SU, such that the sum of the currents is preserved
+      Vmean += Va[i] * SUs[i]->Cap();
+      Captot += SUs[i]->Cap();
+    }
 
-    Vmean /= nSU;
+    Vmean /= Captot;
 
     for (size_t i = 0; i < nSU; i++)
       error += std::abs(Vmean - Va[i]);
@@ -247,12 +262,20 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      if (!isStatusSuccessful(SUs[i]->setCurrent(Ia[i])))
-        std::cout << "This should not happen!!" << std::endl; // #TODO
+      const auto status = SUs[i]->setCurrent(Ia[i], checkV, print);
+      if (isStatusBad(status)) {
+        restore();
+        return status;
+      }
     }
     getVall(Va, print);
   }
 
+  if (iter == maxIteration) { // the voltages could not be equalised
+    restore();
+    return Status::RedistributeCurrent_failed;
+  }
+
   //!< voltage of cell i is outside the valid range, but within safety limits
   //!< indicate this happened but continue setting states
   if (isStatusWarning(StatusNow)) { // #TODO maybe we should not need to set current equally immediately?
-- 
2.43.0


From f6f3033ec5c634f79856c59e592726452831527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:27 +0000
Subject: [PATCH 13/39] fix: setVoltage restores the current when the voltage
 cannot be reached, and never sets an undefined current

---
 src/modules/Module_p.cpp       | 4 ++++
 src/utility/free_functions.hpp | 9 ++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 5ef6efc..5eafa4f 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -185,6 +185,10 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
     }
   }
 
+  if (isStatusBad(StatusNow)) //!< the voltage could not be reached, revert
+    for (size_t i = 0; i < nSU; i++)
+      SUs[i]->setCurrent(Iolds[i], false, false);
+
   if constexpr (settings::printNumIterations)
     std::cout << "setVoltage iterations: " << iter << '\n';
 
diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index a37613c..9448d6f 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -27,7 +27,8 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
   // New redistributeCurrent without PI control:
   //!< get cell voltages
   constexpr int maxIteration = 50;
-  double Ia{ su->I() };
+  const double Iold{ su->I() }; //!< to restore if the voltage cannot be reached
+  double Ia{ Iold };
 
   for (int iter{ 0 }; iter < maxIteration; iter++) {
     const auto Va = su->V();
@@ -35,14 +36,16 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
       return Status::Success;
 
     const auto Ib = (Vset > Va) ? Ia - 0.01 * su->Cap() : Ia + 0.01 * su->Cap();
-    su->setCurrent(Ib);
+    if (isStatusBad(su->setCurrent(Ib))) break;
     const auto Vb = su->V();
+    if (Va == Vb) break; //!< no slope
 
     const double slope = (Ia - Ib) / (Va - Vb);
     Ia = Ib - (Vb - Vset) * slope; //!< False-Position method.
-    su->setCurrent(Ia);
+    if (isStatusBad(su->setCurrent(Ia))) break;
   }
 
+  su->setCurrent(Iold, false, false);
   return Status::RedistributeCurrent_failed; // #TODO change to setVoltage failed.
 }
 
-- 
2.43.0


From 08515c5ff6ca0ba2bfe00da22565a3f7bb98803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 14/39] fix: a charging current is not taken for a reached
 voltage limit when the voltage is below the limit

---
 src/procedures/Cycler.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 7aab5d5..f12ccc2 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -204,9 +204,8 @@ Status Cycler::setCurrent(double I, double vlim)
   //!< check if the voltage limit was exceeded while setting the current
   if (I < 0 && Vini <= vlim && Vnew > vlim) //!< charging -> exceeded if Vini < vlim  & Vnew > vlim
     return Status::ReachedVoltageLimit;
-  else {
-    if (Vini >= vlim && Vnew < vlim) return Status::ReachedVoltageLimit; //!< #TODO why Vini check?
-  }
+  else if (I > 0 && Vini >= vlim && Vnew < vlim) //!< discharging -> exceeded if Vini > vlim & Vnew < vlim
+    return Status::ReachedVoltageLimit;          //!< #TODO why Vini check?
 
   return Status::Success; //!< if none of the above, we could set the current without exceeding any voltage limit
 }
-- 
2.43.0


From 54f4863933c371f626e5387d32f6abd4b9da19ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 15/39] fix: the cycler stops when the storage unit refuses the
 current instead of counting charge that does not flow

---
 src/procedures/Cycler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index f12ccc2..6d31fd7 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -192,7 +192,7 @@ Status Cycler::setCurrent(double I, double vlim)
   //!< Try setting the current
   const auto status = su->setCurrent(I, checkCellV, settings::printBool::printNonCrit); //!< throws error if checkCellv == true and voltage out of range of a cell
 
-  if (isStatusVoltageLimitsViolated(status)) {
+  if (isStatusVoltageLimitsViolated(status) || isStatusBad(status)) {
     if constexpr (settings::printBool::printNonCrit)
       std::cout << "Error caught in Cycler::setCurrent of SU " << su->getFullID() << " when trying to set a current of "
                 << I << " A. This current cannot be set without violating the voltage limits of one of the cells" << '\n';
-- 
2.43.0


From 2cee49479d710ebf4270de532be92e69b77fe4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 16/39] fix: a constant current phase that ends with an invalid
 voltage counts the time and charge of its last step

---
 src/procedures/Cycler.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 6d31fd7..b42949b 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -283,6 +283,13 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       return Status::timeStep_CC_failed;
     }
 
+    //!< Increase the throughput, also if the voltage turns out to be invalid: the step has been taken
+    const auto dt_now = dti * nOnce;
+    th.time() += dt_now;
+    ttot += dt_now;
+    th.Ah() += std::abs(I) * dt_now / 3600.0;
+    idat += nOnce;
+
     //!< get the voltage
     if (diagnostic) {
       const auto status = su->checkVoltage(vi, true);
@@ -290,6 +297,7 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
         if constexpr (settings::printBool::printNonCrit)
           std::cout << "in Cycler::CC, the voltage of a cell became invalid in time step when the total voltage was "
                     << vi << '\n';
+        th.Wh() += std::abs(I) * dt_now / 3600 * vi;
         return status; //!< previously -4
       }
     } else {
@@ -303,13 +311,6 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       }
     }
 
-    auto myVnow = su->V();
-    //!< Increase the throughput
-    const auto dt_now = dti * nOnce;
-    th.time() += dt_now;
-    ttot += dt_now;
-    th.Ah() += std::abs(I) * dt_now / 3600.0;
-    idat += nOnce;
     th.Wh() += std::abs(I) * dt_now / 3600 * vi;
 
     //!< Store a data point if needed
-- 
2.43.0


From a25d46b1dd6613a6bbed351885159be0625dcc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 17/39] fix: a constant voltage phase that runs until its time
 limit does not fail on accumulated rounding errors

---
 src/procedures/Cycler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index b42949b..2b72ff5 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -431,7 +431,7 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
 
   //!< *******************************************************  apply voltage  ****************************************************************************
 
-  const auto nt = static_cast<size_t>(std::ceil(tlim / dt)); //!< number of time steps
+  const auto nt = static_cast<size_t>(std::ceil(std::max(tlim, 0.0) / dt)); //!< number of time steps
 
   double dti = dt;         //!< length of time step i
   double ttot = 0;         //!< total time done
@@ -460,7 +460,7 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
     //!< increase the throughput
     const auto dAh = std::abs(su->I() * dti / 3600.0);
     vi = su->V();
-    ttot += dti;
+    ttot = (i + 1 == nt) ? tlim : ttot + dti; //!< the last step ends exactly at the time limit, without accumulated rounding errors
     th.Ah() += dAh;
     th.Wh() += dAh * vi;
 
-- 
2.43.0


From f7691047bc8a0a41dc56f5e717b10ac7c5b55d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 18/39] fix: the throughput of constant voltage phases includes
 their time, and CCCV adds to the throughput like CC, CV and rest do

---
 src/procedures/Cycler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 2b72ff5..70242b6 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -461,6 +461,7 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
     const auto dAh = std::abs(su->I() * dti / 3600.0);
     vi = su->V();
     ttot = (i + 1 == nt) ? tlim : ttot + dti; //!< the last step ends exactly at the time limit, without accumulated rounding errors
+    th.time() += dti;
     th.Ah() += dAh;
     th.Wh() += dAh * vi;
 
@@ -578,9 +579,9 @@ Status Cycler::CCCV_with_tlim(double I, double Vset, double Ilim, double tlim, d
       std::cout << "Cycler::CCCV could not complete the CV phase, terminated with "
                 << getStatusMessage(succ) << '\n';
 
-  th.time() = th1.time() + th2.time();
-  th.Ah() = th1.Ah() + th2.Ah();
-  th.Wh() = th1.Wh() + th2.Wh();
+  th.time() += th1.time() + th2.time();
+  th.Ah() += th1.Ah() + th2.Ah();
+  th.Wh() += th1.Wh() + th2.Wh();
 
   return succ;
 }
-- 
2.43.0


From f6cb92380deacc8b873a05b9d715895d1743ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 19/39] fix: testCapacity restores the original states when it
 succeeds too, as documented

---
 src/procedures/Cycler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 70242b6..e126a14 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -640,6 +640,9 @@ double Cycler::testCapacity(double &Ah, double &ttot)
     return 0;
   }
 
+  //!< restore the original states
+  su->setStates(sini_span, false, true);
+
   Ah = th1.Ah() + th2.Ah();
   return th2.Ah();
 }
-- 
2.43.0


From 8d1b303ad299f5ad21c4e7c6dcc749c9f7b82223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 20/39] fix: the last row of written data is terminated, so
 that data appended later starts on a row of its own

---
 src/utility/free_functions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 9448d6f..9723ec5 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -61,6 +61,8 @@ inline void write_data(std::ofstream &file, std::vector<double> &data, size_t N
     file << data[i];
   }
 
+  if (!data.empty()) file << '\n'; //!< end the last row, more data may be appended later
+
   data.clear(); //!< reset the index to 0 since we can overwrite the stored data
 }
 
-- 
2.43.0


From ef2b3cd2491167afeb6230b9c3331b5908865c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 21/39] fix: Dai's tangential stress at a node uses the
 concentration at that node

---
 src/cells/Cell_SPM/Cell_SPM_degradation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
index 6ebd624..f1f1d18 100644
--- a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
@@ -598,8 +598,8 @@ void Cell_SPM::getDaiStress(double *sigma_p, double *sigma_n, sigma_type &sigma_
       sigma_r_p[i_rev] = 2 * sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (ap - bp_x); //!< ap = int (c x^2, x=0..R), bp = int (c x^2 , x=0..r)
       sigma_r_n[i_rev] = 2 * sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (an - bn_x);
 
-      sigma_t_p[i_rev] = sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (2 * ap + bp_x - cp[i]);
-      sigma_t_n[i_rev] = sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (2 * an + bn_x - cn[i]);
+      sigma_t_p[i_rev] = sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (2 * ap + bp_x - cp[i_rev]); //!< the concentrations are ordered [+surface .. centre]
+      sigma_t_n[i_rev] = sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (2 * an + bn_x - cn[i_rev]);
     }
 
     //!< Make the hydrostatic stress sh = (sr + 2sp)/3
-- 
2.43.0


From d57b5161a25249d0335f7a07805331ee18654188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 22/39] fix: a time step without duration does not turn the
 degradation states of an SPM cell into NaN

---
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index dd3be09..816fe1a 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -302,7 +302,7 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
   }
 
   //!< **************************************************** Calculate the thermal model once for the nstep * dt time period *****************************************************************
-  if (!blockDegAndTherm) {
+  if (!blockDegAndTherm && sparam.s_dt > 0) { //!< nothing happens in a step without duration, and rates per unit of time are not defined
 
     //!< Calculate the internal heat generation of the cell
     double dQgen;
-- 
2.43.0


From fe1f6768337cebdc283fcc32e34188eb6953cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 23/39] fix: the heat balance of a battery counts the heat of
 every copy of its module

---
 src/system/Battery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 93fd58e..47ba491 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -150,7 +150,7 @@ double Battery::thermalModel(int Nneighb, double Tneighb[], double Kneighb[], do
     double Tcells = cells->thermalModel(1, Tsu, Ksu, Asu, tim);
 
     //!< The battery heats up from cooling all cells
-    double Echildren = Ksu[0] * Asu[0] * (cells->T() - T()) * tim; //!< cooling energy extracted from the children
+    double Echildren = Ksu[0] * Asu[0] * (cells->T() - T()) * tim * nseries * nparallel; //!< cooling energy extracted from the children, each copy of the module delivers the same
     //!< double Qcells = Echildren;
 
     //!< and from the losses in the converter
-- 
2.43.0


From 0f05d37120f5761b6bf49bf9be0be04b37c21efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 24/39] fix: the entropic coefficient of the anode is taken at
 the lithium fraction of the anode

---
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 816fe1a..c4da43a 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -186,7 +186,7 @@ void Cell_SPM::dState_degradation(bool print, State_SPM &d_state)
 
   const bool bound = true;
   //!< calculate the anode potential (needed for various degradation models)
-  const double dOCVn = OCV_curves.dOCV_neg.interp(zp_surf, print, bound); //!< entropic coefficient of the anode potential [V K-1]
+  const double dOCVn = OCV_curves.dOCV_neg.interp(zn_surf, print, bound); //!< entropic coefficient of the anode potential [V K-1]
   const double OCV_n = OCV_curves.OCV_neg.interp(zn_surf, print, bound);  //!< anode potential [V]
   const double OCVnt = OCV_n + (st.T() - T_ref) * dOCVn;                  //!< anode potential at the cell's temperature [V]
 
-- 
2.43.0


From bef5a8c58b7f4e4197b4d6d0fbf3f7cd7437287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 25/39] fix: interpolation of evenly spaced data stays within
 the data instead of reading past its end

---
 src/utility/interpolation.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utility/interpolation.hpp b/src/utility/interpolation.hpp
index 955c146..db60ffb 100644
--- a/src/utility/interpolation.hpp
+++ b/src/utility/interpolation.hpp
@@ -68,7 +68,13 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
 
     if (is_fixed) {
       double dt = xdat[1] - xdat[0];
-      i_low = static_cast<int>((x - xdat[0]) / dt) + 1;
+      i_low = std::clamp(static_cast<int>((x - xdat[0]) / dt) + 1, 1, nin - 1);
+
+      //!< steps are only approximately equal: move to the points around x
+      while (i_low < nin - 1 && xdat[i_low] < x)
+        i_low++;
+      while (i_low > 1 && xdat[i_low - 1] > x)
+        i_low--;
     } else {
       //!< binary search algorithm:
       //!< i_low will be the first index which compares greater than x;
-- 
2.43.0


From b101eea5fbbcf63f1734a8c0ab1633c1ed9bae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 26/39] fix: curves with fewer than two points are not taken as
 evenly spaced

---
 src/types/XYdata.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/XYdata.hpp b/src/types/XYdata.hpp
index 0f535ef..afb733d 100644
--- a/src/types/XYdata.hpp
+++ b/src/types/XYdata.hpp
@@ -25,6 +25,8 @@ namespace slide {
 template <typename Tx>
 bool check_is_fixed(Tx &xdat) //!< Checks if steps are fixed length. #TODO should not be here.
 {
+  if (xdat.size() < 2) return false; //!< no steps
+
   const double dt = xdat[1] - xdat[0];
   const double tol = 0.01 * dt; //!< Tolerance.
 
-- 
2.43.0


From ed05d838a03ab0b79295f8c995f345c4deb19435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 27/39] fix: a histogram counts every value in the bin it
 belongs to

---
 src/types/Histogram.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/types/Histogram.hpp b/src/types/Histogram.hpp
index 3db1312..bf91b35 100644
--- a/src/types/Histogram.hpp
+++ b/src/types/Histogram.hpp
@@ -31,7 +31,7 @@ class Histogram
 {
   std::vector<size_t> bins;
   Tdata x_min{}, x_max{}, dx{ 1 };
-  int Nbins;
+  int Nbins{};
 
 public:
   Histogram() = default;
@@ -49,11 +49,11 @@ public:
      * bins[0] is number of elements less than x_min
      * bins[end] is number of elements more than x_max
      * */
-    auto i = static_cast<int>(1 + (x - x_min) / dx);
+    if (bins.empty()) return;
 
-    const auto ssize = static_cast<int>(bins.size());
-    i = std::max(0, std::min(i, ssize - 1)); // #TODO what happens if container is empty?
-    bins[i]++;
+    const auto last = static_cast<Tdata>(bins.size() - 1);
+    const auto i = std::clamp(1 + (x - x_min) / dx, Tdata{ 0 }, last); //!< clamp before the cast, large values do not fit in an integer
+    bins[static_cast<size_t>(i)]++;
   }
 
   std::span<const size_t> viewBinValues() const noexcept { return bins; }
@@ -61,7 +61,7 @@ public:
   [[nodiscard]] constexpr auto begin() noexcept { return bins.begin(); }
   [[nodiscard]] constexpr auto end() noexcept { return bins.end(); }
 
-  auto getEdgeValues() const noexcept { return range_fix(x_min, x_max, dx); }
+  auto getEdgeValues() const noexcept { return linstep_fix(x_min, dx, Nbins + 1); }
 
   auto size() const noexcept { return bins.size(); }
 
-- 
2.43.0


From 4fcfdb3448faabfba2734b4c37ea78b0ffa0fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 28/39] fix: a small vector does not accept more elements than
 it has room for

---
 src/types/SmallVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/SmallVector.hpp b/src/types/SmallVector.hpp
index 1930d47..4f5b33e 100644
--- a/src/types/SmallVector.hpp
+++ b/src/types/SmallVector.hpp
@@ -28,7 +28,7 @@ public:
 
   inline void push_back(const T &&elem)
   {
-    if (N > Nmax) {
+    if (N >= Nmax) {
       std::cerr << "Array is very small! Please increase its size from settings!\n";
       throw 1234;
     }
-- 
2.43.0


From e90930b627cf1acbd5f73ffb52f2c98d300546ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 29/39] fix: reading a csv file stays within the data it fills
 and within the file

---
 src/utility/io/read_CSVfiles.hpp | 39 +++++++++++++++++---------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index b62717e..414fc6e 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -13,6 +13,7 @@
 #include "../../types/matrix.hpp"
 #include "../util_debug.hpp"
 
+#include <algorithm>
 #include <string>
 #include <iostream>
 #include <fstream>
@@ -53,6 +54,17 @@ inline auto getFile(std::string name)
   static std::map<std::string, std::string> fileMap;
 }
 
+inline void ignoreBOM(std::ifstream &in)
+{
+  char c = '.';
+
+  do {
+    in >> c;
+  } while (in && c < 45); //!< Ignore byte order mark (BOM) at the beginning
+
+  in.putback(c);
+}
+
 template <typename Tpath, typename T, size_t ROW, size_t COL>
 void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 {
@@ -76,8 +88,7 @@ void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 
   char c = '.';
 
-  while (in.peek() <= 32) //!< Ignore byte order mark (BOM) at the beginning
-    in >> c;
+  ignoreBOM(in);
 
   for (size_t i = 0; i < ROW; i++) {
     //!< read all but the last column
@@ -99,17 +110,6 @@ void loadCSV_1col(const Tpath &name, std::array<T, ROW> &x)
   std::memcpy(&x, &temp, sizeof temp);
 }
 
-inline void ignoreBOM(std::ifstream &in)
-{
-  char c = '.';
-
-  do {
-    in >> c;
-  } while (c < 45); //!< Ignore byte order mark (BOM) at the beginning
-
-  in.putback(c);
-}
-
 template <typename Tpath, typename Tx, typename Ty>
 void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
 {
@@ -152,8 +152,9 @@ void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
       y.push_back(y_i);
       j++;
     }
-  } else {                                                 //!< It must be a std::array, then just read without clear.
-    while ((n == 0 || j < n) && (in >> x[j] >> c >> y[j])) //!< Read file.
+  } else { //!< It must be a std::array, then just read without clear.
+    const int n_max = static_cast<int>(std::min(std::size(x), std::size(y)));
+    while ((n == 0 || j < n) && j < n_max && (in >> x[j] >> c >> y[j])) //!< Read file.
       j++;
   }
 }
@@ -194,7 +195,7 @@ void loadCSV_Ncol(const Tpath &name, DynamicMatrix<Tx> &x, int n = 0)
   int n_rows{ 0 };
   while ((n == 0 || n_rows < n) && std::getline(in, line)) //!< Read file.
   {
-    n_rows++;
+    const auto n_before = x.data.size();
     std::istringstream in_line(line);
     double x_i;
     char c;
@@ -202,9 +203,11 @@ void loadCSV_Ncol(const Tpath &name, DynamicMatrix<Tx> &x, int n = 0)
       x.data.push_back(x_i);
       in_line >> c;
     }
+
+    if (x.data.size() > n_before) n_rows++; //!< empty lines are not rows
   }
 
-  int n_cols = x.data.size() / n_rows;
+  int n_cols = (n_rows == 0) ? 0 : x.data.size() / n_rows;
 
   x.reshape(n_cols, n_rows);
 
@@ -248,7 +251,7 @@ void loadCSV_2col(const Tpath &name, std::span<double> &x, std::span<double> &y,
     XYdataMap[name_str] = std::move(xyp);
   }
 
-  if (n == 0) {
+  if (n == 0 || n > static_cast<int>(XYdataMap[name_str].x_vec.size())) {
     x = std::span<double>(XYdataMap[name_str].x_vec);
     y = std::span<double>(XYdataMap[name_str].y_vec);
   } else {
-- 
2.43.0


From a93f8e1953102a124b1101417ca6e7c56865a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 30/39] fix: the rank-one Cholesky update uses the off-diagonal
 elements of the factor

---
 src/types/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/matrix.hpp b/src/types/matrix.hpp
index 69e8121..d623131 100644
--- a/src/types/matrix.hpp
+++ b/src/types/matrix.hpp
@@ -68,9 +68,9 @@ void cholUpdate(slide::Matrix<double, N, N> &L, std::array<double, N> x, bool is
 
     for (int j = k + 1; (k != (N - 1) && (j < N)); j++) {
       if (isDowndate)
-        L[j][k] -= s * x[j] / c;
+        L[j][k] = (L[j][k] - s * x[j]) / c;
       else
-        L[j][k] += s * x[j] / c;
+        L[j][k] = (L[j][k] + s * x[j]) / c;
       x[j] = c * x[j] - s * L[j][k];
     }
   }
-- 
2.43.0


From 13c25d681dc941d266780358145a5a96e529e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 31/39] fix: the cooling load of a battery counts every copy of
 its module

---
 src/system/Battery.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 47ba491..85f443f 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -204,8 +204,8 @@ double Battery::getCoolingLoad()
   double Etot = getCoolSystem()->getEoperation(); //!< energy to run coolsystem of this module
   getCoolSystem()->reset_Eoperation();            //!< reset to 0
 
-  //!< coolsystem of child cells
-  Etot += cells->getCoolingLoad();
+  //!< coolsystem of child cells, each copy of the module has one
+  Etot += cells->getCoolingLoad() * nseries * nparallel;
 
   return Etot;
 }
-- 
2.43.0


From 970d4d8a28d9ef0edb1742c21edd4079481d897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 32/39] fix: parallel runs use at least one thread

---
 src/utility/parallelisation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/parallelisation.hpp b/src/utility/parallelisation.hpp
index 42ef21e..14faf01 100644
--- a/src/utility/parallelisation.hpp
+++ b/src/utility/parallelisation.hpp
@@ -12,6 +12,7 @@
 
 #include "../settings/settings.hpp"
 
+#include <algorithm>
 #include <thread>
 #include <vector>
 
@@ -32,10 +33,11 @@ void run(Tfun task_indv, int i_end, unsigned int numMaxParallelWorkers = setting
     if (numMaxParallelWorkers == 1)
       task_par(0, i_end, 1);
     else {
+      const unsigned int N_hardware = std::max(1u, std::thread::hardware_concurrency()); //!< 0 if it cannot be determined
       if (numMaxParallelWorkers < 1)
-        numMaxParallelWorkers = std::thread::hardware_concurrency();
+        numMaxParallelWorkers = N_hardware;
 
-      const unsigned int N_th_max = std::min(numMaxParallelWorkers, std::thread::hardware_concurrency());
+      const unsigned int N_th_max = std::min(numMaxParallelWorkers, N_hardware);
 
       std::vector<std::thread> threads;
       threads.reserve(N_th_max);
-- 
2.43.0


From 3faf68664161a95d467473ab000a511cb9333455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 33/39] fix: a check-up leaves out the concentrations of an SPM
 cell, not its current and voltage

---
 src/procedures/Procedure.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 6eaf862..03eb46c 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -459,7 +459,6 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
   //  open and clear whatever was there since we want to write the most recent stats only
 
   //!< do the main checkup, which writes the throughput, capacity and state of every cell
-  const size_t start = (typeid(*cells[0]) == typeid(Cell_SPM)) ? 2 * settings::nch : 0; // #TODO : Consider having different type of cells.
   //!< Write the throughput of each cell
 
   //!< If this is the first checkup, start by writing the cell IDs and cell-to-cell parameters
@@ -486,8 +485,10 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
     file << th.time() << ',' << th.Ah() << ',' << th.Wh() << ',' << cap;
 
     const auto st_view = cell->viewStates();         //!< write the state of a cell, if an SPM cell, skip the concentration states since they don't give info
-    for (size_t i{ start }; i < st_view.size(); i++) //!< loop for each state variable (rows)
-      file << ',' << st_view[i];
+    const bool isSPM = typeid(*cell) == typeid(Cell_SPM);
+    for (size_t i{ 0 }; i < st_view.size(); i++) //!< loop for each state variable
+      if (!isSPM || i < State_SPM::i_zp || i >= State_SPM::i_rDCp)
+        file << ',' << st_view[i];
 
     file << '\n'
          << '\n';
-- 
2.43.0


From 1de6a651c3826a53b2dd8ed57bdc5e8a76ea28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 34/39] fix: the headers of the check-up and throughput files
 match their columns

---
 src/procedures/Procedure.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 03eb46c..4c433be 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -465,7 +465,7 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
   //!< else write the cumulative charge throughput
   file.open(name, std::ios_base::app); //!< open from scratch, clear whatever was in the file before
 
-  file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber";
+  file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber,";
   file << "time [s],Current throughput [Ah],Energy throughput [Wh],Capacity [Ah],States\n";
 
   for (auto &cell : cells) {
@@ -617,7 +617,7 @@ void Procedure::writeThroughput(const std::string &SUID, double Ahtot)
   std::ofstream file;
   if (Ahtot == 0) {
     file.open(PathVar::results / name); //!< open from scratch, clear whatever was in the file before
-    file << "ID number" << ',' << "cells charge throughput" << ','
+    file << "cells charge throughput" << ','
          << "Cells energy throughput" << ','
          << "total energy to operate the thermal management system" << ','
          << "losses in the converter" << '\n';
-- 
2.43.0


From 5820a0acf7860f9f41ee66744fa7448e5380e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 35/39] fix: balancing reaches every cell, also those in a
 battery and those which are not SPM cells

---
 src/procedures/Procedure.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 4c433be..5358022 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -394,7 +394,9 @@ Status Procedure::rebalance(StorageUnit *su)
       }
     }
 
-  } else if (typeid(*su) == typeid(Cell_SPM)) { // #TODO why only SPM?
+  } else if (auto b = dynamic_cast<Battery *>(su)) {
+    return rebalance(b->getCells());
+  } else {
     const double Iset = su->Cap() * Cset;
     const double Ilim = su->Cap() * Clim;
     ThroughputData th{};
-- 
2.43.0


From e3f6369a524fcd8fdfaab99185208318f44ce65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 36/39] fix: the final check-up reports the number of cycles
 that were finished

---
 src/procedures/Procedure.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 5358022..cf6d33b 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -58,7 +58,8 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
   Clock clk{};
 
   //!< loop for cycle ageing
-  for (int i = 0; i < Ncycle; i++) {
+  int i = 0; //!< number of finished cycles
+  for (; i < Ncycle; i++) {
     if (!unitTest)
       std::cout << "SU " << su->getFullID() << " starting loop iteration " << i << " after "
                 << clk << " with V = " << su->V() << ", T = " << K_to_Celsius(su->T())
@@ -123,7 +124,7 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
   //!< because usage statistics of cells and modules (or their cooling systems) are not copied over in copy()
   if (!unitTest) std::cout << "Doing a final checkup after " << th.Ah() << " Ah.\n";
   writeThroughput(su->getFullID(), th.Ah());
-  checkUp(su, th.Ah(), Ncycle); //!< check-up of the cells
+  checkUp(su, th.Ah(), i);      //!< check-up of the cells
   checkMod(su);                 //!< check-up of the modules
 
   //!< push a write such that if cells still have cycling data, this is written
@@ -188,7 +189,8 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
   Clock clk;
 
   //!< loop for use case ageing
-  for (unsigned i = 0; i < Ncycle; i++) {
+  unsigned i = 0; //!< number of finished cycles
+  for (; i < Ncycle; i++) {
     if (!unitTest)
       std::cout << "SU " << su->getFullID() << " starting loop iteration " << i << " after "
                 << clk << " with V = " << su->V() << ", T = " << K_to_Celsius(su->T())
@@ -261,7 +263,7 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
   //!< This checkup will write the usage statistics, so it must be called with the actual SU and not with a copy
   //!< because usage statistics of cells and modules (or their cooling systems) are not copied over in copy()
   writeThroughput(su->getFullID(), th.Ah());
-  checkUp(su, th.Ah(), Ncycle); //!< check-up of the cells #TODO if we can use the previous definition of this task_indv
+  checkUp(su, th.Ah(), i);      //!< check-up of the cells #TODO if we can use the previous definition of this task_indv
   checkMod(su);                 //!< check-up of the modules
 
   //!< push a write such that if cells still have cycling data, this is written
-- 
2.43.0


From d388e2ac61eafddd0b3711e487faa996dbfbfee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 37/39] fix: use case ageing starts a new throughput file

---
 src/procedures/Procedure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index cf6d33b..48d5c71 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -185,6 +185,8 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
     std::cout << "Error in useAge when initially discharging the battery, continue as normal.\n"
               << getStatusMessage(succ) << '\n';
 
+  writeThroughput(su->getFullID(), 0); //!< start with a new file
+
   //!< Make a clock to measure how long the simulation takes
   Clock clk;
 
-- 
2.43.0


From fa30cb82beca4dd62a7fabefc8cf1b1e4b791b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 38/39] fix: the throughput of an action is that of the action,
 and also stored if the action fails

---
 src/procedures/Procedure.cpp | 19 ++++++++++---------
 src/procedures/Procedure.hpp |  1 +
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 48d5c71..0afd848 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -53,6 +53,7 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
   const double Ilim{ 0.1 }, Icha{ -Ccha * su->Cap() }, Idis{ Cdis * su->Cap() };
   Status succ{};
   ThroughputData th{};
+  th_stored = {};
 
   //!< Make a clock to measure how long the simulation takes
   Clock clk{};
@@ -70,6 +71,7 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
 
     const auto th_before = th.Ah();
     succ = cyc.CC(Icha, Vmax, TIME_INF, dt, ndata, th); //!< CC charge
+    storeThroughput(th, su);                            //!< increase the throughput parameters
 
     if (!isVoltageLimitReached(succ)) {
       std::cout << "Error in CycleAge when charging in cycle "
@@ -77,8 +79,6 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
       break;
     }
 
-    storeThroughput(th, su); //!< increase the throughput parameters
-
     if ((th.Ah() - th_before) < 1e-5) {
       std::cerr << "Error in Procedure::cycleAge, we didn't manage to charge "
                 << "any energy. Stopping the cycling after " << i << " cycles.\n";
@@ -88,14 +88,14 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
     //!< CV charge
     if (testCV) {
       succ = cyc.CV(Vmax, Ilim, TIME_INF, dt, ndata, th);
+      storeThroughput(th, su); // #TODO why do we do this?
+
       if (!isCurrentLimitReached(succ)) {
         std::cout << "Error in CycleAge when CV charging in cycle "
                   << i << ", stopping cycling.\n"
                   << getStatusMessage(succ);
         break;
       }
-
-      storeThroughput(th, su); // #TODO why do we do this?
     }
 
 
@@ -110,11 +110,12 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
     if (testCV) {
       //!< reset in case error in CC and Ah gets not changed (without reset it would keep its old value)
       succ = cyc.CV(Vmin, Ilim, TIME_INF, dt, ndata, th);
+      storeThroughput(th, su);
+
       if (!isCurrentLimitReached(succ)) { //!< #TODO -> if diagnostic on the individual cell limits are respected. Otherwise system level.
         std::cout << "Error in CycleAge when CV discharging in cycle " << i << ", stop cycling.\n";
         break;
       }
-      storeThroughput(th, su);
     }
 
   } //!< loop cycle ageing
@@ -185,6 +186,7 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
     std::cout << "Error in useAge when initially discharging the battery, continue as normal.\n"
               << getStatusMessage(succ) << '\n';
 
+  th_stored = th;                      //!< the first action starts after the initial discharge
   writeThroughput(su->getFullID(), 0); //!< start with a new file
 
   //!< Make a clock to measure how long the simulation takes
@@ -281,9 +283,7 @@ void Procedure::storeThroughput(ThroughputData th, StorageUnit *su)
    * The function writethroughput will write these vectors to a file
    *
    * IN
-   * ID 	integer with an indentification of what this step was
-   * Ah	charge throughput of of the cells in this step
-   * Wh 	energy throughput of the cells in this step
+   * th 	total throughput of the cells since the start of the procedure
    * su 	StorageUnit after this step
    */
 
@@ -298,7 +298,8 @@ void Procedure::storeThroughput(ThroughputData th, StorageUnit *su)
     convloss = b->getAndResetConvLosses() / 3600.0;
   }
 
-  throughput.push_back({ th.Ah(), th.Wh(), coolSystemLoad, convloss });
+  throughput.push_back({ th.Ah() - th_stored.Ah(), th.Wh() - th_stored.Wh(), coolSystemLoad, convloss });
+  th_stored = th; //!< the next action starts from here
 }
 
 void Procedure::balanceCheckup(StorageUnit *su, bool balance, bool checkup, double Ahtot, int nrCycle, std::string pref)
diff --git a/src/procedures/Procedure.hpp b/src/procedures/Procedure.hpp
index 6b0231b..6196c65 100644
--- a/src/procedures/Procedure.hpp
+++ b/src/procedures/Procedure.hpp
@@ -28,6 +28,7 @@ protected:
   double balance_voltage{ 3.65 };
 
   std::vector<ProcedureThroughputData> throughput;
+  ThroughputData th_stored{}; //!< total throughput when the last action was stored
   void storeThroughput(ThroughputData th, StorageUnit *su);
 
 public:
-- 
2.43.0


From be92211ccb7ac8cfb12fc96eecdaa0ede1139acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 39/39] fix: the voltage of a module is calculated again after
 balancing its cells

---
 src/modules/Module.hpp       | 1 +
 src/procedures/Procedure.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index fe5268d..c7a57a4 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -92,6 +92,7 @@ public:
   const auto &operator[](size_t i) const { return SUs[i]; }
   auto &operator[](size_t i) { return SUs[i]; }
 
+  void resetV() noexcept { Vmodule_valid = false; } //!< calculate the voltage again, e.g. because an SU was changed directly
   virtual Status checkVoltage(double &v, bool print) noexcept override; //!< get the voltage and check if it is valid
   double getVhigh() override;                                           //!< return the voltage of the cell with the highest voltage
   double getVlow() override;                                            //!< return the voltage of the cell with the lowest voltage
diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 0afd848..5ff4c76 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -388,6 +388,7 @@ Status Procedure::rebalance(StorageUnit *su)
 
   //!< if it is a module, recursively call this function on all children to rebalance the cells
   if (auto m = dynamic_cast<Module *>(su)) {
+    m->resetV(); //!< the cells are changed directly
     for (auto &cs_k : m->getSUs()) {
       const auto status = rebalance(cs_k.get());
       if (!isStatusSuccessful(status)) {
-- 
2.43.0

