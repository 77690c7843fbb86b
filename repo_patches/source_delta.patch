From 4ca787a4354ae3bafc38c4ca83f2ca0fad7862ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:31 +0000
Subject: [PATCH 01/22] fix: releasing an event twice-freed the shared work
 arrays when two events were alive

Deleting one event left ncl/spc dangling, so deleting (or generating) the
other event freed them again.
---
 libcgmf/src/terminate.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libcgmf/src/terminate.cpp b/libcgmf/src/terminate.cpp
index 1290704..bc0015f 100644
--- a/libcgmf/src/terminate.cpp
+++ b/libcgmf/src/terminate.cpp
@@ -60,7 +60,11 @@ int cgmTerminateCode(std::string msg, double x)
 void cgmDeleteAllocated()
 {
 	delete [] ncl;
-	for(int i=0 ; i<SPECTRA_OUTPUT ; i++) delete [] spc[i];
+	ncl = NULL;
+	for(int i=0 ; i<SPECTRA_OUTPUT ; i++){
+		delete [] spc[i];
+		spc[i] = NULL;
+	}
 }
 
 
@@ -69,6 +73,9 @@ void cgmDeleteAllocated()
 /**********************************************************/
 void cgmAllocateMemory()
 {
+	/*** release the arrays left by an event that is still alive */
+	cgmDeleteAllocated();
+
 	try{
 		/*** compound nucleus */
 		ncl = new Nucleus [MAX_COMPOUND];
-- 
2.43.0


From efb2de1097178f94470aa8af4f6ec275bb9c1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:09 +0000
Subject: [PATCH 02/22] fix: apply the time coincidence window of every event,
 not only the first of the process

Events generated after the first one silently used the window of the first.
---
 libcgmf/src/cgmfEvents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 8dfff50..c527a42 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -388,8 +388,8 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   if(firstcalc) {
     initialization();
     firstcalc = false;
-    if(timew>0.0)set_time_coincidence_window(timew);
   }
+  set_time_coincidence_window(timew>0.0 ? timew : -1.0);
  	cgmAllocateMemory();
 //	allocateMemory();
 
-- 
2.43.0


From b1d2c28c5f0114a3bb54125af3fff229da098ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:09 +0000
Subject: [PATCH 03/22] fix: cgmf_clean() left a dangling event that the next
 cgmf_genfissevent() deleted again

---
 libcgmf/src/cgmfEvents_capi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/cgmfEvents_capi.cpp b/libcgmf/src/cgmfEvents_capi.cpp
index e9de84f..09ded3c 100644
--- a/libcgmf/src/cgmfEvents_capi.cpp
+++ b/libcgmf/src/cgmfEvents_capi.cpp
@@ -164,6 +164,7 @@ double cgmf_getgtme(int i) {
 */
 void cgmf_clean() {
   if (cgmf_fevent != 0) delete cgmf_fevent;
+  cgmf_fevent = 0;
 //  riplDiscreteLevelsCleanup();
 }
 
-- 
2.43.0


From cb01a8c718dfc98f296c377affd5e2176dbaff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:30 +0000
Subject: [PATCH 04/22] fix: exit with a failure status when the reaction or a
 model file is not usable

These error paths printed an error and then exited with status 0.
---
 libcgmf/src/FissionFragments.cpp | 16 ++++++++--------
 libcgmf/src/Yields.cpp           |  6 +++---
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index c4a249f..5226bce 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -243,7 +243,7 @@ void FissionFragments::setOptions(void) {
 	    energySortingOption = "RTA";
 	    anisotropy_flag = true;
 	    if (incidentEnergy==0.0) {
-		cerr<<"ERROR: Only neutron-induced fission allowed for U238!"<<endl; exit(0);
+		cerr<<"ERROR: Only neutron-induced fission allowed for U238!"<<endl; exit(-1);
 	    }
 	    break;
 
@@ -259,7 +259,7 @@ void FissionFragments::setOptions(void) {
 	/* PLUTONIUMS */
 	case 94238: // Pu238
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu238!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu238!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -280,7 +280,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94240: // Pu240
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu240!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu240!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -300,7 +300,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94242: // Pu242
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu242!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu242!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -312,7 +312,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94244: // Pu244
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu244!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu244!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -326,7 +326,7 @@ void FissionFragments::setOptions(void) {
 	/* CALIFORNIUMS */
 	case 98252: // Cf252
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Cf252!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Cf252!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -338,7 +338,7 @@ void FissionFragments::setOptions(void) {
 
 	case 98254: // Cf254
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Cf254!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Cf254!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -351,7 +351,7 @@ void FissionFragments::setOptions(void) {
 	/* NOT SUPPORTED */
 	default:
 	    cerr << "ERROR: Cannot use CGMF (yet) for this isotope and/or incident energy" << endl;
-	    exit(0);
+	    exit(-1);
     }
     return;
 }
diff --git a/libcgmf/src/Yields.cpp b/libcgmf/src/Yields.cpp
index fc3d91c..d5eed05 100644
--- a/libcgmf/src/Yields.cpp
+++ b/libcgmf/src/Yields.cpp
@@ -129,7 +129,7 @@ void Yields::setYieldParameters(void) {
     GaussData += MASSYIELDFILE; // 3-Gaussian parameterizations
     ifstream gaussfit(GaussData.c_str(),ios::in);
     if (!gaussfit.is_open()) {
-    	cerr << "The file " << GaussData << " was not found" << endl; exit(0);
+    	cerr << "The file " << GaussData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
@@ -173,7 +173,7 @@ void Yields::setYieldParameters(void) {
             cerr << "(n,f) ";
         }
         cerr << id_cn0 << endl;
-        exit(0);
+        exit(-1);
     }
     gaussfit.close();
     return;
@@ -268,7 +268,7 @@ void Yields::setTKEParameters(void) {
     TKEData += TKEYIELDFILE; // List of <TKE>(En), <TKE>(Ah), and s_TKE(Ah) parameterizations
     ifstream tkefit(TKEData.c_str(),ios::in);
     if (!tkefit.is_open()) {
-    	cerr << "The file " << TKEData << " was not found" << endl; exit(0);
+    	cerr << "The file " << TKEData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
-- 
2.43.0


From 3d4c4938fa9839b95fe561055a46a348ce8fab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:30 +0000
Subject: [PATCH 05/22] fix: stop when the anisotropy or pre-equilibrium
 scattering file is missing

A missing anisotropy file was silently ignored and a missing pre-equilibrium
angular distribution file made the program loop forever.
---
 libcgmf/src/FissionFragments.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 5226bce..4fda5a7 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4677,6 +4677,7 @@ void readAnisotropy (void) {
       fp.open(&str[0]);
    }
 
+   if (!fp) cgmTerminateCode("anisotropy data file not found");
 
    while(getline(fp,line)){
       if(line[0] != '#') break;
@@ -4724,7 +4725,9 @@ void readPreEqAngularDistributionParameters (void) {
     str = datadir + str;
     fp.open(&str[0]);
   }
- 
+
+  if (!fp) cgmTerminateCode("preequilibrium angular distribution data file not found");
+
   i=0;
   j=0;
   while (!fp.eof()) { // Loop through file
-- 
2.43.0


From d9ab01d2752553afb06e46ddd0aee5c5af8e42d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:30 +0000
Subject: [PATCH 06/22] fix: stop on a read error in the middle of a data file

An I/O error while reading was taken for the end of the file: the tables were
silently truncated (or the reader looped forever) and wrong events followed.
---
 libcgmf/src/FissionFragments.cpp | 10 ++++++++++
 libcgmf/src/Yields.cpp           |  2 ++
 libcgmf/src/kcksyst.cpp          |  1 +
 libcgmf/src/ripl2levels.cpp      |  1 +
 4 files changed, 14 insertions(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 4fda5a7..3f21a71 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -1971,6 +1971,7 @@ void readRTA (void) {
   }
 
   if (!fp) cgmTerminateCode("R_T(A) data file not found");
+  fp.exceptions(ios::badbit); // stop on a read error
 
   c=0;
   while(getline(fp,str)){
@@ -4390,6 +4391,7 @@ void readDeformations (void) {
     }
 
     if (!fp) cgmTerminateCode("deformtions data file not found");
+    fp.exceptions(ios::badbit); // stop on a read error
 
     std::fill_n (beta2, MAX_ZAID, -100.0);
 
@@ -4443,6 +4445,7 @@ void readTemperatures (void) {
     }
 
     if (!fp) cgmTerminateCode("temperatures data file not found");
+    fp.exceptions(ios::badbit); // stop on a read error
 
     for (int i=0; i<32; i++) {
   		for (int j=0; j<MAX_ZAID; j++) {
@@ -4522,6 +4525,7 @@ void readSpinScaling(void) {
 		fp.open(&str[0]);
 	}
 	if (!fp) cgmTerminateCode("spin-scaling model file not found");
+	fp.exceptions(ios::badbit); // stop on a read error
 
   while (getline(fp,line)) {
     if (line[0]=='#' or line=="") continue;
@@ -4555,6 +4559,7 @@ void readLDP (void) {
     }
 
     if (!fp) cgmTerminateCode("level density parameters data file not found");
+    fp.exceptions(ios::badbit); // stop on a read error
 
     for (int i=0; i<NUM_GRID; i++) {
 		for (int j=0; j<MAX_ZAID; j++) {
@@ -4678,6 +4683,7 @@ void readAnisotropy (void) {
    }
 
    if (!fp) cgmTerminateCode("anisotropy data file not found");
+   fp.exceptions(ios::badbit); // stop on a read error
 
    while(getline(fp,line)){
       if(line[0] != '#') break;
@@ -4727,6 +4733,7 @@ void readPreEqAngularDistributionParameters (void) {
   }
 
   if (!fp) cgmTerminateCode("preequilibrium angular distribution data file not found");
+  fp.exceptions(ios::badbit); // stop on a read error
 
   i=0;
   j=0;
@@ -4851,6 +4858,7 @@ void readMasses (void) {
     }
 
     if (!fp) cgmTerminateCode("masses data file not found");
+    fp.exceptions(ios::badbit); // stop on a read error
 
     std::fill_n (masses, MAX_ZAID, 0.0); // initialize to zeros
 
@@ -5208,6 +5216,7 @@ void FissionFragments::readMultichanceFissionData(void) {
     if (!fissdata.is_open()) {
 	cerr << "[readMultichanceFissionData] file " << fileFissionData << " was not found" << endl; exit(-1);
     }
+    fissdata.exceptions(ios::badbit); // stop on a read error
 
     char c[400];
     string line, subline;
@@ -5607,6 +5616,7 @@ void readPreeqData(void){
   }
 
   if (!fp) cgmTerminateCode("preequilibrium data file not found");
+  fp.exceptions(ios::badbit); // stop on a read error
 
   string line;
 
diff --git a/libcgmf/src/Yields.cpp b/libcgmf/src/Yields.cpp
index d5eed05..5c8674f 100644
--- a/libcgmf/src/Yields.cpp
+++ b/libcgmf/src/Yields.cpp
@@ -131,6 +131,7 @@ void Yields::setYieldParameters(void) {
     if (!gaussfit.is_open()) {
     	cerr << "The file " << GaussData << " was not found" << endl; exit(-1);
     }
+    gaussfit.exceptions(ios::badbit); // stop on a read error
 
     // Initialize the arrays
     for (unsigned int i=0;i<4;i++) NFsupp_YA[i] = false; // Default is to do a simple Y(A) shift if the N-chance yields aren't available (see below)
@@ -270,6 +271,7 @@ void Yields::setTKEParameters(void) {
     if (!tkefit.is_open()) {
     	cerr << "The file " << TKEData << " was not found" << endl; exit(-1);
     }
+    tkefit.exceptions(ios::badbit); // stop on a read error
 
     // Initialize the arrays
     for (unsigned int i=0;i<4;i++) NFsupp_TKE[i] = false; // If the <TKE> parameterizations aren't available for our nucleus, we use the systematics of the initial compound nucleus
diff --git a/libcgmf/src/kcksyst.cpp b/libcgmf/src/kcksyst.cpp
index e1fc5bd..d62557a 100644
--- a/libcgmf/src/kcksyst.cpp
+++ b/libcgmf/src/kcksyst.cpp
@@ -158,6 +158,7 @@ int readkcksystdat() {
 	}
 	
 	if(!fp) cgmTerminateCode("level density parameter file not found");
+	fp.exceptions(ios::badbit); // stop on a read error
 	
 	while(getline(fp,str)){
 		if(str[0] == '#') continue;
diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index d8c8b95..7aa4f9e 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -99,6 +99,7 @@ void readDiscreteLevelData () {
 		cgmTerminateCode("CGMF discrete level database not found");
 		return;
 	}
+	fp.exceptions(ios::badbit); // stop on a read error
 
 	int a=0, z=0, nol=0, nc=0, nmax=0;
 	int c=0;
-- 
2.43.0


From 1286e3c1f3d4848234167274527bc6662e66da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:30 +0000
Subject: [PATCH 07/22] fix: reload the data tables after cgmf_cleanup(), and
 load them once for yields

Generating an event after cgmf_cleanup() used freed tables, a second cleanup
freed them twice, and every cgmfYields object loaded (and leaked) them again
with its multiplicities left uninitialised.
---
 libcgmf/src/cgmfEvents.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index c527a42..460582e 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -358,7 +358,13 @@ int cgmEvent::cgmCheckRange(int z, int a, double e)
 
 
 cgmfEvent::cgmfEvent () {
-  initialization();
+  neutronNu = 0;
+  photonNu  = 0;
+  preFissionNeutronNu = 0;
+  if(firstcalc) {
+    initialization();
+    firstcalc = false;
+  }
   cgmAllocateMemory();
   return;
 };
@@ -644,8 +650,10 @@ void cgmfEvent::initialization () {
 
  */
 void cgmf_cleanup(void) {
+  if (firstcalc) return; // nothing has been loaded
   riplDiscreteLevelsCleanup();
   cleanupRTA();
   specMCcleanup();
+  firstcalc = true; // the data tables have to be read again
 }
 
-- 
2.43.0


From cf2190d5bb851cd98e1967e6455798606c306ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:26 +0000
Subject: [PATCH 08/22] fix: a single-nucleus decay used the time window of the
 previous fission event

---
 libcgmf/src/cgmfEvents.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 460582e..930519e 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -148,6 +148,7 @@ cgmEvent::cgmEvent (int isotope, double eng, double time) {
     initialization(o);
     firstcalc = false;
   }
+  set_time_coincidence_window(-1.0); // not the window of an earlier fission event
   cgmAllocateMemory();
 
   //---------------------------------------
-- 
2.43.0


From ac95e893674a3afdce9bc415dc9ed9874c215970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:26 +0000
Subject: [PATCH 09/22] fix: reject a NaN incident energy, and check the
 reaction of a yields calculation like that of an event

---
 libcgmf/include/cgmfEvents.h | 2 +-
 libcgmf/src/cgmfEvents.cpp   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libcgmf/include/cgmfEvents.h b/libcgmf/include/cgmfEvents.h
index 2138d13..1cf73f9 100644
--- a/libcgmf/include/cgmfEvents.h
+++ b/libcgmf/include/cgmfEvents.h
@@ -234,11 +234,11 @@ protected:
 	double* preFissionNeutronAges;
 
 	void allocateMemory();
+	void checkInput (int, double);
 
 private:
 	
 	void initialization ();
-	void checkInput (int, double);
 
 };
 
diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 930519e..8d965dc 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -542,6 +542,8 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 	fissionFragmentType *lf, *hf;
 	FissionFragments *ff;
 	
+	checkInput (isotope, eng);
+
 	lf = new fissionFragmentType [nevents];
 	hf = new fissionFragmentType [nevents];
 	
@@ -596,7 +598,7 @@ void cgmfEvent::checkInput (int isotope, double einc) {
 
   if (not found) { cerr << "ERROR: Isotope not handled by CGMF or wrong incident energy\n"; exit(-1); }
   if (isotope<0 and einc!=0.0) { cerr << "ERROR: Only spontaneous fission is handled for this isotope\n"; exit(-1); }
-  if (isotope>0 and (einc>20.0 or einc<=0.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
+  if (isotope>0 and not (einc>0.0 and einc<=20.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
 
   return;
 
-- 
2.43.0


From 504c73d827ecc5ca727cbb01a9fb5ae374c8d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:26 +0000
Subject: [PATCH 10/22] fix: exit with a failure status when the history or
 yields file cannot be written

---
 libcgmf/src/cgmfEvents.cpp |  2 ++
 utils/cgmf/cgmf.cpp        | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 8d965dc..63704ed 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -553,6 +553,7 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 	// save fission yields
 	ofstream of;
 	of.open (&outfilename[0]);
+	if (not of) { cerr << "ERROR: Cannot open yields file " << outfilename << endl; exit(-1); }
 	//for (int i=0; i<nevents; i++) {
 	//	of << lf[i].Z << " " << lf[i].A << " " << lf[i].KE << " " << lf[i].U << " " << lf[i].spin << " " << lf[i].parity << endl;
 	//	of << hf[i].Z << " " << hf[i].A << " " << hf[i].KE << " " << hf[i].U << " " << hf[i].spin << " " << hf[i].parity << endl;
@@ -578,6 +579,7 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 
         }
 	of.close();
+	if (not of) { cerr << "ERROR: Cannot write yields file " << outfilename << endl; exit(-1); }
 	
 	return;
 }
diff --git a/utils/cgmf/cgmf.cpp b/utils/cgmf/cgmf.cpp
index ff9b764..b5bae38 100644
--- a/utils/cgmf/cgmf.cpp
+++ b/utils/cgmf/cgmf.cpp
@@ -31,6 +31,7 @@ void readUserInput      (int, char *[], int);
 void recordEvent        (cgmfEvent *);
 void printEventToFile   (FILE *fp, cgmfEvent *, double);
 void printSummaryEvents (cgmfEvent *);
+void outputError        ();
 
 // Default user input values
 string path = "";
@@ -86,6 +87,7 @@ int main(int argc, char *argv[]) {
     }
   } else {
     FILE *fp = fopen(&outfilename[0],"w");
+    if (fp==NULL) outputError();
     if(ip==0) fprintf(fp, "# %5i %g %g\n", ZAIDt, incidentEnergy,timeCoincidenceWindow);
     for (int i=0; i<nevents; i++) {
       rng.set_seed(i+ip*nevents+startingEvent);
@@ -96,7 +98,8 @@ int main(int argc, char *argv[]) {
       recordEvent (event);
       printEventToFile (fp, event, timeCoincidenceWindow);
     }
-    fclose(fp);
+    bool written = (ferror(fp)==0);
+    if (fclose(fp)!=0 or not written) outputError();
     printSummaryEvents (event);
   }
 
@@ -436,6 +439,21 @@ void readUserInput (int argc, char *argv[], int ip) {
 
 }
 
+/*!
+------------------------------------------------------------------------------
+\brief Stop with a failure status: the history file could not be written.
+------------------------------------------------------------------------------
+*/
+void outputError () {
+
+  cerr << "ERROR: Cannot write the history file " << outfilename << endl;
+#ifdef MPIRUN
+  MPI_Abort (MPI_COMM_WORLD, 1);
+#endif
+  exit(-1);
+
+}
+
 /*!
 ------------------------------------------------------------------------------
 \brief Print a fission event in an output file.
-- 
2.43.0


From 364ba514ea2c410838e1a35afaa39bc0fad4a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:26 +0000
Subject: [PATCH 11/22] fix: reject a run of zero events instead of
 dereferencing a null event

---
 utils/cgmf/cgmf.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/cgmf/cgmf.cpp b/utils/cgmf/cgmf.cpp
index b5bae38..14493fd 100644
--- a/utils/cgmf/cgmf.cpp
+++ b/utils/cgmf/cgmf.cpp
@@ -425,6 +425,14 @@ void readUserInput (int argc, char *argv[], int ip) {
     }
   }
 
+  if (nevents==0) {
+    cerr << "The number of events (-n) must be given and cannot be zero" << endl;
+    cerr << "Execution terminated" << endl;
+#ifdef MPIRUN
+    MPI_Finalize();
+#endif
+    exit(-1);
+  }
 
   // set data directory path
   if (path == "") {
-- 
2.43.0


From 00817618005b6691be44dc67b58affbd63f691fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:23 +0000
Subject: [PATCH 12/22] fix: no pre-fission neutron when its emission would end
 below the fission barrier

The event kept a neutron whose energy was never sampled, and the fission of the
residual nucleus kept the whole excitation energy of the compound nucleus.
---
 libcgmf/include/FissionFragments.h |  4 ++--
 libcgmf/src/FissionFragments.cpp   | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/libcgmf/include/FissionFragments.h b/libcgmf/include/FissionFragments.h
index 62e7d74..802ba91 100644
--- a/libcgmf/include/FissionFragments.h
+++ b/libcgmf/include/FissionFragments.h
@@ -324,8 +324,8 @@ class FissionFragments
 	
 	// pre-fission neutron emission << 1.0.6 >>
 	
-	double *sp1;   // total spectrum for the first neutron emitted
-	double *sp;    // evaporation spectrum from the neutrons
+	double *sp1 = 0;   // total spectrum for the first neutron emitted
+	double *sp = 0;    // evaporation spectrum from the neutrons
 	Pdata pdt[MAX_CHANNEL];
 	Transmission *tc;
 	int nemit;
diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 3f21a71..cf13351 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -588,10 +588,8 @@ void FissionFragments::readMainInputFile (string inputFilename) {
 FissionFragments::~FissionFragments () {
 
 //  if (fragments != 0) delete [] fragments;
-  if (n_pfn > 0) {
-    if (sp1 != 0) delete [] sp1;
-    if (sp != 0) delete [] sp;
-  }
+  if (sp1 != 0) delete [] sp1;
+  if (sp != 0) delete [] sp;
   if (tc != 0) {
     for(int k=0 ; k<MAX_ENERGY_BIN ; k++) delete [] tc[k].tran;
     delete [] tc;
@@ -5376,8 +5374,12 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
     // Determine the maximum pre-fission neutron energy (in c.o.m. frame)
     double eps_max = ncl[n].excitation[0] - barrier[n];
     // Can't sample negative energies -- i.e. we're below the barrier of the 2nd-chance daughter
-    if (eps_max < 0.) preeq_flag = false;
-    if (eps_max < 0.) return;
+    // so that the compound nucleus fissions without emitting a neutron
+    if (eps_max < 0.) {
+	preeq_flag = false;
+	n_pfn = 0;
+	return;
+    }
 
     int kfmax = (int) ceil(eps_max/ENERGY_BIN);
 
-- 
2.43.0


From 65062cdf8d59e6264418c8fe4f07116c84213efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:23 +0000
Subject: [PATCH 13/22] fix: a pre-fission neutron from the lowest energy bin
 could get a negative energy and NaN momenta

---
 libcgmf/src/FissionFragments.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index cf13351..a1f8a04 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5396,6 +5396,7 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
     } while (sp1[kf] < max_prob*rng_cgm());
 
     cmEnergy_pfn[0] = energy_grid1[kf] + 0.5*ENERGY_BIN*(1-2*rng_cgm()); // Continuum-to-continuum energy transfer
+    if (cmEnergy_pfn[0] <= 0.) cmEnergy_pfn[0] = 1e-10; // the first bins start at zero energy
 
     // if the neutron was pre-equilibrium, construct the CDF for the angular sampling
     double Eexc = ncl[1].excitation[kf];
@@ -5474,6 +5475,7 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
 	if (kf<0) cout << i << " nemit_now=" << n << " kstart=" << kstart << " kf=" << kf << endl;
 
 	cmEnergy_pfn[i-1] = tc[kf].ecms + 0.5*ENERGY_BIN*(1-2*rng_cgm());
+	if (cmEnergy_pfn[i-1] <= 0.) cmEnergy_pfn[i-1] = 1e-10;
 	kstart = kf;
 
     }
-- 
2.43.0


From 123699d7c65f15a760e7e177f1f09e5d3bba112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:56 +0000
Subject: [PATCH 14/22] fix: the search for a nuclide without discrete levels
 read one entry past the table

---
 libcgmf/src/ripl2levels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index 7aa4f9e..f30cc44 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -225,7 +225,7 @@ void getDiscreteLevels (Nucleus *ncl, int nemit) {
 		zaid = 1000*ncl[k].za.getZ()+ncl[k].za.getA();
 		found=false;
 		id=-1;
-		while (!found && id<MAX_NUCLEI) {
+		while (!found && id<MAX_NUCLEI-1) {
 			id++;
 			if (zaidIndex[id]==zaid) found=true;
 		}
-- 
2.43.0


From 3a8a7b1e13dc1853346fc1414084943446d0aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:29 +0000
Subject: [PATCH 15/22] fix: stop when the optical model calculation cannot get
 its memory instead of using an empty channel

---
 libcgmf/src/omcalc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/omcalc.cpp b/libcgmf/src/omcalc.cpp
index 1e6258d..fc7dadd 100644
--- a/libcgmf/src/omcalc.cpp
+++ b/libcgmf/src/omcalc.cpp
@@ -18,6 +18,7 @@ using namespace std;
 
 #include "optical.h"
 #include "cgm.h"
+#include "terminate.h"
 
 /**********************************************************/
 /*     Entrance channel calculation                       */
@@ -59,8 +60,7 @@ int omCalc
     smat           = new Complex [MAX_L*3];
   }
   catch(bad_alloc){
-    cerr << "Memory allocation error";
-    return(-1);
+    cgmTerminateCode("memory allocation error in omCalc");
   }
 
   for(int j=0 ; j<3*MAX_L ; j++) tran[j] = 0.0;
-- 
2.43.0


From 542fac10d359287ac6e024fbbed5b4da57686069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 16/22] fix: CGMFtk could not read or mixed up histories in
 which every fragment emits the same number of particles

---
 tools/CGMFtk/histories.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index a6e64e2..e96e14d 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -362,15 +362,22 @@ class Histories:
 		
 		nevents = int(nfragments/2)
 
-		cmNeutronEnergies=np.asarray(cmNeutronEnergies,dtype=object)
-		labNeutronEnergies=np.asarray(labNeutronEnergies,dtype=object)
-		cmGammaEnergies=np.asarray(cmGammaEnergies,dtype=object)
-		labGammaEnergies=np.asarray(labGammaEnergies,dtype=object)
-		photonAges=np.asarray(photonAges,dtype=object)
-		cmNeutronDircos=np.asarray(cmNeutronDircos,dtype=object)
-		labNeutronDircos=np.asarray(labNeutronDircos,dtype=object)
-		labPreFissionNeutronEnergies=np.asarray(labPreFissionNeutronEnergies,dtype=object)
-		labPreFissionNeutronDircos=np.asarray(labPreFissionNeutronDircos,dtype=object)
+		# one list per fragment, also when all of them have the same length
+		def perFragment (lists):
+			a = np.empty(len(lists),dtype=object)
+			for i in range(len(lists)):
+				a[i] = lists[i]
+			return (a)
+
+		cmNeutronEnergies=perFragment(cmNeutronEnergies)
+		labNeutronEnergies=perFragment(labNeutronEnergies)
+		cmGammaEnergies=perFragment(cmGammaEnergies)
+		labGammaEnergies=perFragment(labGammaEnergies)
+		photonAges=perFragment(photonAges)
+		cmNeutronDircos=perFragment(cmNeutronDircos)
+		labNeutronDircos=perFragment(labNeutronDircos)
+		labPreFissionNeutronEnergies=perFragment(labPreFissionNeutronEnergies)
+		labPreFissionNeutronDircos=perFragment(labPreFissionNeutronDircos)
 
 		data = np.dstack((A,Z,U,J,P,KEpre,nmult,gmult,cmNeutronEnergies,labNeutronEnergies,cmGammaEnergies, labGammaEnergies,photonAges,preFragmentsX,preFragmentsY,preFragmentsZ,postFragmentsX,postFragmentsY,postFragmentsZ,cmNeutronDircos,labNeutronDircos,prenmult,labPreFissionNeutronEnergies,labPreFissionNeutronDircos,KEpost))
 
-- 
2.43.0


From 2424b6e2580eb2d7bcfbc03393b84ccf54a5ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 17/22] fix: CGMFtk silently read the last number or event of a
 truncated history or yield file

---
 tools/CGMFtk/histories.py | 24 ++++++++++++++++--------
 tools/CGMFtk/yields.py    | 11 ++++++++++-
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index e96e14d..3c44ac5 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -158,6 +158,12 @@ class Histories:
 
 		f = open (filename)
 
+		def readline ():
+			line = f.readline()
+			if (len(line)>0 and line[-1]!='\n'):
+				sys.exit('ERROR: the last line of the history file is incomplete')
+			return (line)
+
 		if (nevents is not None):
 			maxNumberEvents = 2*int(nevents)
 			hasMaxNumber = True
@@ -205,7 +211,7 @@ class Histories:
 
 		##############################################################################
 
-		line = f.readline()
+		line = readline()
 		if (line.find("#")!=0):
 			sys.exit("ERROR: FIRST LINE OF OUTPUT FILE SHOULD CONTAIN '#'")
 		else:
@@ -232,7 +238,7 @@ class Histories:
 			# if we only want to read a certain number of events, check here
 			if (hasMaxNumber and c>maxNumberEvents):
 				break
-			line = f.readline()
+			line = readline()
 			if (len(line)==0):
 				break
 	
@@ -261,7 +267,7 @@ class Histories:
 			prenmult.append(npn) #-- (should always be 0 for LF)
 
 			# read pre- and post-neutron emission fission fragment momentum vectors
-			data = f.readline().split()
+			data = readline().split()
 			preFF=[]
 			postFF=[]
 			preFF.append  (np.array([float(data[0]),float(data[1]),float(data[2])]))
@@ -286,13 +292,13 @@ class Histories:
 
 			if (nn>0):
 
-				data=f.readline().split()
+				data=readline().split()
 				for i in range(nn):
 					cmDn.append(np.array([float(data[0+i*4]),float(data[1+i*4]),float(data[2+i*4])]))
 					cmEn.append(float(data[3+i*4]))
 	
 				# in lab frame
-				data=f.readline().split()
+				data=readline().split()
 				for i in range(nn):
 					labDn.append(np.array([float(data[0+i*4]),float(data[1+i*4]),float(data[2+i*4])]))
 					labEn.append(float(data[3+i*4]))
@@ -303,13 +309,13 @@ class Histories:
 			Tg=[]
 
 			if (ng>0 and self.time<0.):
-				data=f.readline().split()
+				data=readline().split()
 				for i in range(ng):
 					Dg.append(np.array([float(data[0+i*5]),float(data[1+i*5]),float(data[2+i*5])]))
 					Eg.append(float(data[3+i*5]))
 					Tg.append(float(data[4+i*5]))
 			elif (ng>0):
-				data=f.readline().split()
+				data=readline().split()
 				for i in range(ng):
 					Dg.append(np.array([float(data[0+i*4]),float(data[1+i*4]),float(data[2+i*4])]))
 					Eg.append(float(data[3+i*4]))
@@ -327,7 +333,7 @@ class Histories:
 				isLightFragment=True
 
 				if (npn>0):
-					data = f.readline().split()
+					data = readline().split()
 					for i in range(npn):
 						labDpren.append(np.array([float(data[0+i*4]),float(data[1+i*4]),float(data[2+i*4])]))
 						labEpren.append(float(data[3+i*4]))
@@ -360,6 +366,8 @@ class Histories:
 
 		f.close()
 		
+		if (nfragments%2!=0):
+			sys.exit('ERROR: the last event of the history file is incomplete')
 		nevents = int(nfragments/2)
 
 		# one list per fragment, also when all of them have the same length
diff --git a/tools/CGMFtk/yields.py b/tools/CGMFtk/yields.py
index 1cb1660..2713025 100644
--- a/tools/CGMFtk/yields.py
+++ b/tools/CGMFtk/yields.py
@@ -107,7 +107,14 @@ class Yields:
 	def _readYieldFileFromCGMF (self, filename, nevents=None):
 		"""Reads the CGMF history file (filename) and returns a list of the yield characteristics"""
 
-		f = open (filename)
+		# the last line of a file that was cut short may end inside a number
+		f = open (filename,'rb')
+		f.seek(0,2)
+		if (f.tell()>0):
+			f.seek(-1,2)
+			if (f.read(1)!=b'\n'):
+				sys.exit('ERROR: the last line of the yield file is incomplete')
+		f.close()
 
 		if (nevents is not None):
 			maxNumberEvents = 2*int(nevents)
@@ -116,6 +123,8 @@ class Yields:
 			hasMaxNumber = False
 			
 		data = np.loadtxt(filename)
+		if (len(data)%2!=0):
+			sys.exit('ERROR: the last event of the yield file is incomplete')
 		if (hasMaxNumber):
 			data = data[:maxNumberEvents]
 
-- 
2.43.0


From 75c02db9fa59970ccf6b618697b4711b995a6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 18/22] fix: CGMFtk UTKE and spinTKE used an undefined name

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 3c44ac5..eaa7a57 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -989,7 +989,7 @@ class Histories:
 			TKE = self.TKEpre
 		elif (quantity=='UTKE'):
 			q=self.U
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
@@ -997,7 +997,7 @@ class Histories:
 			TKE = np.array(TKE)
 		elif (quantity=='spinTKE'):
 			q=self.J
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
-- 
2.43.0


From 0e8c68c80220add57e709f1a8b77ef8ed5840e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 19/22] fix: CGMFtk gamma multiplicities as a function of time
 failed for a numpy array of times

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index eaa7a57..a90cf69 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -643,7 +643,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
@@ -697,7 +697,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
-- 
2.43.0


From 5939fdb34105565e6614eca327ef747e2c81950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 20/22] fix: CGMFtk Pnu with a threshold energy counted
 fragments instead of events

---
 tools/CGMFtk/histories.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index a90cf69..240271c 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -841,11 +841,14 @@ class Histories:
 		if (Eth is not None):
 			Eth = float(Eth)
 			nutot = []
-			#nE = self.nElabLF + self.nElabHF + self.preFissionNeutronElab
-			nE = self.nElab + self.preFissionNeutronElab
-			for x in nE:
-				x = np.array(x)
-				nutot.append(len(x[x>=Eth]))
+			nE = self.nElabLF + self.nElabHF
+			for i in range(self.numberEvents):
+				x = np.array(nE[i])
+				n = len(x[x>=Eth])
+				if (self.preFissionNu[i]>0):
+					x = np.array(self.preFissionNeutronElab[i])
+					n += len(x[x>=Eth])
+				nutot.append(n)
 			nutot = np.array(nutot)
 		else:
 			#nutot = self.nuLF + self.nuHF + self.preFissionNu
-- 
2.43.0


From 37b2260ab7d06fa80718c6f2e8fb8435dd6842fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:29 +0000
Subject: [PATCH 21/22] fix: a single-nucleus decay below the continuum started
 one discrete level too high

---
 libcgmf/src/specmc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index d62b498..e90dd56 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -265,6 +265,7 @@ void specMCMain(double initJ, int initP, double targE, double spinf, unsigned lo
   if(ncl[0].ncont == 0){
     /*** find nearest discrete level for given Ex */
     int nstart = statStoreLevelExcite(&ncl[0]);
+    if(nstart > 0) nstart--; // number of levels -> index of the level
 
     for(unsigned long t=0 ; t<nsim ; t++){
       np = 0;
-- 
2.43.0


From d301647cdb1db58519ecff5f41d54898c9cf907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:16 +0000
Subject: [PATCH 22/22] fix: apply the tabulated fragment anisotropy at every
 incident energy

The grid point was found by comparing a float with a double for equality, so
that energies other than multiples of 0.5 MeV were treated as isotropic.
---
 libcgmf/src/FissionFragments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index a1f8a04..96b2aa7 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4796,7 +4796,7 @@ void FissionFragments::computeFragmentAngularDistribution (void) {
       for (int i=0;i<MAX_ZAIDc;i++){
          if (anisotropy[i+1][0]==ZAIDc-1){
             for (int j=1;j<=NUM_EGRID;j++){
-               if (roundf(incidentEnergy0*10)/10 == anisotropy[0][j]) {
+               if (fabs(round(incidentEnergy0*10)/10 - anisotropy[0][j]) < 0.01) { // grid in steps of 0.1 MeV
                   anisotropyCoefficient = anisotropy[i+1][j];
                   break;
                }
-- 
2.43.0

