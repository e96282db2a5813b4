From 1a6b0ffac8e9fca2cdb97237d597f6336b60cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:24 +0000
Subject: [PATCH 01/12] fix: Machine::propagate visits elements for
 max==INT_MIN (abs overflow)

---
 src/base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index ef0a1f6..fe47b29 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -173,7 +173,10 @@ Machine::propagate(StateBase* S, size_t start, int max) const
     S->next_elem = start;
     S->retreat = std::signbit(max);
 
-    for(int i=0; S->next_elem<nelem && i<abs(max); i++)
+    // magnitude of max, also for INT_MIN where abs() overflows
+    const unsigned nmax = max<0 ? 0u-(unsigned)max : (unsigned)max;
+
+    for(unsigned i=0; S->next_elem<nelem && i<nmax; i++)
     {
         size_t n = S->next_elem;
         ElementVoid* E = p_elements[n];
-- 
2.43.0


From 814a67dbed4da921f138d9db1b1755d0c6eaa290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:51 +0000
Subject: [PATCH 02/12] fix: MomentElementBase cache distinguishes forward from
 backward propagation

---
 src/flame/moment.h | 2 ++
 src/moment.cpp     | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/flame/moment.h b/src/flame/moment.h
index b4c1e91..13cbba1 100644
--- a/src/flame/moment.h
+++ b/src/flame/moment.h
@@ -177,6 +177,8 @@ struct MomentElementBase : public ElementVoid
 
     Particle last_ref_in, last_ref_out;
     std::vector<Particle> last_real_in, last_real_out;
+    //! direction of propagation for which last_*_out were computed
+    bool last_retreat;
     //! final transfer matricies
     std::vector<value_t> transfer;
     std::vector<value_t> misalign, misalign_inv;
diff --git a/src/moment.cpp b/src/moment.cpp
index 6a073e3..f0062b4 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -548,6 +548,7 @@ bool MomentState::getArray(unsigned idx, ArrayInfo& Info) {
 
 MomentElementBase::MomentElementBase(const Config& c)
     :ElementVoid(c)
+    ,last_retreat(false)
     ,dx   (c.get<double>("dx",    0e0)*MtoMM)
     ,dy   (c.get<double>("dy",    0e0)*MtoMM)
     ,pitch(c.get<double>("pitch", 0e0))
@@ -567,6 +568,7 @@ void MomentElementBase::assign(const ElementVoid *other)
     last_real_out= O->last_real_out;
     last_ref_in  = O->last_ref_in;
     last_ref_out = O->last_ref_out;
+    last_retreat = O->last_retreat;
     transfer = O->transfer;
     misalign = O->misalign;
     misalign_inv = O->misalign_inv;
@@ -667,6 +669,7 @@ void MomentElementBase::advance(StateBase& s)
         // need to re-calculate energy dependent terms
         last_ref_in = ST.ref;
         last_real_in = ST.real;
+        last_retreat = ST.retreat;
         resize_cache(ST);
 
         recompute_matrix(ST); // updates transfer and last_Kenergy_out
@@ -729,6 +732,7 @@ bool MomentElementBase::check_cache(const state_t& ST) const
 {
     return !skipcache
             && last_real_in.size()==ST.size()
+            && last_retreat==ST.retreat
             && last_ref_in==ST.ref
             && std::equal(last_real_in.begin(),
                           last_real_in.end(),
@@ -949,6 +953,7 @@ struct ElementSBend : public MomentElementBase
             // need to re-calculate energy dependent terms
             last_ref_in = ST.ref;
             last_real_in = ST.real;
+            last_retreat = ST.retreat;
             resize_cache(ST);
 
             recompute_matrix(ST); // updates transfer and last_Kenergy_out
-- 
2.43.0


From dc7ad0a26b61fda29d997cfebb8a33ebb7a47c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:47 +0000
Subject: [PATCH 03/12] fix: MomentMatrix elements do not reuse cached results
 after a failed recompute

---
 src/flame/rf_cavity.h | 1 +
 src/moment.cpp        | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 4728129..4c884c8 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -167,6 +167,7 @@ struct ElementRFCavity : public MomentElementBase
         if(!check_cache(ST) && !ST.retreat) {
             last_ref_in = ST.ref;
             last_real_in = ST.real;
+            last_real_out.clear(); // cache invalid until recompute_matrix() succeeds
             resize_cache(ST);
             // need to re-calculate energy dependent terms
 
diff --git a/src/moment.cpp b/src/moment.cpp
index f0062b4..7aa92ce 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -670,6 +670,7 @@ void MomentElementBase::advance(StateBase& s)
         last_ref_in = ST.ref;
         last_real_in = ST.real;
         last_retreat = ST.retreat;
+        last_real_out.clear(); // cache invalid until recompute_matrix() succeeds
         resize_cache(ST);
 
         recompute_matrix(ST); // updates transfer and last_Kenergy_out
@@ -732,6 +733,7 @@ bool MomentElementBase::check_cache(const state_t& ST) const
 {
     return !skipcache
             && last_real_in.size()==ST.size()
+            && last_real_out.size()==ST.size()
             && last_retreat==ST.retreat
             && last_ref_in==ST.ref
             && std::equal(last_real_in.begin(),
@@ -954,6 +956,7 @@ struct ElementSBend : public MomentElementBase
             last_ref_in = ST.ref;
             last_real_in = ST.real;
             last_retreat = ST.retreat;
+            last_real_out.clear(); // cache invalid until recompute_matrix() succeeds
             resize_cache(ST);
 
             recompute_matrix(ST); // updates transfer and last_Kenergy_out
-- 
2.43.0


From 4d1f85932d7b825be5e9c8534d1e7473ef16a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:07 +0000
Subject: [PATCH 04/12] fix: Config::flatten does not modify values shared with
 copies

---
 src/config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.cpp b/src/config.cpp
index df2468f..edd7d5d 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -116,6 +116,7 @@ void Config::push_scope()
 void Config::flatten()
 {
     if(implicit_values) {
+        _cow(); // our values may be shared with another Config
         values->insert(implicit_values->begin(),
                        implicit_values->end());
         implicit_values.reset();
-- 
2.43.0


From 71d5e2eb63067081c92a58b95697cf20d49aeb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:04 +0000
Subject: [PATCH 05/12] fix: Machine::reconfigure keeps lookup by name in step
 with a renamed element

---
 src/base.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index fe47b29..68fee2a 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -213,7 +213,16 @@ void Machine::reconfigure(size_t idx, const Config& c)
 
     element_builder_t *builder = eit->second;
 
-    builder->rebuild(p_elements[idx], c, idx);
+    ElementVoid *E = p_elements[idx];
+    const std::string oldname(E->name);
+
+    builder->rebuild(E, c, idx);
+
+    if(E->name!=oldname) {
+        // keep lookup by name in step
+        p_lookup.erase(LookupKey(oldname, idx));
+        p_lookup.insert(std::make_pair(LookupKey(E->name, idx), E));
+    }
 }
 
 Machine::p_state_infos_t Machine::p_state_infos;
-- 
2.43.0


From 6d5afae26c9b35649c0861adb0391a5124805a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:04 +0000
Subject: [PATCH 06/12] fix: ndindex_iterate visits nothing when a dimension is
 empty

---
 src/flame/util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flame/util.h b/src/flame/util.h
index 7dd7d5f..0f69532 100644
--- a/src/flame/util.h
+++ b/src/flame/util.h
@@ -116,6 +116,8 @@ struct ndindex_iterate {
     ndindex_iterate(unsigned nd, size_t *lim) :done(false), ndim(nd) {
         std::fill(index, index+MAX, 0u);
         std::copy(lim, lim+nd, limit);
+        for(unsigned i=0; i<nd; i++)
+            if(lim[i]==0) done = true; // nothing to visit
     }
     bool next() {
         if(!done) {
-- 
2.43.0


From 6a10e00085ccd1ae2bb81abc7605e03f6eea6f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:14 +0000
Subject: [PATCH 07/12] fix: reconfiguring a Vector/TransferMatrix source takes
 over the new initial state

---
 src/linear.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linear.cpp b/src/linear.cpp
index 958595e..9b47f80 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -193,6 +193,12 @@ struct ElementSource : public Base
     virtual ~ElementSource() {}
 
     virtual const char* type_name() const {return "source";}
+
+    virtual void assign(const ElementVoid *other)
+    {
+        base_t::assign(other);
+        istate.assign(static_cast<const ElementSource*>(other)->istate);
+    }
 };
 
 template<typename Base>
-- 
2.43.0


From ad48e9ce78327d2b0298ad1c848a8fabb2130bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:26 +0000
Subject: [PATCH 08/12] fix: dispersion and path length of gradient bends with
 non-positive horizontal focusing

sx used sin where the defocusing plane needs sinh, and the path length
term divided by Kx, giving NaN for Kx == 0 (including phi=0, K=0).
---
 src/moment_sup.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 6f5387e..4a61847 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -242,9 +242,12 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
         sx = sin(sqrt(Kx)*L)/(rho*sqrt(Kx));
     } else {
         dx = (1e0-cosh(sqrt(-Kx)*L))/(rho*Kx);
-        sx = sin(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
+        sx = sinh(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
     }
 
+    // Path length term; (L/rho-sx)/(Kx*rho), which tends to L^3/(6*rho^2) for Kx -> 0.
+    const double lx = (Kx == 0e0) ? cube(L)/(6e0*sqr(rho)) : (L/rho-sx)/(Kx*rho);
+
     M(state_t::PS_X,  state_t::PS_PS) = dx/(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
     M(state_t::PS_PX, state_t::PS_PS) = sx/(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
 
@@ -252,11 +255,11 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
     M(state_t::PS_S,  state_t::PS_PX) = dx*dip_IonK;
     // Low beta approximation.
     M(state_t::PS_S,  state_t::PS_PS) =
-            ((L/rho-sx)/(Kx*rho)-L/sqr(ref_gamma))*dip_IonK
+            (lx-L/sqr(ref_gamma))*dip_IonK
             /(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
 
     // Add dipole terms.
-    M(state_t::PS_S,  6) = ((L/rho-sx)/(Kx*rho)*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
+    M(state_t::PS_S,  6) = (lx*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
     M(state_t::PS_X,  6) = dx*d;
     M(state_t::PS_PX, 6) = sx*d;
 
-- 
2.43.0


From 2ff5d25ac3353aa5f9dd29d2287c3170c3ddf6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:03 +0000
Subject: [PATCH 09/12] fix: numeric tables reject malformed numbers and
 incomplete rows

---
 src/util.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index e09378b..e46ebb1 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -12,6 +12,9 @@
 
 void numeric_table::readvec(std::vector<double> vec, int numcol)
 {
+    if(numcol<=0 || vec.size()%numcol!=0)
+        throw std::runtime_error(SB()<<"Can't arrange "<<vec.size()<<" values in "<<numcol<<" columns");
+
     value_t tabletmp(int(vec.size()/numcol),numcol);
     for (unsigned i=0; i < vec.size(); i++){
         int ii,jj;
@@ -37,7 +40,7 @@ void numeric_table::read(std::istream &strm)
         line++;
         values.clear();
 
-        size_t cpos = rawline.find_first_not_of(" \t");
+        size_t cpos = rawline.find_first_not_of(" \t\r\n");
         if(cpos==rawline.npos)
             continue; // skip blank and comment lines
 
@@ -68,16 +71,16 @@ void numeric_table::read(std::istream &strm)
 
             std::istringstream lstrm(rawline);
 
-            while(lstrm.good()) {
+            lstrm>>std::ws;
+            while(!lstrm.eof()) {
                 double val;
-                lstrm>>val;
-                if(!lstrm.fail())
-                    values.push_back(val);
+                if(!(lstrm>>val))
+                    throw std::runtime_error(SB()<<"Error parsing data line "<<line<<" '"<<rawline<<"'");
+                values.push_back(val);
+                if(!lstrm.eof())
+                    lstrm>>std::ws;
             }
 
-            if(!lstrm.eof() && lstrm.fail())
-                throw std::runtime_error(SB()<<"Error parsing data line "<<line<<" '"<<rawline<<"'");
-
             if(!table.empty() && table.back().size()!=values.size())
                 throw std::runtime_error(SB()<<"Line "<<line<<" w/ different # of elements");
 
@@ -92,7 +95,7 @@ void numeric_table::read(std::istream &strm)
     if(!strm.eof() && strm.fail())
         throw std::runtime_error(SB()<<"Error parsing line "<<line<<" '"<<rawline<<"'");
     else if(table.empty()) {
-        this->table.clear();
+        this->table.resize(0, 0, false);
     } else {
         value_t result(table.size(), table.front().size());
 
-- 
2.43.0


From c8962edc8a072e675d6ccedc19c654673bfd1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:03 +0000
Subject: [PATCH 10/12] fix: rf cavity data files with missing or short data
 are reported

---
 src/rf_cavity.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 327fd8d..ed18287 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -636,6 +636,8 @@ double GetCavPhase(const int cavi, const Particle& ref, const double IonFys, con
         Fyc = 5.428*pow(IonEk, -0.5008) + 1.6;
         break;
     case 0:
+        if(P.size() < 3)
+            throw std::runtime_error("*** GetCavPhase: synchronous phase needs an AccGap with fitting parameters");
         Fyc = P[0]*pow(IonEk,P[1])- P[2];
         break;
     default:
@@ -791,7 +793,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 else
                     params.E0 = 0.0;
 
-                if(lstrm.fail() && !lstrm.eof()) {
+                if(lstrm.fail()) {
                     throw std::runtime_error(SB()<<"Error parsing line '"<<line<<"' in '"<<cavfile<<"'");
                 }
                 lattice.push_back(params);
@@ -809,15 +811,10 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         if ( CavConfMap.find(key) == CavConfMap.end() ) {
             // not found in CavConfMap
             try {
-                try {
-                    GLPSParser P;
-                    conf.reset(P.parse_file(DataFile.c_str()));
-                }catch(std::exception& e){
-                    std::cerr<<"Parse error: "<<e.what()<<"\n";
-                }
-
+                GLPSParser P;
+                conf.reset(P.parse_file(DataFile.c_str()));
             }catch(std::exception& e){
-                std::cerr<<"Error: "<<e.what()<<"\n";
+                throw std::runtime_error(SB()<<"Error parsing '"<<DataFile<<"' : "<<e.what());
             }
             CavConfMap.insert(std::make_pair(key, conf));
         } else {
@@ -843,6 +840,9 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 const double eV0(EC.get<double>("V0"));
                 params.E0 = eV0;
                 EC.tryGet<std::vector<double> >("attr", attrs);
+                // 10 + 10 fit coefficients, and for an AccGap 3 more for the synchronous phase
+                if(attrs.size() < (etype=="AccGap" ? 23u : 20u))
+                    throw std::runtime_error(SB()<<"'attr' of "<<etype<<" is missing or too short in '"<<DataFile<<"'");
                 for(int i=0; i<10; i++)
                 {
                     params.Tfit.push_back(attrs[i]);
@@ -868,6 +868,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         bool checker = conf->tryGet<std::vector<double> >("Ez", Ez);
         if (!checker) throw std::runtime_error(SB()<<"'Ez' is missing in RF cavity file.\n");
         CavData.readvec(Ez,2);
+        if(CavData.table.size1()==0)
+            throw std::runtime_error(SB()<<"'Ez' is empty in '"<<DataFile<<"'");
         conf->tryGet<double>("Rm",cRm);
 
         // Get extra parameters for complex synchronous phase definition
@@ -875,6 +877,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         have_SynComplex = conf->tryGet<std::vector<double> >("SyncFit", SynComplex);
         have_EkLim = conf->tryGet<std::vector<double> >("EnergyLimit", EkLim);
         have_NrLim = conf->tryGet<std::vector<double> >("NormLimit", NrLim);
+        if((have_EkLim && EkLim.size()<2) || (have_NrLim && NrLim.size()<2))
+            throw std::runtime_error(SB()<<"'EnergyLimit' and 'NormLimit' need a lower and an upper limit in '"<<DataFile<<"'");
     }
 }
 
-- 
2.43.0


From f8cee98060a3d58500a71fb9357a7bab7a1c518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:03 +0000
Subject: [PATCH 11/12] fix: numeric table cache notices every change of the
 file time

---
 src/util.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index e46ebb1..ea5110a 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -144,7 +144,7 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
     boost::mutex::scoped_lock L(pvt->lock);
 
     Pvt::cache_t::const_iterator it = pvt->cache.find(path);
-    if(it==pvt->cache.end() || mtime>it->second.lastmod) {
+    if(it==pvt->cache.end() || mtime!=it->second.lastmod) {
         // miss
 
         ret.reset(new numeric_table);
@@ -153,11 +153,16 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
 
         ret->read(strm);
 
-        Pvt::Value v;
-        v.lastmod = boost::filesystem::last_write_time(P); // fetch again to avoid some, but not all, races
-        v.table = ret;
+        if(boost::filesystem::last_write_time(P)==mtime) {
+            Pvt::Value v;
+            v.lastmod = mtime;
+            v.table = ret;
 
-        pvt->cache[path] = v;
+            pvt->cache[path] = v;
+        } else {
+            // replaced while being read, don't remember what may be neither the old nor the new contents
+            pvt->cache.erase(path);
+        }
     } else {
         ret = it->second.table;
     }
-- 
2.43.0


From 0cc2bd7bbc5661be66b102eb04c9e3826906596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:03 +0000
Subject: [PATCH 12/12] fix: reconfiguring an rf cavity takes over all of its
 data file parameters

---
 src/flame/rf_cavity.h | 12 ++++++++++++
 src/rf_cavity.cpp     |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 4c884c8..8234551 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -144,6 +144,18 @@ struct ElementRFCavity : public MomentElementBase
         mlptable      = O->mlptable;
         CavData       = O->CavData;
         CavTLMLineTab = O->CavTLMLineTab;
+        CavType       = O->CavType;
+        DataPath      = O->DataPath;
+        DataFile      = O->DataFile;
+        SynAccTab     = O->SynAccTab;
+        have_RefNrm     = O->have_RefNrm;
+        have_SynComplex = O->have_SynComplex;
+        have_EkLim      = O->have_EkLim;
+        have_NrLim      = O->have_NrLim;
+        RefNrm        = O->RefNrm;
+        SynComplex    = O->SynComplex;
+        EkLim         = O->EkLim;
+        NrLim         = O->NrLim;
         fRF           = O->fRF;
         IonFys        = O->IonFys;
         phi_ref       = O->phi_ref;
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index ed18287..1d09545 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -693,6 +693,11 @@ void EvalGapModel(const double dis, const double IonW0, const Particle &real, co
 
 ElementRFCavity::ElementRFCavity(const Config& c)
     :base_t(c)
+    ,have_RefNrm(false)
+    ,have_SynComplex(false)
+    ,have_EkLim(false)
+    ,have_NrLim(false)
+    ,RefNrm(0.0)
 {
     ElementRFCavity::LoadCavityFile(c);
 }
-- 
2.43.0

