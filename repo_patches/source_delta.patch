From 0430093aaa3f34794a4c24389860e698168affd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:01 +0000
Subject: [PATCH 01/60] fix: sector bend dispersion for zero and negative
 horizontal focusing

GetSBendMatrix divided 0/0 when K = -1/rho^2 (also for a zero bending
angle with K=0), giving NaN, and used sin() in place of sinh() in the
horizontally defocusing case.
---
 src/moment_sup.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 6f5387e..85a74cd 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -226,7 +226,8 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
             Kx  = K + 1e0/sqr(rho),
             Ky  = -K,
             dx  = 0e0,
-            sx  = 0e0;
+            sx  = 0e0,
+            dz  = 0e0;
 
     // Horizontal plane.
     GetQuadMatrix(L, Kx, (unsigned)state_t::PS_X, M);
@@ -237,12 +238,15 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
     if (Kx == 0e0) {
         dx = sqr(L)/(2e0*rho);
         sx = L/rho;
+        dz = cube(L)/(6e0*sqr(rho));
     } else if (Kx > 0e0) {
         dx = (1e0-cos(sqrt(Kx)*L))/(rho*Kx);
         sx = sin(sqrt(Kx)*L)/(rho*sqrt(Kx));
+        dz = (L/rho-sx)/(Kx*rho);
     } else {
         dx = (1e0-cosh(sqrt(-Kx)*L))/(rho*Kx);
-        sx = sin(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
+        sx = sinh(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
+        dz = (L/rho-sx)/(Kx*rho);
     }
 
     M(state_t::PS_X,  state_t::PS_PS) = dx/(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
@@ -252,11 +256,11 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
     M(state_t::PS_S,  state_t::PS_PX) = dx*dip_IonK;
     // Low beta approximation.
     M(state_t::PS_S,  state_t::PS_PS) =
-            ((L/rho-sx)/(Kx*rho)-L/sqr(ref_gamma))*dip_IonK
+            (dz-L/sqr(ref_gamma))*dip_IonK
             /(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
 
     // Add dipole terms.
-    M(state_t::PS_S,  6) = ((L/rho-sx)/(Kx*rho)*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
+    M(state_t::PS_S,  6) = (dz*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
     M(state_t::PS_X,  6) = dx*d;
     M(state_t::PS_PX, 6) = sx*d;
 
-- 
2.43.0


From 26424521e0be46670a54b0ec7d3023a03072fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:56 +0000
Subject: [PATCH 02/60] fix: do not reuse an element's cached forward result
 for a backward pass (and vice versa)

---
 src/flame/moment.h | 2 ++
 src/moment.cpp     | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/flame/moment.h b/src/flame/moment.h
index b4c1e91..a6a4c1d 100644
--- a/src/flame/moment.h
+++ b/src/flame/moment.h
@@ -177,6 +177,8 @@ struct MomentElementBase : public ElementVoid
 
     Particle last_ref_in, last_ref_out;
     std::vector<Particle> last_real_in, last_real_out;
+    //! direction of travel for which last_*_out were computed
+    bool last_retreat;
     //! final transfer matricies
     std::vector<value_t> transfer;
     std::vector<value_t> misalign, misalign_inv;
diff --git a/src/moment.cpp b/src/moment.cpp
index 6a073e3..335076a 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -548,6 +548,7 @@ bool MomentState::getArray(unsigned idx, ArrayInfo& Info) {
 
 MomentElementBase::MomentElementBase(const Config& c)
     :ElementVoid(c)
+    ,last_retreat(false)
     ,dx   (c.get<double>("dx",    0e0)*MtoMM)
     ,dy   (c.get<double>("dy",    0e0)*MtoMM)
     ,pitch(c.get<double>("pitch", 0e0))
@@ -567,6 +568,7 @@ void MomentElementBase::assign(const ElementVoid *other)
     last_real_out= O->last_real_out;
     last_ref_in  = O->last_ref_in;
     last_ref_out = O->last_ref_out;
+    last_retreat = O->last_retreat;
     transfer = O->transfer;
     misalign = O->misalign;
     misalign_inv = O->misalign_inv;
@@ -667,6 +669,7 @@ void MomentElementBase::advance(StateBase& s)
         // need to re-calculate energy dependent terms
         last_ref_in = ST.ref;
         last_real_in = ST.real;
+        last_retreat = ST.retreat;
         resize_cache(ST);
 
         recompute_matrix(ST); // updates transfer and last_Kenergy_out
@@ -728,6 +731,7 @@ void MomentElementBase::advance(StateBase& s)
 bool MomentElementBase::check_cache(const state_t& ST) const
 {
     return !skipcache
+            && last_retreat==ST.retreat
             && last_real_in.size()==ST.size()
             && last_ref_in==ST.ref
             && std::equal(last_real_in.begin(),
@@ -949,6 +953,7 @@ struct ElementSBend : public MomentElementBase
             // need to re-calculate energy dependent terms
             last_ref_in = ST.ref;
             last_real_in = ST.real;
+            last_retreat = ST.retreat;
             resize_cache(ST);
 
             recompute_matrix(ST); // updates transfer and last_Kenergy_out
-- 
2.43.0


From ada07629d4251ec836d9f4f07042c9994efa16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 03/60] fix: an element whose matrix calculation failed must
 fail again, not reuse the stale matrix

---
 src/flame/moment.h    |  3 +++
 src/flame/rf_cavity.h |  7 ++++++-
 src/moment.cpp        | 20 ++++++++++++++++++--
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/flame/moment.h b/src/flame/moment.h
index a6a4c1d..2136677 100644
--- a/src/flame/moment.h
+++ b/src/flame/moment.h
@@ -170,6 +170,9 @@ struct MomentElementBase : public ElementVoid
     //! in the provided new input state.
     void resize_cache(const state_t& ST);
 
+    //! Forget the previous calculation (it failed part way), no later state will match it.
+    void clear_cache();
+
     //! recalculate 'transfer' taking into consideration the provided input state
     virtual void recompute_matrix(state_t& ST);
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 4728129..6c84616 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -185,7 +185,12 @@ struct ElementRFCavity : public MomentElementBase
                 }
             }
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            try {
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            } catch(...) {
+                clear_cache();
+                throw;
+            }
 
             for(size_t i=0; i<last_real_in.size(); i++)
                 get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
diff --git a/src/moment.cpp b/src/moment.cpp
index 335076a..a93f996 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -672,7 +672,12 @@ void MomentElementBase::advance(StateBase& s)
         last_retreat = ST.retreat;
         resize_cache(ST);
 
-        recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        try {
+            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        } catch(...) {
+            clear_cache();
+            throw;
+        }
 
         ST.recalc();
 
@@ -761,6 +766,12 @@ void MomentElementBase::resize_cache(const state_t& ST)
     misalign_inv.resize(ST.real.size(), boost::numeric::ublas::identity_matrix<double>(state_t::maxsize));
 }
 
+void MomentElementBase::clear_cache()
+{
+    last_real_in.clear();
+    last_real_out.clear();
+}
+
 void MomentElementBase::recompute_matrix(state_t& ST)
 {
     // Default, initialize as no-op
@@ -956,7 +967,12 @@ struct ElementSBend : public MomentElementBase
             last_retreat = ST.retreat;
             resize_cache(ST);
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            try {
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            } catch(...) {
+                clear_cache();
+                throw;
+            }
 
             ST.recalc();
             last_ref_out = ST.ref;
-- 
2.43.0


From 68d36c4a0450ad508d7bdf1bad7a4271ecb53e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:52 +0000
Subject: [PATCH 04/60] fix: a backward pass through a cavity must not
 overwrite the cached misalignment of the forward pass

---
 src/flame/rf_cavity.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 6c84616..0376062 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -160,6 +160,8 @@ struct ElementRFCavity : public MomentElementBase
         using namespace boost::numeric::ublas;
 
         double x0[2], x2[2], s0[2];
+        // misalignment of a backward pass, the cached one belongs to the forward pass
+        std::vector<value_t> back_misalign, back_misalign_inv;
 
         // IonEk is Es + E_state; the latter is set by user.
         ST.recalc();
@@ -206,10 +208,12 @@ struct ElementRFCavity : public MomentElementBase
 
             ST.ref.phis -= (last_ref_out.phis - last_ref_in.phis);
             ST.ref.IonEk = last_ref_in.IonEk;
+            back_misalign = misalign;
+            back_misalign_inv = misalign_inv;
             for(size_t k=0; k<last_real_in.size(); k++) {
                 ST.real[k].phis -= (last_real_out[k].phis - last_real_in[k].phis);
                 ST.real[k].IonEk = last_real_in[k].IonEk;
-                get_misalign(ST, ST.real[k], misalign[k], misalign_inv[k]);
+                get_misalign(ST, ST.real[k], back_misalign[k], back_misalign_inv[k]);
             }
 
             ST.recalc();
@@ -276,8 +280,8 @@ struct ElementRFCavity : public MomentElementBase
             ST.pos -= length;
             value_t invmat = boost::numeric::ublas::identity_matrix<double>(state_t::maxsize);
             for(size_t i=0; i<last_real_in.size(); i++) {
-                scratch = prod(transfer[i], misalign[i]);
-                scratch = prod(misalign_inv[i], scratch);
+                scratch = prod(transfer[i], back_misalign[i]);
+                scratch = prod(back_misalign_inv[i], scratch);
 
                 inverse(invmat, scratch);
 
-- 
2.43.0


From 48d065fed246e497714164d114685d35431fface Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:35 +0000
Subject: [PATCH 05/60] fix: lookup by name follows an element renamed by
 reconfigure()

---
 src/base.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index ef0a1f6..7db6818 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -210,7 +210,16 @@ void Machine::reconfigure(size_t idx, const Config& c)
 
     element_builder_t *builder = eit->second;
 
-    builder->rebuild(p_elements[idx], c, idx);
+    ElementVoid *E = p_elements[idx];
+    const LookupKey oldkey(E->name, idx);
+
+    builder->rebuild(E, c, idx);
+
+    if(E->name!=oldkey.name) {
+        // renamed
+        p_lookup.erase(oldkey);
+        p_lookup.insert(std::make_pair(LookupKey(E->name, idx), E));
+    }
 }
 
 Machine::p_state_infos_t Machine::p_state_infos;
-- 
2.43.0


From b28157ebf3720ff8c6e80ab11b27efc893baaf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:06 +0000
Subject: [PATCH 06/60] fix: reconfigure() of a source in the Vector and
 TransferMatrix simulations

---
 src/linear.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linear.cpp b/src/linear.cpp
index 958595e..9b47f80 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -193,6 +193,12 @@ struct ElementSource : public Base
     virtual ~ElementSource() {}
 
     virtual const char* type_name() const {return "source";}
+
+    virtual void assign(const ElementVoid *other)
+    {
+        base_t::assign(other);
+        istate.assign(static_cast<const ElementSource*>(other)->istate);
+    }
 };
 
 template<typename Base>
-- 
2.43.0


From e28df8c04550dd77c46ed961d886ec0fad80b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:22 +0000
Subject: [PATCH 07/60] fix: a state without IonChargeStates starts from
 defined moments, not uninitialised memory

---
 src/moment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/moment.cpp b/src/moment.cpp
index a93f996..057b2b3 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -187,6 +187,8 @@ MomentState::MomentState(const Config& c)
         moment1[0].resize(maxsize, maxsize);
         transmat[0].resize(maxsize, maxsize);
 
+        moment0[0] = boost::numeric::ublas::zero_vector<double>(maxsize);
+        moment1[0] = boost::numeric::ublas::identity_matrix<double>(maxsize);
         load_storage(moment0[0].data(), c, vectorname, false);
         load_storage(moment1[0].data(), c, matrixname, false);
         transmat[0] = boost::numeric::ublas::identity_matrix<double>(maxsize);
-- 
2.43.0


From e32779dc2382f6495ae109c26be59cf4958cb7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:52 +0000
Subject: [PATCH 08/60] fix: charge stripper must reject short parameter arrays
 and an empty list of charge states

---
 src/chg_stripper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index 6c735ca..764ad9e 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -87,6 +87,11 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
     Stripper_Para = conf.get<std::vector<double> >("Stripper_Para", p1_default);
     Stripper_E0Para = conf.get<std::vector<double> >("Stripper_E0Para", p2_default);
 
+    if(Stripper_Para.size()<3 || Stripper_E0Para.size()<3)
+        throw std::runtime_error("charge stripper requires 3 elements in Stripper_Para[] and Stripper_E0Para[]");
+    if(ChgState.empty())
+        throw std::runtime_error("charge stripper requires at least one charge state in IonChargeStates[]");
+
     n = ChgState.size();
 
     if(chrgmdl=="off" )
-- 
2.43.0


From 215f6a76b3bafb2133da4a194a37e7f5e9a8d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:55 +0000
Subject: [PATCH 09/60] fix: reject empty field curves and empty, reversed or
 negative use_range

---
 src/moment_sup.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 85a74cd..a56d972 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -432,15 +432,20 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
         }
         if (!cvchecker)throw std::runtime_error(SB()<<"'curve" << num << "' is missing in lattice file.\n");
 
+        if (cv.empty())throw std::runtime_error(SB()<<"'curve" << num << "' is empty.\n");
+
         if (rngchecker){
             unsigned start, end;
             if (range.size() != 2)
                 throw std::runtime_error(SB()<<"Size of 'use_range' must be 2.\n");
+            if (!(range[0] >= 0.0 and range[0] <= cv.size() and range[1] >= 0.0 and range[1] <= cv.size()))
+                throw std::runtime_error(SB()<<"'use_range' is out of curve size.\n");
+
             start = static_cast<unsigned>(range[0]);
             end   = static_cast<unsigned>(range[1]);
 
-            if (start > cv.size() or end > cv.size())
-                throw std::runtime_error(SB()<<"'use_range' is out of curve size.\n");
+            if (start >= end)
+                throw std::runtime_error(SB()<<"'use_range' selects no points.\n");
 
             std::vector<double> part(cv.begin()+start, cv.begin()+end);
             Curves.push_back(part);
-- 
2.43.0


From 0c187430ada2fbe2ab58c45ab34b416b281362e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:48 +0000
Subject: [PATCH 10/60] fix: GLPSParser.parse() must release the parsed Config

---
 python/flame/modconfig.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index d1eed62..5450100 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -276,6 +276,7 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
 PyObject* PyGLPSParse(PyObject *unused, PyObject *args, PyObject *kws)
 {
     try{
-        return conf2dict(PyGLPSParse2Config(unused, args, kws));
+        std::auto_ptr<Config> conf(PyGLPSParse2Config(unused, args, kws));
+        return conf2dict(conf.get());
     }CATCH()
 }
-- 
2.43.0


From 51c10f1de5fddd5029149f4f8171e7f88f11dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:48 +0000
Subject: [PATCH 11/60] fix: Machine() must raise, not crash, when its
 arguments can't be turned into a Config

---
 python/flame/modmachine.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index af91b72..c0e68be 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -24,7 +24,12 @@ int PyMachine_init(PyObject *raw, PyObject *args, PyObject *kws)
 
         std::auto_ptr<Config> C(PyGLPSParse2Config(raw, args, kws));
 
-        machine->machine = new Machine(*C);
+        if(!C.get())
+            return -1; // a py exception is active
+
+        std::auto_ptr<Machine> M(new Machine(*C));
+        delete machine->machine; // repeated __init__()
+        machine->machine = M.release();
 
         return 0;
     } CATCH3(key_error, KeyError, -1)
-- 
2.43.0


From e896c3abbd6259ba2f4a63c14f6f7a4c46383407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:48 +0000
Subject: [PATCH 12/60] fix: propagate() must report a max or observe argument
 it can't use, and not wrap a large max around

---
 python/flame/modmachine.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index c0e68be..1efe370 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -169,7 +169,14 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
         if(!PyArg_ParseTupleAndKeywords(args, kws, "O|kOO", (char**)pnames, &state, &start, &pymax, &toobserv))
             return NULL;
 
-        if (pymax!=Py_None) max = (int) PyLong_AsLong(pymax);
+        if (pymax!=Py_None) {
+            long lmax = PyLong_AsLong(pymax);
+            if(lmax==-1 && PyErr_Occurred())
+                return NULL;
+            if(lmax>INT_MAX) lmax = INT_MAX;
+            else if(lmax<-INT_MAX) lmax = -INT_MAX;
+            max = (int)lmax;
+        }
 
         PyStoreObserver observer;
         PyScopedObserver observing(machine->machine);
@@ -184,6 +191,8 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
                 observing.observe(num, &observer);
 
             }
+            if(PyErr_Occurred())
+                throw std::runtime_error(""); // the iterator failed
         }
 
         machine->machine->propagate(unwrapstate(state), start, max);
-- 
2.43.0


From 64827ce2542921d46e8e5f5aa29a26832c9f81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:48 +0000
Subject: [PATCH 13/60] fix: methods of a Machine which was never initialized
 must raise, not crash

---
 python/flame/modmachine.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 1efe370..4cc5a9c 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -7,6 +7,8 @@
 
 #define TRY PyMachine *machine = reinterpret_cast<PyMachine*>(raw); try
 
+#define CHECK_INIT() if(!machine->machine) throw std::runtime_error("Machine is not initialized")
+
 namespace {
 
 struct PyMachine {
@@ -55,6 +57,7 @@ static
 PyObject *PyMachine_str(PyObject *raw)
 {
     TRY {
+        CHECK_INIT();
         std::ostringstream strm;
         strm << *(machine->machine);
         return PyString_FromString(strm.str().c_str());
@@ -65,6 +68,7 @@ static
 PyObject *PyMachine_conf(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
+        CHECK_INIT();
         PyObject *pyindex = Py_None;
         const char *pnames[] = {"index", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|O", (char**)pnames, &pyindex))
@@ -92,6 +96,7 @@ static
 PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
+        CHECK_INIT();
         PyObject *d = Py_None, *W = Py_False;
         const char *pnames[] = {"config", "inherit", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|OO", (char**)pnames, &d, &W))
@@ -162,6 +167,7 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
 {
 
     TRY {
+        CHECK_INIT();
         PyObject *state, *toobserv = Py_None, *pymax = Py_None;
         unsigned long start = 0;
         int max = INT_MAX;
@@ -209,6 +215,7 @@ static
 PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
+        CHECK_INIT();
         unsigned long idx;
         PyObject *conf, *replace = Py_False;
         const char *pnames[] = {"index", "config", "replace", NULL};
@@ -236,6 +243,7 @@ static
 PyObject *PyMachine_find(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
+        CHECK_INIT();
         const char *ename = NULL, *etype = NULL;
         const char *pnames[] = {"name", "type", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|zz", (char**)pnames, &ename, &etype))
@@ -272,6 +280,7 @@ static
 Py_ssize_t PyMachine_len(PyObject *raw)
 {
     TRY{
+        CHECK_INIT();
         return machine->machine->size();
     }CATCH1(-1)
 }
-- 
2.43.0


From b690e4ca495fec0ef9bf8ee5e28bcc62d7fc6c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:48 +0000
Subject: [PATCH 14/60] fix: a rejected State attribute assignment or deletion
 must raise and leave the state alone

---
 python/flame/modstate.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 5a071f2..2cf827c 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -139,6 +139,10 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
         PyObject *idx = PyDict_GetItem(state->attrs, attr);
         if(!idx)
             return PyObject_GenericSetAttr(raw, attr, val);
+        if(!val) {
+            PyErr_SetString(PyExc_TypeError, "can't delete State attribute");
+            return -1;
+        }
         int i = PyInt_AsLong(idx);
 
         StateBase::ArrayInfo info;
@@ -153,27 +157,35 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
 
             switch(info.type) {
             case StateBase::ArrayInfo::Double: {
-                double *dest = (double*)info.ptr;
+                double *dest = (double*)info.ptr, temp = 0.0;
                 if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
+                    temp = PyFloat_AsDouble(val);
                 else if(PyLong_Check(val))
-                    *dest = PyLong_AsDouble(val);
+                    temp = PyLong_AsDouble(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    temp = PyInt_AsLong(val);
                 else
                     PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                if(!PyErr_Occurred())
+                    *dest = temp;
             }
                 break;
             case StateBase::ArrayInfo::Sizet: {
-                size_t *dest = (size_t*)info.ptr;
-                if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
-                else if(PyLong_Check(val))
-                    *dest = PyLong_AsUnsignedLongLong(val);
+                size_t *dest = (size_t*)info.ptr, temp = 0u;
+                if(PyFloat_Check(val)) {
+                    double dtemp = PyFloat_AsDouble(val);
+                    if(dtemp>=0.0 && dtemp<9007199254740992.0) // 2^53
+                        temp = dtemp;
+                    else
+                        PyErr_Format(PyExc_ValueError, "Can't assign to integer field");
+                } else if(PyLong_Check(val))
+                    temp = PyLong_AsUnsignedLongLong(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    temp = PyInt_AsLong(val);
                 else
                     PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                if(!PyErr_Occurred())
+                    *dest = temp;
             }
                 break;
             default:
-- 
2.43.0


From 5ffc520dbe4d269a188c32877d4bde7a8693365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:08 +0000
Subject: [PATCH 15/60] fix: propagating a state of another simulation type
 must raise, not corrupt memory

---
 src/chg_stripper.cpp  | 2 +-
 src/flame/linear.h    | 2 +-
 src/flame/rf_cavity.h | 2 +-
 src/linear.cpp        | 2 +-
 src/moment.cpp        | 8 ++++----
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index 764ad9e..c97c03d 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -190,7 +190,7 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
 
 void ElementStripper::advance(StateBase &s)
 {
-    state_t& ST = static_cast<state_t&>(s);
+    state_t& ST = dynamic_cast<state_t&>(s);
 
     ST.recalc();
     ST.calc_rms(); // paranoia in case someone (python) has made moment0_env inconsistent
diff --git a/src/flame/linear.h b/src/flame/linear.h
index cd33adf..53ab38e 100644
--- a/src/flame/linear.h
+++ b/src/flame/linear.h
@@ -28,7 +28,7 @@ struct LinearElementBase : public ElementVoid
 
     virtual void advance(StateBase& s)
     {
-        State& ST = static_cast<State&>(s);
+        State& ST = dynamic_cast<State&>(s);
         advanceT(ST);
     }
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 0376062..9e01b84 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -156,7 +156,7 @@ struct ElementRFCavity : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         double x0[2], x2[2], s0[2];
diff --git a/src/linear.cpp b/src/linear.cpp
index 9b47f80..b2e618a 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -176,7 +176,7 @@ struct ElementSource : public Base
 
     virtual void advance(StateBase& s)
     {
-        state_t& ST = static_cast<state_t&>(s);
+        state_t& ST = dynamic_cast<state_t&>(s);
         // Replace state with our initial values
         ST.assign(istate);
     }
diff --git a/src/moment.cpp b/src/moment.cpp
index 057b2b3..8db2828 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -661,7 +661,7 @@ unsigned MomentElementBase::get_flag(const Config& c, const std::string& name, c
 
 void MomentElementBase::advance(StateBase& s)
 {
-    state_t&  ST = static_cast<state_t&>(s);
+    state_t&  ST = dynamic_cast<state_t&>(s);
     using namespace boost::numeric::ublas;
 
     // IonEk is Es + E_state; the latter is set by user.
@@ -795,7 +795,7 @@ struct ElementSource : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t& ST = static_cast<state_t&>(s);
+        state_t& ST = dynamic_cast<state_t&>(s);
         if (!ST.retreat)
             // Replace state with our initial values
             ST.assign(istate);
@@ -956,7 +956,7 @@ struct ElementSBend : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         // IonEk is Es + E_state; the latter is set by user.
@@ -1163,7 +1163,7 @@ struct ElementSext : public MomentElementBase
         const bool   thinlens = conf().get<double>("thinlens", 0.0) == 1.0,
                      dstkick = conf().get<double>("dstkick", 1.0) == 1.0;
 
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         ST.recalc();
-- 
2.43.0


From 7f540a87d5b70c4e30f27003a19934d90b97011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:08 +0000
Subject: [PATCH 16/60] fix: VectorState::show() must override
 StateBase::show(), so that vector states print

---
 src/flame/state/vector.h | 2 +-
 src/linear.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flame/state/vector.h b/src/flame/state/vector.h
index e5e3383..f79b9f8 100644
--- a/src/flame/state/vector.h
+++ b/src/flame/state/vector.h
@@ -26,7 +26,7 @@ struct VectorState : public StateBase
                     boost::numeric::ublas::bounded_array<double, maxsize>
     > value_t;
 
-    virtual void show(std::ostream& strm) const;
+    virtual void show(std::ostream& strm, int level) const;
 
     value_t state;
 
diff --git a/src/linear.cpp b/src/linear.cpp
index b2e618a..4f5e60c 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -101,7 +101,7 @@ void VectorState::assign(const StateBase& other)
     StateBase::assign(other);
 }
 
-void VectorState::show(std::ostream& strm) const
+void VectorState::show(std::ostream& strm, int level) const
 {
     strm<<"State: "<<state<<"\n";
 }
-- 
2.43.0


From 43dcace83dc664e8c79b4e36dbb576aa25ae97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:08 +0000
Subject: [PATCH 17/60] fix: python strings with an embedded nil must be
 refused, not cut short

---
 python/flame/pyflame.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/flame/pyflame.h b/python/flame/pyflame.h
index fa864ce..f732c3f 100644
--- a/python/flame/pyflame.h
+++ b/python/flame/pyflame.h
@@ -150,8 +150,8 @@ struct PyCString
         return c_str();
     }
     const char *c_str() const {
-        const char *ret = PyBytes_AsString(pystr.py());
-        if(!ret)
+        char *ret = NULL;
+        if(PyBytes_AsStringAndSize(pystr.py(), &ret, NULL)) // also refuses embedded nil
             throw std::invalid_argument("Can't extract string from object");
         return ret;
 
-- 
2.43.0


From b619fdb583c9eb98ea01d655f7be739bd2cbdd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:32 +0000
Subject: [PATCH 18/60] fix: in a configuration given as dict or list, elements
 inherit all globals whatever the order of items

---
 python/flame/modconfig.cpp | 50 ++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 5450100..7e0e4b8 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -24,6 +24,10 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
     if(depth>3)
         throw std::runtime_error("too deep for Dict2Config");
 
+    // elements inherit from the scope which contains them, so lists of elements are handled
+    // after everything else.  The order of items must not matter.
+    PyRef<> nested(PyList_New(0));
+
     PyRef<> iter(PyObject_GetIter(list));
     while(true) {
         PyObject *item = PyIter_Next(iter.py());
@@ -55,33 +59,43 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
             ret.set<std::string>(kname, val);
 
         } else if(PySequence_Check(value)) { // list of dict
-            Py_ssize_t N = PySequence_Size(value);
+            if(PyList_Append(nested.py(), item))
+                throw std::runtime_error("Failed to append nested item");
 
-            Config::vector_t output;
-            output.reserve(N);
+        } else {
+            PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(value);
+            throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
+        }
+    }
 
-            for(Py_ssize_t i=0; i<N; i++) {
-                PyRef<> elem(PySequence_GetItem(value, i));
+    for(Py_ssize_t n=0; n<PyList_Size(nested.py()); n++) {
+        const char *kname;
+        PyObject *value;
+        if(!PyArg_ParseTuple(PyList_GetItem(nested.py(), n), "sO", &kname, &value))
+            throw std::runtime_error("list item is not a tuple?");
+
+        Py_ssize_t N = PySequence_Size(value);
 
-                if(PyDict_Check(elem.py())) {
-                    elem.reset(PyMapping_Items(elem.py()));
-                }
-                if(!PyList_Check(elem.py())) {
-                    PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(elem.py());
-                    throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
-                }
+        Config::vector_t output;
+        output.reserve(N);
 
-                output.push_back(ret.new_scope());
+        for(Py_ssize_t i=0; i<N; i++) {
+            PyRef<> elem(PySequence_GetItem(value, i));
 
-                List2Config(output.back(), elem.py(), depth+1); // inheirt parent scope
+            if(PyDict_Check(elem.py())) {
+                elem.reset(PyMapping_Items(elem.py()));
+            }
+            if(!PyList_Check(elem.py())) {
+                PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(elem.py());
+                throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
             }
 
-            ret.set<Config::vector_t>(kname, output);
+            output.push_back(ret.new_scope());
 
-        } else {
-            PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(value);
-            throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
+            List2Config(output.back(), elem.py(), depth+1); // inheirt parent scope
         }
+
+        ret.set<Config::vector_t>(kname, output);
     }
 }
 
-- 
2.43.0


From 6adda0bfde2a5a158781e94c71e19ef293f56066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:46 +0000
Subject: [PATCH 19/60] fix: parse errors from division, line repetition and
 h5file must name the line, not line 0

---
 src/glps_ops.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index 105f387..bcf164f 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -84,7 +84,7 @@ int binary_div(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 {
     double result = boost::get<double>(A[0]->value)/boost::get<double>(A[1]->value);
     if(!isfinite(result)) {
-        ctxt->last_error = "division results in non-finite value";
+        glps_error(ctxt->scanner, ctxt, "division results in non-finite value");
         return 1;
     }
     *R = result;
@@ -115,7 +115,7 @@ int binary_bl_mult(parse_context* ctxt, expr_value_t *R, const expr_t * const *A
     double factor = boost::get<double>(A[MULT]->value);
 
     if(factor<0.0 || factor>std::numeric_limits<unsigned>::max()) {
-        ctxt->last_error = "beamline scale by negative value or out of range value";
+        glps_error(ctxt->scanner, ctxt, "beamline scale by negative value or out of range value");
         return 1;
     }
     unsigned factori = (unsigned)factor;
@@ -160,7 +160,7 @@ int unary_file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
     if(!exists(ret)) {
         std::ostringstream strm;
         strm<<"\""<<ret<<"\" does not exist";
-        ctxt->last_error = strm.str();
+        glps_error(ctxt->scanner, ctxt, "%s", strm.str().c_str());
         return 1;
     }
 
@@ -197,8 +197,8 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 
     std::ostringstream strm;
     strm<<"\""<<inp<<"\" does not exist";
-  ctxt->last_error = strm.str();
-  return 1;
+    glps_error(ctxt->scanner, ctxt, "%s", strm.str().c_str());
+    return 1;
 }
 #endif
 
-- 
2.43.0


From f24b58d6035454b1139247b965685d3d7eb4b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:46 +0000
Subject: [PATCH 20/60] fix: repeating a beamline NaN times must be an error

---
 src/glps_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index bcf164f..ed97e8b 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -114,7 +114,7 @@ int binary_bl_mult(parse_context* ctxt, expr_value_t *R, const expr_t * const *A
 
     double factor = boost::get<double>(A[MULT]->value);
 
-    if(factor<0.0 || factor>std::numeric_limits<unsigned>::max()) {
+    if(!(factor>=0.0 && factor<=std::numeric_limits<unsigned>::max())) { // also catches NaN
         glps_error(ctxt->scanner, ctxt, "beamline scale by negative value or out of range value");
         return 1;
     }
-- 
2.43.0


From cab9e6fb757f58b5996ed01877277ce2866b6790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:46 +0000
Subject: [PATCH 21/60] fix: h5file() must accept a path without a group, and
 reject an absolute path which doesn't exist

---
 src/glps_ops.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index ed97e8b..dc00658 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -180,19 +180,16 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
      * so do as h5ls does and strip off from the right hand side until
      * and try to open while '/' remain.
      */
-    size_t sep = inp.npos;
-
-    while(true) {
-        sep = inp.find_last_of('/', sep-1);
+    size_t sep = inp.size();
 
+    while(sep!=0 && sep!=inp.npos) {
         path fname(absolute(inp.substr(0, sep), ctxt->cwd));
 
         if(exists(fname)) {
             *R = canonical(fname).native() + inp.substr(sep);
             return 0;
-        } else if(sep==inp.npos) {
-            break;
         }
+        sep = inp.find_last_of('/', sep-1);
     }
 
     std::ostringstream strm;
-- 
2.43.0


From 4a3a2999cf5c0f40a6b33255981ab99d7d11e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:46 +0000
Subject: [PATCH 22/60] fix: don't refuse a lattice of 10000 statements, or a
 vector or beamline of 5000 entries

---
 src/glps.y | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glps.y b/src/glps.y
index cdd87c5..e23f695 100644
--- a/src/glps.y
+++ b/src/glps.y
@@ -4,6 +4,10 @@
 #include <stdlib.h>
 #include "glps_parser.h"
 
+/* the grammar is right recursive, so the default of 10000 would limit the number
+ * of statements in a file, and of entries in a vector or beamline */
+#define YYMAXDEPTH 10000000
+
 #undef yyerror
 static inline
 void yyerror (yacc_arg arg, const char* msg)
-- 
2.43.0


From d7a6ba54354289e2638aeff85a2047560f9b9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:41 +0000
Subject: [PATCH 23/60] fix: a printed configuration must parse when a variable
 has the name of an element

---
 src/config.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/config.cpp b/src/config.cpp
index df2468f..cdcd251 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -498,11 +498,21 @@ struct glps_show : public boost::static_visitor<void>
 
 void GLPSPrint(std::ostream& strm, const Config& conf)
 {
+    // A variable hides an element of the same name, so it can't be defined before the beamline.
+    std::set<std::string> enames;
+    {
+        Config::vector_t elements;
+        conf.tryGet<Config::vector_t>("elements", elements);
+        for(size_t i=0; i<elements.size(); i++)
+            enames.insert(elements[i].get<std::string>("name", ""));
+    }
+
     // print variables
     for(Config::const_iterator it=conf.begin(), end=conf.end();
         it!=end; ++it)
     {
-        boost::apply_visitor(glps_show(strm, it->first), it->second);
+        if(enames.find(it->first)==enames.end())
+            boost::apply_visitor(glps_show(strm, it->first), it->second);
     }
 
     const Config::vector_t *v;
@@ -570,4 +580,11 @@ void GLPSPrint(std::ostream& strm, const Config& conf)
     }
 
     strm<<");\nUSE: "<<lname<<";\n";
+
+    for(Config::const_iterator it=conf.begin(), end=conf.end();
+        it!=end; ++it)
+    {
+        if(enames.find(it->first)!=enames.end())
+            boost::apply_visitor(glps_show(strm, it->first), it->second);
+    }
 }
-- 
2.43.0


From 055e48a7e5994f03aec0a5cdb19b1684d25cbc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:42 +0000
Subject: [PATCH 24/60] fix: numeric tables must reject an unparsable value at
 the end of a line, and skip blank lines ending in CR LF

---
 src/util.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index e09378b..318980f 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -37,13 +37,11 @@ void numeric_table::read(std::istream &strm)
         line++;
         values.clear();
 
-        size_t cpos = rawline.find_first_not_of(" \t");
+        size_t cpos = rawline.find_last_not_of(" \t\r\n");
         if(cpos==rawline.npos)
-            continue; // skip blank and comment lines
+            continue; // skip blank lines
 
-        cpos = rawline.find_last_not_of("\r\n");
-        if(cpos!=rawline.npos)
-            rawline = rawline.substr(0, cpos+1);
+        rawline = rawline.substr(0, cpos+1);
 
         if(rawline[0]=='%') {
             // headers
@@ -75,7 +73,7 @@ void numeric_table::read(std::istream &strm)
                     values.push_back(val);
             }
 
-            if(!lstrm.eof() && lstrm.fail())
+            if(lstrm.fail())
                 throw std::runtime_error(SB()<<"Error parsing data line "<<line<<" '"<<rawline<<"'");
 
             if(!table.empty() && table.back().size()!=values.size())
-- 
2.43.0


From bae8456caaa93388a4d0953a4f7c9d334a5bf200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:42 +0000
Subject: [PATCH 25/60] fix: a cavity's thinlenlon file with a short line must
 be rejected, blank lines may end in CR LF

---
 src/rf_cavity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 327fd8d..6d5a086 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -774,7 +774,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
             while(std::getline(fstrm, rawline)) {
                 line++;
 
-                size_t cpos = rawline.find_first_not_of(" \t");
+                size_t cpos = rawline.find_first_not_of(" \t\r");
                 if(cpos==rawline.npos || rawline[cpos]=='%')
                     continue; // skip blank and comment lines
 
@@ -791,7 +791,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 else
                     params.E0 = 0.0;
 
-                if(lstrm.fail() && !lstrm.eof()) {
+                if(lstrm.fail()) {
                     throw std::runtime_error(SB()<<"Error parsing line '"<<line<<"' in '"<<cavfile<<"'");
                 }
                 lattice.push_back(params);
-- 
2.43.0


From 8a32afd84b0ab45b02370321a725645a43f7916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:03 +0000
Subject: [PATCH 26/60] fix: RF cavity data with missing, short or odd sized
 arrays must raise an error, not crash or read out of bounds

---
 src/rf_cavity.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 6d5a086..e9f455a 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -636,6 +636,8 @@ double GetCavPhase(const int cavi, const Particle& ref, const double IonFys, con
         Fyc = 5.428*pow(IonEk, -0.5008) + 1.6;
         break;
     case 0:
+        if (P.size()<3)
+            throw std::runtime_error("No AccGap to define the synchronous phase in RF cavity file");
         Fyc = P[0]*pow(IonEk,P[1])- P[2];
         break;
     default:
@@ -751,8 +753,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         try{
             numeric_table_cache::table_pointer ent = cache->fetch(fldmap);
             CavData = *ent;
-            if(CavData.table.size1()==0 || CavData.table.size2()<2)
-                throw std::runtime_error("field map needs 2+ columns");
+            if(CavData.table.size1()<2 || CavData.table.size2()<2)
+                throw std::runtime_error("field map needs 2+ rows and columns");
         }catch(std::exception& e){
             throw std::runtime_error(SB()<<"Error parsing '"<<fldmap<<"' : "<<e.what());
         }
@@ -809,15 +811,10 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         if ( CavConfMap.find(key) == CavConfMap.end() ) {
             // not found in CavConfMap
             try {
-                try {
-                    GLPSParser P;
-                    conf.reset(P.parse_file(DataFile.c_str()));
-                }catch(std::exception& e){
-                    std::cerr<<"Parse error: "<<e.what()<<"\n";
-                }
-
+                GLPSParser P;
+                conf.reset(P.parse_file(DataFile.c_str()));
             }catch(std::exception& e){
-                std::cerr<<"Error: "<<e.what()<<"\n";
+                throw std::runtime_error(SB()<<"Error parsing '"<<DataFile<<"' : "<<e.what());
             }
             CavConfMap.insert(std::make_pair(key, conf));
         } else {
@@ -843,6 +840,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 const double eV0(EC.get<double>("V0"));
                 params.E0 = eV0;
                 EC.tryGet<std::vector<double> >("attr", attrs);
+                if(attrs.size() < (etype=="AccGap" ? 23u : 20u))
+                    throw std::runtime_error(SB()<<"'attr' of "<<etype<<" has too few values in RF cavity file.\n");
                 for(int i=0; i<10; i++)
                 {
                     params.Tfit.push_back(attrs[i]);
@@ -867,6 +866,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         std::vector<double> Ez;
         bool checker = conf->tryGet<std::vector<double> >("Ez", Ez);
         if (!checker) throw std::runtime_error(SB()<<"'Ez' is missing in RF cavity file.\n");
+        if (Ez.size()<4 || Ez.size()%2!=0)
+            throw std::runtime_error(SB()<<"'Ez' needs 2 columns and 2+ rows in RF cavity file.\n");
         CavData.readvec(Ez,2);
         conf->tryGet<double>("Rm",cRm);
 
@@ -875,6 +876,9 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         have_SynComplex = conf->tryGet<std::vector<double> >("SyncFit", SynComplex);
         have_EkLim = conf->tryGet<std::vector<double> >("EnergyLimit", EkLim);
         have_NrLim = conf->tryGet<std::vector<double> >("NormLimit", NrLim);
+
+        if ((have_EkLim && EkLim.size()<2) || (have_NrLim && NrLim.size()<2))
+            throw std::runtime_error(SB()<<"'EnergyLimit' and 'NormLimit' need 2 values in RF cavity file.\n");
     }
 }
 
@@ -1199,6 +1203,8 @@ void ElementRFCavity::GenCavMat2(const int cavi, const double dis, const double
             //IonFy = IonFy + real.IonZ*V0s[0]*kfac*(TTF_tab[2]*sin(IonFy)
             //        + TTF_tab[4]*cos(IonFy))/2/((gamma-1)*real.IonEs/MeVtoeV); //TTF_tab[2]~Tp
             seg    = seg + 1;
+            if (seg > 2)
+                throw std::runtime_error("RF cavity lattice has more than 2 AccGap");
             beta   = beta_tab[seg];
             gamma  = gamma_tab[seg];
             kfac   = 2e0*M_PI/(beta*Lambda);
@@ -1344,7 +1350,7 @@ void ElementRFCavity::GetCavMatGeneric(Particle &real, const double EfieldScl, c
             kfdy = kfdx;
             if(logme) {
                 FLAME_LOG(FINE)<<" X EFocus1 kfdx="<<kfdx<<"\n"
-                         <<" Y "<<linetab.E0[n]<<" "<<EfieldScl<<" "<<beta
+                         <<" Y "<<P.E0<<" "<<EfieldScl<<" "<<beta
                          <<" "<<gamma<<" "<<IonFy<<" "<<cRm<<"\n Z "<<T<<" "<<S<<"\n";
             }
 
-- 
2.43.0


From f599652d61105cfc8277d9a89723b0d33c1c9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:03 +0000
Subject: [PATCH 27/60] fix: reconfigure() of an RF cavity must take over
 everything read from its data file

---
 src/flame/rf_cavity.h | 12 ++++++++++++
 src/rf_cavity.cpp     |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 9e01b84..0ffd588 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -144,6 +144,18 @@ struct ElementRFCavity : public MomentElementBase
         mlptable      = O->mlptable;
         CavData       = O->CavData;
         CavTLMLineTab = O->CavTLMLineTab;
+        CavType       = O->CavType;
+        DataPath      = O->DataPath;
+        DataFile      = O->DataFile;
+        SynAccTab     = O->SynAccTab;
+        have_RefNrm     = O->have_RefNrm;
+        have_SynComplex = O->have_SynComplex;
+        have_EkLim      = O->have_EkLim;
+        have_NrLim      = O->have_NrLim;
+        RefNrm        = O->RefNrm;
+        SynComplex    = O->SynComplex;
+        EkLim         = O->EkLim;
+        NrLim         = O->NrLim;
         fRF           = O->fRF;
         IonFys        = O->IonFys;
         phi_ref       = O->phi_ref;
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index e9f455a..147ed20 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -693,6 +693,11 @@ void EvalGapModel(const double dis, const double IonW0, const Particle &real, co
 
 ElementRFCavity::ElementRFCavity(const Config& c)
     :base_t(c)
+    ,have_RefNrm(false)
+    ,have_SynComplex(false)
+    ,have_EkLim(false)
+    ,have_NrLim(false)
+    ,RefNrm(0.0)
 {
     ElementRFCavity::LoadCavityFile(c);
 }
-- 
2.43.0


From 3a521dc56e4c82c4f5ff69197f594946cb782567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:43 +0000
Subject: [PATCH 28/60] fix: the caches of data files must follow the content
 of the files, not their time stamps

---
 src/flame/util.h   |  4 ++++
 src/moment_sup.cpp |  2 +-
 src/rf_cavity.cpp  |  2 +-
 src/util.cpp       | 24 +++++++++++++++++-------
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/flame/util.h b/src/flame/util.h
index 7dd7d5f..548ae28 100644
--- a/src/flame/util.h
+++ b/src/flame/util.h
@@ -83,6 +83,10 @@ struct numeric_table {
     void readvec(std::vector<double> vec, int numrow);
 };
 
+//! Read the whole content of a file.
+//! @throws std::runtime_error if the file can't be read
+std::string read_file(const std::string& path);
+
 class numeric_table_cache {
     struct Pvt;
     std::auto_ptr<Pvt> pvt;
diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index a56d972..0750bec 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -399,7 +399,7 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
     if (checker){
         std::string CurveFile =  c.get<std::string>("Eng_Data_Dir", defpath);
         CurveFile += "/" + filename;
-        std::string key(SB()<<CurveFile<<"|"<<boost::filesystem::last_write_time(CurveFile));
+        std::string key(SB()<<CurveFile<<"|"<<read_file(CurveFile));
         if ( CurveMap.find(key) == CurveMap.end() ) {
             // not found in CurveMap
             try {
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 147ed20..68e79fb 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -812,7 +812,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
     else
     {
         boost::shared_ptr<Config> conf;
-        std::string key(SB()<<DataFile<<"|"<<boost::filesystem::last_write_time(DataFile));
+        std::string key(SB()<<DataFile<<"|"<<read_file(DataFile));
         if ( CavConfMap.find(key) == CavConfMap.end() ) {
             // not found in CavConfMap
             try {
diff --git a/src/util.cpp b/src/util.cpp
index 318980f..9f1c3d2 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -1,7 +1,6 @@
 
 #include <fstream>
-
-#include <ctime>
+#include <iterator>
 
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/thread/mutex.hpp>
@@ -107,11 +106,21 @@ void numeric_table::read(std::istream &strm)
     }
 }
 
+std::string read_file(const std::string& path)
+{
+    std::ifstream strm(path.c_str(), std::ios::in|std::ios::binary);
+    if(!strm.is_open())
+        throw std::runtime_error(SB()<<"Unable to read '"<<path<<"'");
+
+    return std::string(std::istreambuf_iterator<char>(strm),
+                       std::istreambuf_iterator<char>());
+}
+
 struct numeric_table_cache::Pvt {
     boost::mutex lock;
 
     struct Value {
-        std::time_t lastmod;
+        std::string content;
         typedef boost::shared_ptr<numeric_table> table_pointer;
         table_pointer table;
     };
@@ -134,22 +143,23 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
     if(!P.is_absolute())
         throw std::logic_error("numeric_table_cache want's absolute paths");
 
-    std::time_t mtime = boost::filesystem::last_write_time(P);
+    // time stamps are too coarse (and may be set back) to recognize a changed file
+    const std::string content(read_file(path));
 
     boost::mutex::scoped_lock L(pvt->lock);
 
     Pvt::cache_t::const_iterator it = pvt->cache.find(path);
-    if(it==pvt->cache.end() || mtime>it->second.lastmod) {
+    if(it==pvt->cache.end() || content!=it->second.content) {
         // miss
 
         ret.reset(new numeric_table);
 
-        std::ifstream strm(path.c_str());
+        std::istringstream strm(content);
 
         ret->read(strm);
 
         Pvt::Value v;
-        v.lastmod = boost::filesystem::last_write_time(P); // fetch again to avoid some, but not all, races
+        v.content = content;
         v.table = ret;
 
         pvt->cache[path] = v;
-- 
2.43.0


From c8db12d8872ee30d1803a0fe06407c2a01def112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:11 +0000
Subject: [PATCH 29/60] fix: the parser must delete, not free(), the name of a
 property left over by a syntax error

---
 src/glps.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps.y b/src/glps.y
index e23f695..a5c2a37 100644
--- a/src/glps.y
+++ b/src/glps.y
@@ -60,7 +60,7 @@ void yyerror (yacc_arg arg, const char* msg)
 %printer { fprintf(yyoutput, "%p", $$); } line_list;
 
 %union { kv_t kv; }
-%destructor { free($$.key); $$.key = NULL;glps_expr_cleanup($$.value); } <kv>
+%destructor { glps_string_cleanup($$.key); $$.key = NULL;glps_expr_cleanup($$.value); } <kv>
 %type <kv> property
 
 %token COMMENT
-- 
2.43.0


From 35e957ca19194513570ec24f1fa4d3f7f92e0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:48 +0000
Subject: [PATCH 30/60] fix: a Machine which can't be constructed must not leak
 the elements already built

---
 src/base.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index 7db6818..2b8b2fc 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -103,9 +103,16 @@ Machine::Machine(const Config& c)
     typedef Config::vector_t elements_t;
     elements_t Es(c.get<elements_t>("elements"));
 
-    p_elements_t result;
+    // owns the elements until construction is complete
+    struct elements_guard {
+        p_elements_t list;
+        ~elements_guard() {
+            for(p_elements_t::iterator it=list.begin(), end=list.end(); it!=end; ++it)
+                delete *it;
+        }
+    } result;
     p_lookup_t result_l, result_t;
-    result.reserve(Es.size());
+    result.list.reserve(Es.size());
 
     size_t idx=0;
     for(elements_t::iterator it=Es.begin(), end=Es.end(); it!=end; ++it)
@@ -136,6 +143,8 @@ Machine::Machine(const Config& c)
             throw std::runtime_error(strm.str());
         }
 
+        result.list.push_back(E);
+
         if(E->type_name()!=etype) {
             std::ostringstream strm;
             strm<<"Element type inconsistent "<<etype<<" "<<E->type_name();
@@ -144,14 +153,13 @@ Machine::Machine(const Config& c)
 
         *const_cast<size_t*>(&E->index) = idx++; // ugly
 
-        result.push_back(E);
         result_l.insert(std::make_pair(LookupKey(E->name, E->index), E));
         result_t.insert(std::make_pair(LookupKey(etype, E->index), E));
     }
 
     G.unlock();
 
-    p_elements.swap(result);
+    p_elements.swap(result.list);
     p_lookup.swap(result_l);
     p_lookup_type.swap(result_t);
     FLAME_LOG(DEBUG)<<"Complete constructing Machine w/ sim_type='"<<type<<'\'';
-- 
2.43.0


From 35c9505b133caead8374dfde4915623620068969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:56 +0000
Subject: [PATCH 31/60] fix: a lattice file which parse()s itself must be an
 error, not overflow the stack

---
 src/config.cpp     | 10 +++++++++-
 src/flame/config.h |  2 ++
 src/glps_ops.cpp   |  7 ++++++-
 src/glps_parser.h  |  3 +++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/config.cpp b/src/config.cpp
index cdcd251..e9e1b66 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -249,11 +249,13 @@ struct GLPSParser::Pvt {
     typedef Config::values_t values_t;
     values_t vars;
     std::ostream *printer;
+    unsigned depth;
 
-    Pvt() :printer(&std::cerr) {}
+    Pvt() :printer(&std::cerr), depth(0) {}
 
     void fill_vars(parse_context& ctxt)
     {
+        ctxt.depth = depth;
         for(values_t::const_iterator it=vars.begin(), end=vars.end(); it!=end; ++it)
         {
             // fill in ctxt.vars and ctxt.var_idx
@@ -360,6 +362,12 @@ GLPSParser::setPrinter(std::ostream* strm)
     priv->printer = strm;
 }
 
+void
+GLPSParser::setDepth(unsigned depth)
+{
+    priv->depth = depth;
+}
+
 Config*
 GLPSParser::parse_file(const char *fname, const bool have_lattice)
 {
diff --git a/src/flame/config.h b/src/flame/config.h
index ec59d4d..118f48d 100644
--- a/src/flame/config.h
+++ b/src/flame/config.h
@@ -254,6 +254,8 @@ public:
     void setVar(const std::string& name, const Config::value_t& v);
     //! @brief Set output for lexer/parser error messages
     void setPrinter(std::ostream*);
+    //! @brief Set how many parse() calls in lattice files lead to this one
+    void setDepth(unsigned);
 
     /** @brief Open and parse a file
      *
diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index dc00658..2fdfdac 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -143,8 +143,13 @@ int unary_parse(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
     assert(A[0]->etype==glps_expr_string);
     path name(canonical(boost::get<std::string>(A[0]->value), ctxt->cwd));
 
+    // a file may (indirectly) parse() itself
+    if(ctxt->depth>=100)
+        throw std::runtime_error("parse() of files nested too deeply");
+
     GLPSParser P;
     P.setPrinter(ctxt->printer);
+    P.setDepth(ctxt->depth+1);
 
     boost::shared_ptr<Config> ret(P.parse_file(name.native().c_str()));
     *R = ret;
@@ -202,7 +207,7 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 } // namespace
 
 parse_context::parse_context(const char *path)
-    :last_line(0), printer(NULL), error_scratch(300), scanner(NULL)
+    :last_line(0), printer(NULL), error_scratch(300), depth(0), scanner(NULL)
 {
     if(path)
         cwd = boost::filesystem::canonical(path);
diff --git a/src/glps_parser.h b/src/glps_parser.h
index 521a2f1..71ed494 100644
--- a/src/glps_parser.h
+++ b/src/glps_parser.h
@@ -182,6 +182,9 @@ struct parse_context {
     //! Used to expand relative paths
     boost::filesystem::path cwd;
 
+    //! How many parse() calls lead to this file
+    unsigned depth;
+
     //! Initialize context, including populating operations table
     parse_context(const char *path=NULL);
     ~parse_context();
-- 
2.43.0


From cce83ac2212cbb707a52ecaa1d3bd77fd17fa817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:33 +0000
Subject: [PATCH 32/60] fix: Config::flatten() and push_scope() must not change
 configurations sharing the same values

---
 src/config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.cpp b/src/config.cpp
index e9e1b66..f6d7631 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -116,6 +116,7 @@ void Config::push_scope()
 void Config::flatten()
 {
     if(implicit_values) {
+        _cow(); // values may be shared with copies, or as the implicit_values of an inner scope
         values->insert(implicit_values->begin(),
                        implicit_values->end());
         implicit_values.reset();
-- 
2.43.0


From b4e958e0b9a5b88bbdf013ade94d0753310cfe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:33 +0000
Subject: [PATCH 33/60] fix: Config::swap<T>() must exchange the values, and
 compile for numbers, as documented

---
 src/flame/config.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flame/config.h b/src/flame/config.h
index 118f48d..811929d 100644
--- a/src/flame/config.h
+++ b/src/flame/config.h
@@ -193,9 +193,11 @@ public:
               typename boost::call_traits<typename detail::is_config_value<T>::type>::reference val)
     {
         value_t temp = detail::buildval<T>::op();
-        val.swap(boost::get<T>(temp));
+        std::swap(val, boost::get<T>(temp));
         swapAny(name, temp);
-        //val.swap(boost::get<T>(temp)); // TODO: detect insert, make this a real swap
+        // an inserted parameter, or one of another type, leaves an empty value
+        if(T* prev = boost::get<T>(&temp))
+            std::swap(val, *prev);
     }
 
     //! Exchange entire Config
-- 
2.43.0


From 64cbff41bf076a9beec3eec0c5bdef3d8a98a4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:25 +0000
Subject: [PATCH 34/60] fix: a number in a thinlenlon file must not run into
 other characters

---
 src/rf_cavity.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 68e79fb..db1c3d1 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -798,7 +798,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 else
                     params.E0 = 0.0;
 
-                if(lstrm.fail()) {
+                // a number must not run into other characters
+                if(lstrm.fail() || (!lstrm.eof() && !isspace(lstrm.peek()))) {
                     throw std::runtime_error(SB()<<"Error parsing line '"<<line<<"' in '"<<cavfile<<"'");
                 }
                 lattice.push_back(params);
-- 
2.43.0


From ec8d46e7e23b4d7a05339f45ce20d0be7701da7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:46 +0000
Subject: [PATCH 35/60] fix: a list with an item that is no tuple is a plain
 error, not a SystemError

---
 python/flame/modconfig.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 7e0e4b8..6eab2d7 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -35,6 +35,8 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
         PyRef<> itemref(item);
         const char *kname;
         PyObject *value;
+        if(!PyTuple_Check(item))
+            throw std::invalid_argument("Must be a dict or a list of tuples");
         if(!PyArg_ParseTuple(item, "sO", &kname, &value))
             throw std::runtime_error("list item is not a tuple?");
 
-- 
2.43.0


From 392602978def5aad08f955f09e32c50800a6dece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:46 +0000
Subject: [PATCH 36/60] fix: a flag argument without truth value must raise its
 own exception

---
 python/flame/modmachine.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 4cc5a9c..499b552 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -11,6 +11,15 @@
 
 namespace {
 
+//! bool() of a python object
+bool is_true(PyObject *obj)
+{
+    int ret = PyObject_IsTrue(obj);
+    if(ret<0)
+        throw std::runtime_error("not a bool"); // a py exception is active
+    return ret;
+}
+
 struct PyMachine {
     PyObject_HEAD
 
@@ -106,7 +115,7 @@ PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
         if(d==Py_None) {
             C = machine->machine->conf();
         } else if(PyDict_Check(d)) {
-            if(PyObject_IsTrue(W)) {
+            if(is_true(W)) {
                 C = machine->machine->conf();
                 C.push_scope();
             }
@@ -226,7 +235,7 @@ PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
             return PyErr_Format(PyExc_ValueError, "invalid element index %lu", idx);
 
         Config newconf;
-        if(!PyObject_IsTrue(replace))
+        if(!is_true(replace))
             newconf = (*machine->machine)[idx]->conf();
 
         PyRef<> list(PyMapping_Items(conf));
-- 
2.43.0


From ee9b2397f535de9d0bc6ef66348eb5392f4107b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:54 +0000
Subject: [PATCH 37/60] fix: element indices beyond the range of an integer
 must not be reduced modulo 2**64

---
 python/flame/modmachine.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 499b552..c0f564b 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -20,6 +20,19 @@ bool is_true(PyObject *obj)
     return ret;
 }
 
+//! An element index (not reduced modulo 2**N as the "k" format would)
+unsigned long as_index(PyObject *obj)
+{
+    PyRef<> num(PyNumber_Index(obj));
+    unsigned long ret = PyLong_AsUnsignedLong(num.py());
+    if(PyErr_Occurred()) {
+        if(PyErr_ExceptionMatches(PyExc_OverflowError))
+            PyErr_Clear();
+        throw std::invalid_argument("invalid element index");
+    }
+    return ret;
+}
+
 struct PyMachine {
     PyObject_HEAD
 
@@ -177,13 +190,16 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
 
     TRY {
         CHECK_INIT();
-        PyObject *state, *toobserv = Py_None, *pymax = Py_None;
+        PyObject *state, *pystart = NULL, *toobserv = Py_None, *pymax = Py_None;
         unsigned long start = 0;
         int max = INT_MAX;
         const char *pnames[] = {"state", "start", "max", "observe", NULL};
-        if(!PyArg_ParseTupleAndKeywords(args, kws, "O|kOO", (char**)pnames, &state, &start, &pymax, &toobserv))
+        if(!PyArg_ParseTupleAndKeywords(args, kws, "O|OOO", (char**)pnames, &state, &pystart, &pymax, &toobserv))
             return NULL;
 
+        if(pystart)
+            start = as_index(pystart);
+
         if (pymax!=Py_None) {
             long lmax = PyLong_AsLong(pymax);
             if(lmax==-1 && PyErr_Occurred())
@@ -225,12 +241,12 @@ PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
         CHECK_INIT();
-        unsigned long idx;
-        PyObject *conf, *replace = Py_False;
+        PyObject *pyidx, *conf, *replace = Py_False;
         const char *pnames[] = {"index", "config", "replace", NULL};
-        if(!PyArg_ParseTupleAndKeywords(args, kws, "kO!|O", (char**)pnames, &idx, &PyDict_Type, &conf, &replace))
+        if(!PyArg_ParseTupleAndKeywords(args, kws, "OO!|O", (char**)pnames, &pyidx, &PyDict_Type, &conf, &replace))
             return NULL;
 
+        unsigned long idx = as_index(pyidx);
         if(idx>=machine->machine->size())
             return PyErr_Format(PyExc_ValueError, "invalid element index %lu", idx);
 
-- 
2.43.0


From 574c9747a092f3f0776c2aabea10b30fbaf63f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:37 +0000
Subject: [PATCH 38/60] fix: a copy of a state must have its next element index
 too

---
 src/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 2b8b2fc..e60f2b9 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -23,7 +23,7 @@ StateBase::StateBase(const Config& c)
 {}
 
 StateBase::StateBase(const StateBase& o, clone_tag)
-    :next_elem(0)
+    :next_elem(o.next_elem)
     ,pos(o.pos)
     ,retreat(false)
     ,pyptr(0)
-- 
2.43.0


From 86de1a2a859b341df1387ad7b4d3c1e03efb58b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:47 +0000
Subject: [PATCH 39/60] fix: any error while a cavity prepares a pass must
 leave its cache empty

---
 src/flame/rf_cavity.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 0ffd588..9687880 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -184,31 +184,31 @@ struct ElementRFCavity : public MomentElementBase
             resize_cache(ST);
             // need to re-calculate energy dependent terms
 
-            std::string newtype = conf().get<std::string>("cavtype");
-            if (CavType != newtype){
-                lattice.clear();
-                SynAccTab.clear();
-                LoadCavityFile(conf());
-            } else if (CavType == "Generic") {
-                std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
-                newfile += "/" + conf().get<std::string>("datafile");
-                if (DataFile != newfile) {
+            try {
+                std::string newtype = conf().get<std::string>("cavtype");
+                if (CavType != newtype){
                     lattice.clear();
                     SynAccTab.clear();
                     LoadCavityFile(conf());
+                } else if (CavType == "Generic") {
+                    std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
+                    newfile += "/" + conf().get<std::string>("datafile");
+                    if (DataFile != newfile) {
+                        lattice.clear();
+                        SynAccTab.clear();
+                        LoadCavityFile(conf());
+                    }
                 }
-            }
 
-            try {
                 recompute_matrix(ST); // updates transfer and last_Kenergy_out
+
+                for(size_t i=0; i<last_real_in.size(); i++)
+                    get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
             } catch(...) {
                 clear_cache();
                 throw;
             }
 
-            for(size_t i=0; i<last_real_in.size(); i++)
-                get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
-
             ST.recalc();
 
             last_ref_out = ST.ref;
-- 
2.43.0


From ce470656f2ed580e8c7014763deff7f499823212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:02 +0000
Subject: [PATCH 40/60] fix: H5Loader must open the root group when only a file
 is given

---
 src/h5loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h5loader.cpp b/src/h5loader.cpp
index c1ce95a..a7588f9 100644
--- a/src/h5loader.cpp
+++ b/src/h5loader.cpp
@@ -73,7 +73,7 @@ void H5Loader::open(const std::string& spec)
             continue; // keep trying
         } CATCH()
 
-        std::string group(spec.substr(sep+1));
+        std::string group(sep==spec.npos ? "/" : spec.substr(sep+1));
 
         try {
             pvt->group = pvt->file.openGroup(group);
-- 
2.43.0


From 035b3394ba6af183b2465d0ae24ee58fadeafc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:02 +0000
Subject: [PATCH 41/60] fix: opening HDF5 files by absolute path must not loop
 forever

---
 src/h5loader.cpp | 2 +-
 src/h5writer.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h5loader.cpp b/src/h5loader.cpp
index a7588f9..acde894 100644
--- a/src/h5loader.cpp
+++ b/src/h5loader.cpp
@@ -59,7 +59,7 @@ void H5Loader::open(const std::string& spec)
     size_t sep = spec.npos;
 
     while(true) {
-        sep = spec.find_last_of('/', sep-1);
+        sep = sep==0 ? spec.npos : spec.find_last_of('/', sep-1);
 
         std::string fname(spec.substr(0, sep));
 
diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 72237c5..0e7184e 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -74,7 +74,7 @@ void H5StateWriter::open(const std::string& spec)
         size_t sep = spec.npos;
 
         while(true) {
-            sep = spec.find_last_of('/', sep-1);
+            sep = sep==0 ? spec.npos : spec.find_last_of('/', sep-1);
 
             std::string fname(spec.substr(0, sep));
 
-- 
2.43.0


From b03e48f8b9ad099395064a6301d50bd84fcd3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:02 +0000
Subject: [PATCH 42/60] fix: H5StateWriter::close() must close the datasets,
 and not write to them after open()

---
 src/h5writer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 0e7184e..8bb0926 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -114,6 +114,7 @@ void H5StateWriter::open(const std::string& spec)
 void H5StateWriter::close()
 {
     try{
+        pvt->elements.clear();
         pvt->group.close();
         pvt->file.close();
     }CATCH()
-- 
2.43.0


From bf0eee24cf31d52041ba05895dc45e346bfa3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:46 +0000
Subject: [PATCH 43/60] fix: H5Loader must not refer to the first value of an
 empty array

---
 src/h5loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h5loader.cpp b/src/h5loader.cpp
index acde894..620d168 100644
--- a/src/h5loader.cpp
+++ b/src/h5loader.cpp
@@ -121,7 +121,7 @@ H5Loader::load(const char * setname)
         mspace.selectAll();
 
         matrix_t::array_type& storage(ret.data());
-        dset.read(&storage[0], H5::PredType::NATIVE_DOUBLE, mspace, fspace);
+        dset.read(storage.begin(), H5::PredType::NATIVE_DOUBLE, mspace, fspace);
 
         return ret;
     }CATCH()
-- 
2.43.0


From 092356f532b204fbba699cca40390c959f15c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:48 +0000
Subject: [PATCH 44/60] fix: HDF5 output must follow the strides of state
 arrays

---
 src/h5writer.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 8bb0926..d412157 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -1,6 +1,9 @@
 
 
 #include <sstream>
+#include <vector>
+
+#include <string.h>
 
 #include <boost/foreach.hpp>
 
@@ -228,7 +231,25 @@ void H5StateWriter::append(const StateBase *RS)
 
             H5::DataType dtype(elem.dset.getDataType());
 
-            elem.dset.write(info.ptr, dtype, memspace, filespace);
+            // arrays need not be contiguous in memory, gather them
+            const size_t esize = dtype.getSize();
+            size_t total = 1;
+            for(unsigned d=0; d<info.ndim; d++)
+                total *= info.dim[d];
+
+            std::vector<char> buf(total*esize);
+            size_t pos[StateBase::ArrayInfo::maxdims];
+            std::fill(pos, pos+StateBase::ArrayInfo::maxdims, 0u);
+
+            for(size_t n=0; n<total; n++) {
+                memcpy(&buf[n*esize], info.raw(pos), esize);
+                // last index changes fastest
+                for(unsigned d=info.ndim; d>0 && ++pos[d-1]==info.dim[d-1]; d--)
+                    pos[d-1] = 0;
+            }
+
+            if(total>0)
+                elem.dset.write(&buf[0], dtype, memspace, filespace);
 
         }
     } CATCH()
-- 
2.43.0


From 85fc9b4ca97da23316988001aa8a1feb7f3dfaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:23 +0000
Subject: [PATCH 45/60] fix: H5StateWriter::setAttr() must not read beyond a
 short value

---
 src/h5writer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index d412157..8046198 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -266,9 +266,12 @@ void H5StateWriter::setAttr(const char *name, const char *val)
 
         {
             H5::DataSpace scalar;
-            H5::StrType dtype(H5::PredType::C_S1, std::max((size_t)16u, strlen(val)));
+            // as many characters as the type has, including the terminator
+            std::vector<char> buf(std::max((size_t)16u, strlen(val)+1), '\0');
+            strcpy(&buf[0], val);
+            H5::StrType dtype(H5::PredType::C_S1, buf.size());
             H5::Attribute attr(pvt->group.createAttribute(name, dtype, scalar));
-            attr.write(dtype, val);
+            attr.write(dtype, &buf[0]);
         }
     } CATCH()
 }
-- 
2.43.0


From 0c99415a8f9dce0a175740b2e51b62b86e0facea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:40 +0000
Subject: [PATCH 46/60] fix: HDF5 output must keep earlier records when the
 number of charge states shrinks

---
 src/h5writer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 8046198..c433110 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -210,14 +210,18 @@ void H5StateWriter::append(const StateBase *RS)
 
             hsize_t shape[StateBase::ArrayInfo::maxdims+1];
             shape[0] = ++elem.nextrow;
-            std::copy(info.dim,
-                      info.dim+info.ndim,
-                      shape+1);
+            // keep the extent needed by earlier rows
+            for(unsigned d=0; d<info.ndim; d++)
+                shape[d+1] = elem.info.dim[d] = std::max(elem.info.dim[d], info.dim[d]);
 
             // resize
             // always in time, maybe in other dimensions
             elem.dset.extend(shape);
 
+            std::copy(info.dim,
+                      info.dim+info.ndim,
+                      shape+1);
+
             // filespace is hyper from [index,0...] to [index,shape]
             hsize_t start[StateBase::ArrayInfo::maxdims+1];
             start[0] = shape[0]-1;
-- 
2.43.0


From 75a5c6490f9422c4db68cc9f6666bcb5bad2a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:43 +0000
Subject: [PATCH 47/60] fix: the lattice file name '-' must read standard
 input, as documented

---
 src/config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.cpp b/src/config.cpp
index f6d7631..d18cc95 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -373,14 +373,14 @@ Config*
 GLPSParser::parse_file(const char *fname, const bool have_lattice)
 {
     boost::filesystem::path fpath;
-    if(fname) {
+    const bool closeme = fname!=NULL && strcmp(fname,"-")!=0;
+    if(closeme) {
         fpath = boost::filesystem::canonical(fname).parent_path();
     } else {
         fpath = boost::filesystem::current_path();
     }
 
     FILE *fp;
-    bool closeme = fname!=NULL && strcmp(fname,"-")!=0;
     if(closeme)
         fp = fopen(fname, "r");
     else
-- 
2.43.0


From 77c99d27b67f0b9663cb6704db138e25fecf51cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:43 +0000
Subject: [PATCH 48/60] fix: text output that can't be written must be an error

---
 tools/cli.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index 2927a85..0ce006b 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -276,6 +276,8 @@ struct StreamObserver : public Observer
                 if(cmd.substr(0,5)=="file=") {
                     owned_strm.reset(new std::ofstream(cmd.substr(5).c_str()));
                     strm = owned_strm.get();
+                    if(!*strm)
+                        throw std::runtime_error("Unable to open output file "+cmd.substr(5));
                 } else if(cmd=="verbose") {
                     detail=1;
                 } else if(cmd.substr(0,8)=="verbose=") {
@@ -294,6 +296,8 @@ struct StreamObserver : public Observer
         virtual void after_sim(Machine&)
         {
             strm->flush();
+            if(!*strm)
+                throw std::runtime_error("Error writing output");
         }
     };
 };
-- 
2.43.0


From a612ffa34e13ade31accf1ed7a801562b99e9291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:43 +0000
Subject: [PATCH 49/60] fix: an unknown name given to the utest format must not
 print another parameter

---
 tools/cli.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index 0ce006b..739ba43 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -154,9 +154,9 @@ struct UnitTestObserver : public Observer
         interested_t::element_type::const_iterator it = interested->begin();
         for(size_t i=0; i<interested_indicies.size(); i++, ++it) {
             lookup_t::const_iterator Lit = L.find(*it);
-            if(Lit!=L.end()) {
-                interested_indicies[i] = Lit->second;
-            }
+            if(Lit==L.end())
+                throw std::runtime_error("No state parameter to print named "+*it);
+            interested_indicies[i] = Lit->second;
         }
     }
 
-- 
2.43.0


From a196015bcaad9d5d374e1c7b85774f962b5a0ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:43 +0000
Subject: [PATCH 50/60] fix: the help text must tell how a definition by
 argument and one in the lattice file combine

---
 tools/cli.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index 739ba43..7ca1bd8 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -103,7 +103,7 @@ void getargs(int argc, char *argv[], po::variables_map& args)
                    "Definitions:\n\n"
                    " Variable defintions made by arguments must specify a name, type, and value\n"
                    " The type may be: 'str'' or 'double', which may be abbreviated as 'S' or 'D'.\n"
-                   " Definitions are overwritten by those in the lattice file.\n"
+                   " It is an error if the lattice file defines the same variable.\n"
                    ;
         exit(1);
     }
-- 
2.43.0


From 9214bf5af8d908ab7766641a37ad9fd8ee4c492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:07 +0000
Subject: [PATCH 51/60] fix: a read error in a lattice file must not end the
 process

---
 src/glps.l | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/glps.l b/src/glps.l
index 0eeb8e7..1e6823c 100644
--- a/src/glps.l
+++ b/src/glps.l
@@ -1,11 +1,25 @@
 %{
 #include <stdlib.h>
 #include <math.h>
+#include <errno.h>
+#include <string.h>
 
 #include "glps_parser.h"
 #include "glps.par.h"
 
 #define YYSTYPE         GLPS_STYPE
+
+/* the default calls exit() when reading fails (eg. for a directory) */
+#define YY_INPUT(buf, result, max_size) \
+    do { \
+        errno = 0; \
+        result = fread(buf, 1, max_size, yyin); \
+        if(result==0 && ferror(yyin)) { \
+            if(errno==EINTR) { clearerr(yyin); continue; } \
+            glps_error(yyscanner, yyextra, "Read error: %s", strerror(errno)); \
+        } \
+        break; \
+    } while(1)
 %}
 
 %option 8bit reentrant batch bison-bridge
-- 
2.43.0


From 0384bbd3f7eca7a17763d78a0ff9c69f14cf8b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:30 +0000
Subject: [PATCH 52/60] fix: sector bend dispersion must not lose its digits as
 Kx approaches zero

---
 src/moment_sup.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 0750bec..c23fcd4 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -235,10 +235,12 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
     GetQuadMatrix(L, Ky, (unsigned)state_t::PS_Y, M);
 
     // Include dispersion.
-    if (Kx == 0e0) {
-        dx = sqr(L)/(2e0*rho);
-        sx = L/rho;
-        dz = cube(L)/(6e0*sqr(rho));
+    const double KL2 = Kx*sqr(L);
+    if (fabs(KL2) < 1e-3) {
+        // The closed forms below lose all digits as Kx approaches zero (field index near one).
+        dx = sqr(L)/(2e0*rho)*(1e0-KL2/12e0*(1e0-KL2/30e0));
+        sx = L/rho*(1e0-KL2/6e0*(1e0-KL2/20e0));
+        dz = cube(L)/(6e0*sqr(rho))*(1e0-KL2/20e0*(1e0-KL2/42e0));
     } else if (Kx > 0e0) {
         dx = (1e0-cos(sqrt(Kx)*L))/(rho*Kx);
         sx = sin(sqrt(Kx)*L)/(rho*sqrt(Kx));
-- 
2.43.0


From a1ae0065a5f316ff209656271a1745b732e9311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:09 +0000
Subject: [PATCH 53/60] fix: the last character of each log message was not
 passed to the python logger

---
 python/flame/modmain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/flame/modmain.cpp b/python/flame/modmain.cpp
index 715cdaf..c3898d7 100644
--- a/python/flame/modmain.cpp
+++ b/python/flame/modmain.cpp
@@ -23,7 +23,7 @@ struct PyLogger : public Machine::Logger
             std::string msg(r.strm.str());
             size_t pos = msg.find_last_not_of('\n');
             if(pos!=msg.npos)
-                msg = msg.substr(0, pos);
+                msg = msg.substr(0, pos+1);
 
             // name, level, function name, lineno, message, args, exc_info
             PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
-- 
2.43.0


From 947e8e144a3e0fc06a21d0f766983c8dd90594c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:09 +0000
Subject: [PATCH 54/60] fix: an exception from a python logging filter must not
 end the process

---
 python/flame/modmain.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/flame/modmain.cpp b/python/flame/modmain.cpp
index c3898d7..b8c76ab 100644
--- a/python/flame/modmain.cpp
+++ b/python/flame/modmain.cpp
@@ -25,11 +25,16 @@ struct PyLogger : public Machine::Logger
             if(pos!=msg.npos)
                 msg = msg.substr(0, pos+1);
 
-            // name, level, function name, lineno, message, args, exc_info
-            PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
-                                            FLAME_LOGGER_NAME, r.level, r.fname, r.lnum,
-                                            msg.c_str(), Py_None, Py_None));
-            PyRef<> junk(PyObject_CallMethod(logger.py(), "handle", "O", rec.py()));
+            // called from ~LogRecord(), so nothing may be thrown from here
+            try {
+                // name, level, function name, lineno, message, args, exc_info
+                PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
+                                                FLAME_LOGGER_NAME, r.level, r.fname, r.lnum,
+                                                msg.c_str(), Py_None, Py_None));
+                PyRef<> junk(PyObject_CallMethod(logger.py(), "handle", "O", rec.py()));
+            } catch(std::exception&) {
+                PyErr_WriteUnraisable(logger.py());
+            }
         }
     }
     static void noopdtor(Machine::Logger*) {}
-- 
2.43.0


From 9abee5e0aa752e12456832f272f7ca85f8a5d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:02 +0000
Subject: [PATCH 55/60] fix: threads with machines of their own raced on the
 shared data file maps

CavConfMap and CurveMap are shared by all machines. Machine::Machine() runs under
info_mutex, but reconfigure() also builds cavities, and elements with a CurveFile
look their curves up while propagating, so two threads each using only its own
machine read and inserted concurrently.
---
 src/moment_sup.cpp | 4 ++++
 src/rf_cavity.cpp  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index c23fcd4..a4356ed 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -1,6 +1,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/thread/mutex.hpp>
 #include <boost/numeric/ublas/lu.hpp>
 
 #include "flame/constants.h"
@@ -16,6 +17,8 @@
 #endif
 
 std::map<std::string,boost::shared_ptr<Config> > CurveMap;
+// guards CurveMap, which is shared by the machines of all threads
+static boost::mutex CurveMutex;
 
 // http://www.crystalclearsoftware.com/cgi-bin/boost_wiki/wiki.pl?LU_Matrix_Inversion
 // by LU-decomposition.
@@ -402,6 +405,7 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
         std::string CurveFile =  c.get<std::string>("Eng_Data_Dir", defpath);
         CurveFile += "/" + filename;
         std::string key(SB()<<CurveFile<<"|"<<read_file(CurveFile));
+        boost::mutex::scoped_lock L(CurveMutex);
         if ( CurveMap.find(key) == CurveMap.end() ) {
             // not found in CurveMap
             try {
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index db1c3d1..817255f 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -3,6 +3,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/thread/mutex.hpp>
 
 #include "flame/constants.h"
 #include "flame/moment.h"
@@ -20,6 +21,8 @@
 #endif
 
 std::map<std::string,boost::shared_ptr<Config> > ElementRFCavity::CavConfMap;
+// guards CavConfMap, which is shared by the machines of all threads
+static boost::mutex CavConfMutex;
 
 // RF Cavity beam dynamics functions.
 
@@ -814,6 +817,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
     {
         boost::shared_ptr<Config> conf;
         std::string key(SB()<<DataFile<<"|"<<read_file(DataFile));
+        boost::mutex::scoped_lock L(CavConfMutex);
         if ( CavConfMap.find(key) == CavConfMap.end() ) {
             // not found in CavConfMap
             try {
@@ -827,6 +831,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
             // found in CavConfMap
             conf=CavConfMap[key];
         }
+        L.unlock();
 
         typedef Config::vector_t elements_t;
         elements_t Es(conf->get<elements_t>("elements"));
-- 
2.43.0


From 105019207e2dc43fd7eaa723ecff09648a601d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:20 +0000
Subject: [PATCH 56/60] fix: parsing a named file object and refusing a value
 leaked Python references

---
 python/flame/modconfig.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 6eab2d7..c6f89a1 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -65,7 +65,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
                 throw std::runtime_error("Failed to append nested item");
 
         } else {
-            PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(value);
+            PyTypeObject *valuetype = Py_TYPE(value);
             throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
         }
     }
@@ -88,7 +88,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
                 elem.reset(PyMapping_Items(elem.py()));
             }
             if(!PyList_Check(elem.py())) {
-                PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(elem.py());
+                PyTypeObject *valuetype = Py_TYPE(elem.py());
                 throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
             }
 
@@ -252,7 +252,9 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
         PyCString pyname;
 
         if(!path && PyObject_HasAttrString(conf, "name")) {
-            path = pyname.c_str(pydirname(PyObject_GetAttrString(conf, "name")));
+            PyRef<> name(PyObject_GetAttrString(conf, "name")),
+                    dir(pydirname(name.py()));
+            path = pyname.c_str(dir.py());
         }
 
         PyRef<> pybytes(PyObject_CallMethod(conf, "read", ""));
-- 
2.43.0


From 0ade36758d26c0ba129d1877cfeca450b555a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:40 +0000
Subject: [PATCH 57/60] fix: the electrostatic bend map was not a number when
 its horizontal focusing was negative or absent

---
 src/moment_sup.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index a4356ed..0932b95 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -340,7 +340,8 @@ void GetEBendMatrix(const double L, const double phi, const double fringe_x, con
     double  rho = L/phi,
             scl = (real_gamma - 1e0)*IonEs/MeVtoeV,
             dx  = 0e0,
-            sx  = 0e0;
+            sx  = 0e0,
+            dz  = 0e0;
 
     // Horizontal plane.
     GetQuadMatrix(L, Kx, (unsigned)state_t::PS_X, M);
@@ -348,15 +349,20 @@ void GetEBendMatrix(const double L, const double phi, const double fringe_x, con
     GetQuadMatrix(L, Ky, (unsigned)state_t::PS_Y, M);
 
     // Include dispersion.
-    if (Kx == 0e0) {
-        dx = 0e0;
-        sx = 0e0;
+    const double KL2 = Kx*sqr(L);
+    if (fabs(KL2) < 1e-3) {
+        // The closed forms below lose all digits as Kx approaches zero.
+        dx = sqr(L)/(2e0*rho)*(1e0-KL2/12e0*(1e0-KL2/30e0));
+        sx = L*(1e0-KL2/6e0*(1e0-KL2/20e0));
+        dz = cube(L)/(6e0*sqr(rho))*(1e0-KL2/20e0*(1e0-KL2/42e0));
     } else if (Kx > 0e0) {
         dx = (1e0-cos(sqrt(Kx)*L))/(rho*Kx);
         sx = sin(sqrt(Kx)*L)/sqrt(Kx);
+        dz = (L-sx)/Kx/sqr(rho);
     } else {
         dx = (1e0-cosh(sqrt(-Kx)*L))/(rho*Kx);
-        sx = sin(sqrt(Kx)*L)/sqrt(Kx);
+        sx = sinh(sqrt(-Kx)*L)/sqrt(-Kx);
+        dz = (L-sx)/Kx/sqr(rho);
     }
 
     double Nk   = (sqr(1e0+2e0*eta0)+h)/(2e0*(1e0+eta0)*(1e0+2e0*eta0)),
@@ -364,7 +370,7 @@ void GetEBendMatrix(const double L, const double phi, const double fringe_x, con
            CorT = -real_gamma/(1e0+real_gamma),
            tx   = sx/rho*Nt*CorT,
            txp  = dx*Nt*CorT,
-           tzp  = (-L/(2e0*(1e0+eta0)*(1e0+2e0*eta0))+((L-sx)/Kx/sqr(rho))*Nk*Nt)*CorT;
+           tzp  = (-L/(2e0*(1e0+eta0)*(1e0+2e0*eta0))+dz*Nk*Nt)*CorT;
 
     M(state_t::PS_X,  state_t::PS_PS) = dx*Nk/scl;
     M(state_t::PS_PX, state_t::PS_PS) = sx/rho*Nk/scl;
-- 
2.43.0


From 18aac6fe54662f72381f4aec6f6ad67b683218af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:03 +0000
Subject: [PATCH 58/60] fix: the report of an ill-typed operation printed an
 address instead of the operation

---
 src/glps_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps_parser.cpp b/src/glps_parser.cpp
index 549352d..2410163 100644
--- a/src/glps_parser.cpp
+++ b/src/glps_parser.cpp
@@ -346,7 +346,7 @@ expr_t *glps_add_op(parse_context *ctxt, string_t *name, unsigned N, expr_t **ar
 
         if(!op) {
             std::ostringstream strm;
-            strm << "Operation '" << name <<"'(";
+            strm << "Operation '" << name->str <<"'(";
             for(unsigned i=0; i<N; i++) {
                 if(i>0)
                     strm<<", ";
-- 
2.43.0


From 8654170865a38548212e357e613ef14231c9d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:52 +0000
Subject: [PATCH 59/60] fix: the element a generated record links to depended
 on how records were named

---
 python/flame/ioc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/flame/ioc.py b/python/flame/ioc.py
index 515973a..6579c54 100644
--- a/python/flame/ioc.py
+++ b/python/flame/ioc.py
@@ -30,6 +30,7 @@ class Generator(object):
 
         stype = self._D['sim_type']
         outnames = set()
+        instances = defaultdict(int)
 
         nmarkers = 0
 
@@ -49,9 +50,14 @@ class Generator(object):
                 while '%s%d'%(rname,N) in outnames:
                     N += 1
                 rname = '%s%d'%(rname,N)
-                ename = '%s[%d]'%(ename,N)
             outnames.add(rname)
 
+            # "name[N]" is the N-th element of this name, however its records are named
+            N = instances[ename]
+            instances[ename] += 1
+            if N>0:
+                ename = '%s[%d]'%(ename,N)
+
             _log.debug("Inspect %(name)s : %(type)s"%elem)
 
             tempfile = os.path.join(self._I, etype+'.template')
-- 
2.43.0


From eb8d84158831ad05fa1ad4ab514743e1d9145c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:19 +0000
Subject: [PATCH 60/60] fix: "python -m flame" failed to import the version it
 prints

---
 python/flame/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/flame/__main__.py b/python/flame/__main__.py
index 840b42d..c1869af 100644
--- a/python/flame/__main__.py
+++ b/python/flame/__main__.py
@@ -1,3 +1,3 @@
 from __future__ import print_function
-from . import version, cversion
-print("This is FLAME\n Python API version:", version,"\n C++ API version:", cversion)
+from . import _pyapi_version, _capi_version
+print("This is FLAME\n Python API version:", _pyapi_version,"\n C++ API version:", _capi_version)
-- 
2.43.0

