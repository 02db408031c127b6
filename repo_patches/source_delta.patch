From 35a40e37939844d4ce538790b029e3cbb91824f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:47 +0000
Subject: [PATCH 01/21] fix: FreeExact: initialise the cached propagator to the
 identity it stands for

The cache key starts as zero elapsed time, but the cached diagonal was left uninitialised, so that a propagation over
zero time preceding any other one multiplied the state vector with garbage.
---
 CPPQEDcore/structure/FreeExact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/structure/FreeExact.h b/CPPQEDcore/structure/FreeExact.h
index b6dc2bb..962c1bc 100644
--- a/CPPQEDcore/structure/FreeExact.h
+++ b/CPPQEDcore/structure/FreeExact.h
@@ -23,7 +23,7 @@ public:
   typedef typename ExactTimeDependenceDispatched<1,IS_TWO_TIME>::Time Time;
 
 protected:
-  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {}
+  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {diagonal_=1.;} // the propagator belonging to t_(0,0) is the identity
   
   Diagonal& getDiagonal() const {return diagonal_;}
 
-- 
2.43.0


From b0ac0d791a3cddc6de93a62e6f3414c542ab7d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:48 +0000
Subject: [PATCH 02/21] fix: Mode: the Kerr term enters the exact part and the
 interaction-picture frequencies consistently

With nonzero omegaKerr the interaction-picture classes neither propagated with the Kerr phases nor rotated the ladder
operators with the right sign, the unitary-interaction-picture classes counted the term once in the Hamiltonian and once
in the frequencies, the resonant Schroedinger-picture class dropped it, and the fully exact classes ignored omegaKerrAlter,
so that the pictures described different systems.
---
 CPPQEDelements/frees/BichromaticMode.h |  2 +-
 CPPQEDelements/frees/Mode.cc           | 11 ++++++-----
 CPPQEDelements/frees/Mode.tcc          |  4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/CPPQEDelements/frees/BichromaticMode.h b/CPPQEDelements/frees/BichromaticMode.h
index cde6fcb..ecce0c0 100644
--- a/CPPQEDelements/frees/BichromaticMode.h
+++ b/CPPQEDelements/frees/BichromaticMode.h
@@ -36,7 +36,7 @@ public:
   {
     mode::Hamiltonian<true>::getH_OverIs().push_back(
                                                      furnishWithFreqs(mode::pumping(p.etaOther,getDimension()),
-                                                                      mode::mainDiagonal(zI_Other,0,getDimension()))
+                                                                      mode::mainDiagonal(zI_Other,-p.omegaKerr,getDimension()))
                                                      );
     getParsStream()<<"Bichromatic pumping."; mode::isFiniteTempStream<TEMPERATURE>(getParsStream(),p.nTh);
   }
diff --git a/CPPQEDelements/frees/Mode.cc b/CPPQEDelements/frees/Mode.cc
index 1438922..8b67b6c 100644
--- a/CPPQEDelements/frees/Mode.cc
+++ b/CPPQEDelements/frees/Mode.cc
@@ -41,7 +41,8 @@ Exact::Exact(dcomp zI, double omegaKerr, size_t dim)
 
 void Exact::updateU(Time t) const
 {
-  getDiagonal()=exp(-zI_*(double(t)*blitz::tensor::i));
+  using blitz::tensor::i;
+  getDiagonal()=exp(-zI_*(double(t)*i))*exp(dcomp(0,-omegaKerr_)*(double(t)*i*(i-1.)));
 }
 
 
@@ -76,7 +77,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 // Here we use runtime dispatching because runtime dispatching will anyway happen at the latest in some maker function.
 {
   bool isPumped=isNonZero(eta);
-  if (isNonZero(z)) {
+  if (isNonZero(z) || omegaKerr) {
     Tridiagonal res(mainDiagonal(-z,omegaKerr,dim));
     if (isPumped) return res+pumping(eta,dim);
     else return res;
@@ -94,7 +95,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 
 template<> template<>
 Hamiltonian<true >::Hamiltonian(dcomp zSch, dcomp zI, dcomp eta, double omegaKerr, double omegaKerrAlter, size_t dim)
-  : Base(furnishWithFreqs(hOverI(zSch,eta,omegaKerr,dim),mainDiagonal(zI,omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
+  : Base(furnishWithFreqs(hOverI(zSch,eta,0,dim),mainDiagonal(zI,-omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
 {
   FILLKERR
 }
@@ -289,7 +290,7 @@ const Tridiagonal aop(Ptr mode)
 {
   size_t dim=mode->getDimension();
   Tridiagonal res(aop(dim));
-  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),exact->get_omegaKerr(),dim));
+  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),-exact->get_omegaKerr(),dim));
   return res;
 }
 
@@ -355,7 +356,7 @@ ModeBase::ModeBase(size_t dim, const RealFreqs& realFreqs, const ComplexFreqs& c
 
 PumpedLossyModeIP_NoExact::PumpedLossyModeIP_NoExact(const mode::ParsPumpedLossy& p)
   : ModeBase(p.cutoff),
-    quantumoperator::TridiagonalHamiltonian<1,true>(furnishWithFreqs(mode::pumping(p.eta,p.cutoff),mode::mainDiagonal(dcomp(p.kappa,-p.delta),p.omegaKerr,p.cutoff))),
+    quantumoperator::TridiagonalHamiltonian<1,true>(furnishWithFreqs(mode::pumping(p.eta,p.cutoff),mode::mainDiagonal(dcomp(p.kappa,-p.delta),-p.omegaKerr,p.cutoff))),
     structure::ElementLiouvillean<1,1,true>(mode::keyTitle,"excitation loss"),
     structure::ElementAveraged<1,true>(mode::keyTitle,{"<number operator>","real(<ladder operator>)","imag(\")"}),
     z_(p.kappa,-p.delta)
diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index 981933d..ed18aae 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -95,7 +95,7 @@ void AveragedMonitorCutoff<Base>::process_v(Averages& averages) const
 
 template<typename AveragingType> template<typename... AveragingConstructorParameters>
 Mode<AveragingType>::Mode(const mode::Pars& p, AveragingConstructorParameters&&... a)
-  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr,p.cutoff),
+  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_delta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {}
@@ -134,7 +134,7 @@ PumpedModeSch<AveragingType>::PumpedModeSch(const mode::ParsPumped& p, Averaging
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 LossyMode<TEMPERATURE,AveragingType>::LossyMode(const mode::ParsLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE>(p.kappa,p.nTh),
-    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr,p.cutoff),
+    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_kappadelta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From 91a470857eda1cf530fdd444037a2ab2e469346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:08 +0000
Subject: [PATCH 03/21] fix: ElementLiouvilleanDiffusive: the superoperator of
 each phase-diffusion Lindblad is that of its jump

Only the first diffusive Lindblad contributed, with the coefficient of the first level applied to every level.
---
 CPPQEDcore/structure/ElementLiouvillean.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/CPPQEDcore/structure/ElementLiouvillean.h b/CPPQEDcore/structure/ElementLiouvillean.h
index f09e3e9..b02d33a 100644
--- a/CPPQEDcore/structure/ElementLiouvillean.h
+++ b/CPPQEDcore/structure/ElementLiouvillean.h
@@ -366,14 +366,11 @@ protected:
   {
     if (rho.extent(0)!=dim_ || rho.extent(1)!=dim_) throw ElementLiouvilleanDiffusiveDimensionalityMismatchException("In actWithSuperoperator_v");
     if (lindbladNo<base_nAvr_) Base::actWithSuperoperator_v(t,rho,drhodt,lindbladNo);
-    else if(lindbladNo==base_nAvr_) { // with this single case we cover the action of all the diffusive Lindblads
-      for (int m=0; m<dim_; ++m) {
-        drhodt(m,m)+=2*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,m);
-        for (int n=m+1; n<dim_; ++n) {
-          drhodt(m,n)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,n);
-          drhodt(n,m)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(n,m);
-        }
-      }
+    else { // each diffusive Lindblad flips the phase of a single level
+      const int l=lindbladNo-base_nAvr_;
+      for (int m=0; m<dim_; ++m)
+        for (int n=0; n<dim_; ++n)
+          drhodt(m,n)+=((m==l)==(n==l) ? 2. : -2.)*diffusionCoeffs_[l]*rho(m,n);
     }
   }
 
-- 
2.43.0


From 10fcf3354a335e40091dfbc83cbd1e3f062ac95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:20 +0000
Subject: [PATCH 04/21] fix: StateVector: the trace as a LazyDensityOperator is
 the squared norm

---
 CPPQEDcore/quantumdata/StateVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/StateVector.h b/CPPQEDcore/quantumdata/StateVector.h
index f637880..57640f3 100644
--- a/CPPQEDcore/quantumdata/StateVector.h
+++ b/CPPQEDcore/quantumdata/StateVector.h
@@ -191,7 +191,7 @@ public:
 private:
   const dcomp index(const Idx& i, const Idx& j) const override {return getArray()(i)*conj(getArray()(j));} ///< This function implements the LazyDensityOperator interface in a dyadic-product way.
   
-  double trace_v() const override {return norm();} ///< A straightforward implementation of a LazyDensityOperator virtual
+  double trace_v() const override {return cppqedutils::sqr(norm());} ///< A straightforward implementation of a LazyDensityOperator virtual
   
 };
 
-- 
2.43.0


From 5a09d40225b8ed4de82d3a08474f063abb921e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 05/21] fix: densityOperatorize: take the dimensions of the
 argument also for several subsystems

---
 CPPQEDcore/quantumdata/DensityOperator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 1368404..52aec1f 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -239,7 +239,7 @@ template<int RANK>
 DensityOperator<RANK>
 densityOperatorize(const LazyDensityOperator<RANK>& matrix)
 {
-  DensityOperator<RANK> res(matrix.getDimension());
+  DensityOperator<RANK> res(matrix.getDimensions());
   
   typedef cppqedutils::MultiIndexIterator<RANK> Iterator;
   const Iterator etalon(matrix.getDimensions()-1,cppqedutils::mii::begin);
-- 
2.43.0


From ffc88bd58a5c3b0b0a528a2789e4bb25a9d830f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:49 +0000
Subject: [PATCH 06/21] fix: DensityOperator: norm (trace) correct also for
 non-contiguous storage

partialTrace hands out diagonal slices, for which the matrix view silently addresses wrong elements if they have several subsystems.
---
 CPPQEDcore/quantumdata/DensityOperator.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 52aec1f..8bc0e73 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -161,9 +161,12 @@ public:
   //@{
   double norm() const ///< returns the trace norm
   {
-    using blitz::tensor::i;
-    const linalg::CMatrix m(matrixView());
-    return real(sum(m(i,i)));
+    // the matrix view cannot be relied on here, since the storage is not necessarily contiguous (cf. diagonalSliceIndex)
+    typedef cppqedutils::MultiIndexIterator<RANK> Iterator;
+    double res=0.;
+    const Iterator etalon(this->getDimensions()-1,cppqedutils::mii::begin);
+    for (Iterator i(etalon); i!=etalon.getEnd(); ++i) res+=real(indexWithTiny(*i,*i));
+    return res;
   }
 
   double renorm() ///< ” and also renormalises
-- 
2.43.0


From fc37e10493d69364c3f76412003fee33ae219441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:27 +0000
Subject: [PATCH 07/21] fix: ArrayBase: unary plus and minus

---
 CPPQEDcore/quantumdata/ArrayBase.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumdata/ArrayBase.h b/CPPQEDcore/quantumdata/ArrayBase.h
index e608d79..0896628 100644
--- a/CPPQEDcore/quantumdata/ArrayBase.h
+++ b/CPPQEDcore/quantumdata/ArrayBase.h
@@ -57,8 +57,8 @@ public:
   Derived& operator+=(const ArrayBase& arrayBase) {arrayLow_+=arrayBase.arrayLow_; return static_cast<Derived&>(*this);}
   Derived& operator-=(const ArrayBase& arrayBase) {arrayLow_-=arrayBase.arrayLow_; return static_cast<Derived&>(*this);}
 
-  Derived operator-() const {Derived res(this->getDimensions(),false); res.getArray()=-this->getArray(); return res;} ///< involves a deep-copy
-  Derived operator+() const {return *this;} ///< simply deep copy
+  Derived operator-() const {Derived res(static_cast<const Derived&>(*this)); res.getArray()=-this->getArray(); return res;} ///< involves a deep-copy
+  Derived operator+() const {return static_cast<const Derived&>(*this);} ///< simply deep copy
   //@}
 
   /// \name Naive vector-space operations allowing also for mixed-mode arithmetics
-- 
2.43.0


From c35a73c1b7d3aa7a4f22a0b6bd5553eb1a6e456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:10 +0000
Subject: [PATCH 08/21] fix: Tridiagonal: missing frequencies count as zero in
 direct products and sums

---
 CPPQEDcore/quantumoperator/Tridiagonal.cc  |  2 +-
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 25 +++++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.cc b/CPPQEDcore/quantumoperator/Tridiagonal.cc
index 9a0e5ee..866d04a 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.cc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.cc
@@ -26,7 +26,7 @@ Tridiagonal<1>&
 Tridiagonal<1>::furnishWithFreqs(const Diagonal& mainDiagonal)
 {
   const size_t k=differences_(0), diagonalSize=getTotalDimension()-k;
-  if (diagonalSize>0) {
+  if (k && diagonalSize>0) { // a purely diagonal operator does not rotate
     freqs_(1).resize(diagonalSize);
     for (int n=0; n<diagonalSize; n++)
       freqs_(1)(n)=mainDiagonal(n+k)-mainDiagonal(n);
diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index bf70e3f..c5ed338 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -55,6 +55,29 @@ directDiagonals(const typename Tridiagonal<RANK1>::Diagonals& ds1,
 } // NEEDS_WORK this is now runtime, but (a smaller) part of it could be done compile-time. Ugh. Ouch.
 
 
+// Direct sum of the frequencies, wherein missing frequencies (main diagonals, or an operand without frequencies) count as zero
+template<int RANK1, int RANK2>
+const typename Tridiagonal<RANK1+RANK2>::Diagonals
+directFreqs(const Tridiagonal<RANK1>& t1, const Tridiagonal<RANK2>& t2)
+{
+  const auto freqOrZero=[](const auto& t, size_t i) {
+    typename std::decay_t<decltype(t)>::Diagonal res;
+    if (t.getFreqs()(i).size()) res.reference(t.getFreqs()(i));
+    else if (t.get()(i).size()) {res.resize(t.get()(i).shape()); res=0;}
+    return res;
+  };
+
+  typename Tridiagonal<RANK1+RANK2>::Diagonals res;
+  const size_t length=t2.get().numElements();
+
+  for (size_t i=0; i<t1.get().numElements(); ++i) for (size_t j=0; j<length; ++j)
+    if (t1.getFreqs()(i).size() || t2.getFreqs()(j).size())
+      res(i*length+j).reference(blitzplusplus::doDirect<false,RANK1,RANK2>(freqOrZero(t1,i),freqOrZero(t2,j)));
+
+  return res;
+}
+
+
 } // details
 
 
@@ -64,7 +87,7 @@ Tridiagonal<RANK>::Tridiagonal(const Tridiagonal<RANK2>& t1, const Tridiagonal<R
     diagonals_(blitzplusplus::ShallowCopy(),details::directDiagonals<true,RANK2,RANK-RANK2>(t1.get(),t2.get())),
     differences_(blitzplusplus::concatenateTinies(t1.getDifferences(),t2.getDifferences())),
     tCurrent_(t1.getTime()),
-    freqs_(blitzplusplus::ShallowCopy(),details::directDiagonals<false,RANK2,RANK-RANK2>(t1.getFreqs(),t2.getFreqs()))
+    freqs_(blitzplusplus::ShallowCopy(),details::directFreqs<RANK2,RANK-RANK2>(t1,t2))
 {
   if (t1.getTime()!=t2.getTime()) throw std::runtime_error("Tridiagonal time mismatch");
 }
-- 
2.43.0


From 896669e8711e1caade0cf6c84968be5113f22c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 09/21] fix: Sigma: type of the direct product of two
 stand-alone Sigmas

---
 CPPQEDcore/quantumoperator/Sigma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Sigma.h b/CPPQEDcore/quantumoperator/Sigma.h
index 02ba774..36825c8 100644
--- a/CPPQEDcore/quantumoperator/Sigma.h
+++ b/CPPQEDcore/quantumoperator/Sigma.h
@@ -131,7 +131,7 @@ template<int L1, int R1, int L2, int R2>
 const DirectProduct<L1,R1,Sigma<L2,R2>,true>
 operator*(const Sigma<L1,R1>&, const Sigma<L2,R2>& sigma)
 {
-  return DirectProduct<L1,R2,Sigma<L2,R2>,true>(sigma);
+  return DirectProduct<L1,R1,Sigma<L2,R2>,true>(sigma);
 }
 
 
-- 
2.43.0


From a8306affd9e5922d061e7f87010387da0ea8f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 10/21] fix: Tridiagonal: summing operators refuses any
 frequency mismatch, not only a full one

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index c5ed338..b9f8a30 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -159,7 +159,7 @@ Tridiagonal<RANK>::operator+=(const Tridiagonal& tridiag)
   
   boost::for_each(tridiag.freqs_,freqs_,[](const typename Tridiagonal<RANK>::Diagonal& from, typename Tridiagonal<RANK>::Diagonal& to) {
     if (from.size()) {
-      if (to.size() && all(to!=from)) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
+      if (to.size() && any(to!=from)) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
       else {
         to.resize(from.shape());
         to=from;
-- 
2.43.0


From 311e82971ae8755aa21f1f08c0cc51902cca2df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:32 +0000
Subject: [PATCH 11/21] fix: Tridiagonal: frequencies of direct products are
 complete, so that they serve the Hermitian conjugate as well

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index b9f8a30..f1d0cd4 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -63,7 +63,11 @@ directFreqs(const Tridiagonal<RANK1>& t1, const Tridiagonal<RANK2>& t2)
   const auto freqOrZero=[](const auto& t, size_t i) {
     typename std::decay_t<decltype(t)>::Diagonal res;
     if (t.getFreqs()(i).size()) res.reference(t.getFreqs()(i));
-    else if (t.get()(i).size()) {res.resize(t.get()(i).shape()); res=0;}
+    else { // also for missing diagonals, as frequencies are meant to be correct for the Hermitian conjugate as well
+      auto shape(res.shape());
+      for (int k=shape.length()-1; k>=0; --k, i/=3) shape(k)=t.getDimension(k)-(i%3 ? t.getDifferences()(k) : 0);
+      res.resize(shape); res=0;
+    }
     return res;
   };
 
-- 
2.43.0


From 769d8df0de07f63673c3714f45057269cd48da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:32 +0000
Subject: [PATCH 12/21] fix: ParticleTwoModes: same phase convention for equal
 and different wave numbers

---
 CPPQEDelements/interactions/ParticleTwoModes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/interactions/ParticleTwoModes.cc b/CPPQEDelements/interactions/ParticleTwoModes.cc
index 3c9a6c5..8515489 100644
--- a/CPPQEDelements/interactions/ParticleTwoModes.cc
+++ b/CPPQEDelements/interactions/ParticleTwoModes.cc
@@ -35,7 +35,7 @@ ParticleTwoModes::ParticleTwoModes(mode::Ptr mode0, mode::Ptr mode1, particle::P
                                    double phi)
   : structure::Interaction<3>({mode0,mode1,part},
                               {RF{"Unot0",uNot0,sqrt(mode0->getDimension())},RF{"Unot1",uNot1,sqrt(mode1->getDimension())}}),
-                              firstH_(factor(uNot0,uNot1,phi)*mode::aop(mode0)*mode::aop(mode1).dagger()*mfNKX(part,mf0)/1i), firstHT_(-firstH_.dagger()),
+                              firstH_(conj(factor(uNot0,uNot1,phi))*mode::aop(mode0)*mode::aop(mode1).dagger()*mfNKX(part,mf0)/1i), firstHT_(-firstH_.dagger()),
     secondH_(mfNKX(part,mf1).dagger()), secondHT_(secondH_.dagger()),
     isSpecialH_(abs(get<1>(mf0))==abs(get<1>(mf1))),
     specialH_(isSpecialH_ ? Tridiagonals{quantumoperator::tridiagPlusHC_overI( factor(uNot0,uNot1,phi)*mode::aop(mode0).dagger()*mode::aop(mode1)*mfComposition(part,mf0,mf1) )}: Tridiagonals{})
-- 
2.43.0


From ff2854d9e57d022363170bd879627698ad1c54ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:26 +0000
Subject: [PATCH 13/21] fix: BinarySystem: jumps of the interaction are indexed
 correctly when the second free has none

---
 CPPQEDcore/composites/BinarySystem.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CPPQEDcore/composites/BinarySystem.cc b/CPPQEDcore/composites/BinarySystem.cc
index f4a2143..743037b 100644
--- a/CPPQEDcore/composites/BinarySystem.cc
+++ b/CPPQEDcore/composites/BinarySystem.cc
@@ -226,8 +226,8 @@ void binary::Liouvillean::actWithJ_v(double t, StateVectorLow& psi, size_t i) co
     return;
   }
 
-  i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  i-=n; n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     for(auto& psiS : fullRange<V1>(psi)) li1->actWithJ(t,psiS,i);
     return;
   }
@@ -260,8 +260,8 @@ void binary::Liouvillean::actWithSuperoperator_v(double t, const DensityOperator
     return;
   }
 
-  i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  i-=n; n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     boost::range::for_each(fullRange<V1>(rho),fullRange<V1>(drhodt),lambda(li1));
     return;
   }
-- 
2.43.0


From b15eb15da00e5a228dd1786e53925e564ba62baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:42 +0000
Subject: [PATCH 14/21] fix: Composite: the interactions count in the highest
 frequency

---
 CPPQEDcore/composites/Composite.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/composites/Composite.tcc b/CPPQEDcore/composites/Composite.tcc
index 1c2c1e9..38ca8b3 100644
--- a/CPPQEDcore/composites/Composite.tcc
+++ b/CPPQEDcore/composites/Composite.tcc
@@ -117,13 +117,15 @@ std::ostream& composite::Base<VA>::streamParameters_v(std::ostream& os) const
 template<typename VA>
 double composite::Base<VA>::highestFrequency_v() const
 {
-  return boost::max_element(
+  double res=boost::max_element(
     frees_,
     [](const SubSystemFree& ssf1, const SubSystemFree& ssf2) {
       return ssf1.get()->highestFrequency() < ssf2.get()->highestFrequency();
     })->get()->highestFrequency();
   
-  // NEEDS_WORK add the interactions here
+  boost::fusion::for_each(acts_,[&](const auto& act) {res=std::max(res,act.get()->highestFrequency());});
+
+  return res;
 }
 
 
-- 
2.43.0


From 0e5dae1c0426f52168fb2f9e257fdc3a821c7ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:50 +0000
Subject: [PATCH 15/21] fix: MCWF_Trajectory: stepping back restores the
 reference time of the interaction picture as well

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 1646809..6d047d5 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -348,7 +348,7 @@ template<int RANK, typename ODE_Engine, typename RandomEngine>
 void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(double Dt, std::ostream& logStream)
 {
   const StateVector psiCache(psi_); // deep copy
-  double tCache=t_, dtDidCache=getDtDid();
+  double tCache=t_, t0Cache=t0_, dtDidCache=getDtDid();
 
   coherentTimeDevelopment(Dt,logStream);
 
@@ -358,7 +358,7 @@ void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(doub
     IndexSVL_tuples specialRates=calculateSpecialRates(&rates);
 
     while (manageTimeStep(rates,tCache,dtDidCache,logStream)) {
-      psi_=psiCache;
+      psi_=psiCache; t0_=t0Cache;
       coherentTimeDevelopment(Dt,logStream); // the next try
       rates=li->rates(t_,psi_);
       specialRates=calculateSpecialRates(&rates);
-- 
2.43.0


From 8ef079c7eee574c0531cd374e2e35eb9159a2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:13 +0000
Subject: [PATCH 16/21] fix: ODE engine: stepping backward always proceeds in
 the direction of the interval

---
 CPPQEDutils/ODE.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDutils/ODE.h b/CPPQEDutils/ODE.h
index 7583935..6c228b1 100644
--- a/CPPQEDutils/ODE.h
+++ b/CPPQEDutils/ODE.h
@@ -238,7 +238,7 @@ void cppqedutils::ode_engine::Base<ControlledErrorStepper,Logger>::step(Time del
   
   Time nextDtTry=( fabs(deltaT)<fabs(dtTry_/nextDtTryCorrectionFactor) ? dtTry_ : 0. );
   
-  if (sign(deltaT)!=sign(dtTry_)) dtTry_=-dtDid_; // Stepping backward
+  if (sign(deltaT)!=sign(dtTry_)) dtTry_=std::copysign(dtDid_ ? dtDid_ : dtTry_,deltaT); // Stepping backward
   
   if (fabs(dtTry_)>fabs(deltaT)) dtTry_=deltaT;
   
-- 
2.43.0


From a9ae9330fefc78febf08d1c759c9363e839023cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:50 +0000
Subject: [PATCH 17/21] fix: trajectory::run: everything streamed is returned,
 also when streaming only at the end instant

---
 CPPQEDutils/Trajectory.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index bc60033..4e53e8c 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -543,7 +543,14 @@ cppqedutils::trajectory::run(TRAJ&& traj, LENGTH length, DELTA streamFreq, unsig
       commentingStream<<"Continuing from time "<<traj.getTime()<<" up to time "<<timeToReach<<endl;
   }
 
-  if (!timeToReach) {stream(traj,os,precision); return res;}
+  // streaming at the actual time instant, also storing what has been streamed if that is to be returned
+  const auto streamAndStore=[&]() {
+    auto streamReturn{stream(traj,os,precision)};
+    if (returnStreamedArray) res.emplace_back(traj.getTime(),traj.getDtDid(),get<1>(streamReturn));
+    return streamReturn;
+  };
+
+  if (!timeToReach) {streamAndStore(); return res;}
 
   //////////////////////////////
   // Mid section: the actual run
@@ -587,8 +594,7 @@ cppqedutils::trajectory::run(TRAJ&& traj, LENGTH length, DELTA streamFreq, unsig
 
         if (count || !continuing) {
           arrayStreamed=true;
-          auto streamReturn{stream(traj,os,precision)};
-          if (returnStreamedArray) res.emplace_back(traj.getTime(),traj.getDtDid(),get<1>(streamReturn));
+          auto streamReturn{streamAndStore()};
           autostopHandler(get<1>(streamReturn));
         }
       }
@@ -596,7 +602,7 @@ cppqedutils::trajectory::run(TRAJ&& traj, LENGTH length, DELTA streamFreq, unsig
 
   } catch (const StoppingCriterionReachedException& except) {commentingStream<<"Stopping criterion has been reached"<<endl;}
   
-  if (!arrayStreamed) stream(traj,os,precision); // Stream at the end instant if stream has not happened yet
+  if (!arrayStreamed) streamAndStore(); // Stream at the end instant if stream has not happened yet
 
   //////////////////////////////////////////
   // Logging on end, saving trajectory state
-- 
2.43.0


From 9543b219611fb753b169db7da68975d66933e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 18/21] fix: ReducedDensityOperatorNegativity: the matrix
 elements are kept when the negativity is appended

---
 CPPQEDelements/utils/AveragingUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/utils/AveragingUtils.h b/CPPQEDelements/utils/AveragingUtils.h
index 08b09c6..838d209 100644
--- a/CPPQEDelements/utils/AveragingUtils.h
+++ b/CPPQEDelements/utils/AveragingUtils.h
@@ -110,7 +110,7 @@ private:
   const structure::Averages average_v(structure::NoTime t, const quantumdata::LazyDensityOperator<RANK>& matrix) const override
   {
     auto res(Base::average_v(t,matrix));
-    res.resize(res.size()+1);
+    res.resizeAndPreserve(res.size()+1);
     return res;
   }
 
-- 
2.43.0


From d1bb8ac50b9bb5b48584e099799c056a84b89b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:42 +0000
Subject: [PATCH 19/21] fix: averages extending other ones (cutoff monitor,
 negativity) are cloned in full

---
 CPPQEDelements/frees/Mode_.h          | 3 +++
 CPPQEDelements/utils/AveragingUtils.h | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/CPPQEDelements/frees/Mode_.h b/CPPQEDelements/frees/Mode_.h
index 49cc45a..dc25e8e 100644
--- a/CPPQEDelements/frees/Mode_.h
+++ b/CPPQEDelements/frees/Mode_.h
@@ -280,10 +280,13 @@ class AveragedMonitorCutoff : public Base
 {
 public:
   typedef typename Base::KeyLabels KeyLabels;
+  typedef typename Base::ClonedPtr ClonedPtr;
 
   AveragedMonitorCutoff();
 
 private:
+  const ClonedPtr do_clone() const {return new AveragedMonitorCutoff(*this);}
+
   const Averages average_v(NoTime t, const LazyDensityOperator& matrix) const
   {
     auto averages{Base::average_v(t,matrix)}; // This is already of the correct size, since nAvr knows about the size updated by the derived class
diff --git a/CPPQEDelements/utils/AveragingUtils.h b/CPPQEDelements/utils/AveragingUtils.h
index 838d209..62fcfeb 100644
--- a/CPPQEDelements/utils/AveragingUtils.h
+++ b/CPPQEDelements/utils/AveragingUtils.h
@@ -107,6 +107,8 @@ public:
     : Base(label,dim,true,boost::assign::list_of("negativity")) {}
 
 private:
+  structure::ClonableElementAveraged<RANK>*const do_clone() const override {return new ReducedDensityOperatorNegativity(*this);}
+
   const structure::Averages average_v(structure::NoTime t, const quantumdata::LazyDensityOperator<RANK>& matrix) const override
   {
     auto res(Base::average_v(t,matrix));
-- 
2.43.0


From 98ba9eb14612af89f834805581e7734818bd4c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:20 +0000
Subject: [PATCH 20/21] fix: particle::hoState without a given width uses the
 trap ground state's width

The width taken over from the coherent state was the position uncertainty,
which hoState interprets as the oscillator length, sqrt(2) times larger.
---
 CPPQEDelements/frees/Particle.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/CPPQEDelements/frees/Particle.cc b/CPPQEDelements/frees/Particle.cc
index 3e9e2d3..f5089f4 100644
--- a/CPPQEDelements/frees/Particle.cc
+++ b/CPPQEDelements/frees/Particle.cc
@@ -433,10 +433,13 @@ auto particle::hoState(const Pars      & p, bool kFlag) -> StateVector
 auto particle::hoState(const ParsPumped& p, bool kFlag) -> StateVector
 {
   if (p.init.getSig()) return hoState(static_cast<const Pars&>(p),kFlag);
-  else                 return hoState(p.hoInitn,
-                                      coherent(p),
-                                      Spatial(p.fin),
-                                      kFlag);
+  else { // the characteristic length of the oscillator is sqrt(2) times the standard deviation of its ground state
+    const InitialCondition ground(coherent(p));
+    return hoState(p.hoInitn,
+                   InitialCondition(ground.getX0(),ground.getK0(),sqrt(2)*ground.getSig()),
+                   Spatial(p.fin),
+                   kFlag);
+  }
 }
 
 
-- 
2.43.0


From 8e0d271d5b591163db7216f0ba93ee7791caae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:20 +0000
Subject: [PATCH 21/21] fix: PumpedLossyQbitWithPhaseNoiseUIP lists its pump
 among the frequencies

---
 CPPQEDelements/frees/Qbit.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Qbit.cc b/CPPQEDelements/frees/Qbit.cc
index 1d8fd74..ba027c1 100644
--- a/CPPQEDelements/frees/Qbit.cc
+++ b/CPPQEDelements/frees/Qbit.cc
@@ -195,7 +195,7 @@ PumpedLossyQbitWithPhaseNoise::PumpedLossyQbitWithPhaseNoise(const qbit::ParsPum
 PumpedLossyQbitWithPhaseNoiseUIP::PumpedLossyQbitWithPhaseNoiseUIP(const qbit::ParsPumpedLossyPhaseNoise& p)
   : qbit::Hamiltonian<true>(dcomp(p.gamma,0),dcomp(0,-p.delta),p.eta),
     qbit::LiouvilleanPhaseNoise(p.gamma,p.gamma_parallel),
-    QbitBase{RF{"gamma_parallel",p.gamma_parallel,1},TUPLE_gamma,TUPLE_delta(1)}
+    QbitBase({RF{"gamma_parallel",p.gamma_parallel,1},TUPLE_gamma,TUPLE_delta(1)},TUPLE_eta)
 {
   getParsStream()<<"PumpedLossyWithPhaseNoise, Unitary interaction picture.\n";
 }
-- 
2.43.0

