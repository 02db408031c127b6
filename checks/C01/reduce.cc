// Partial trace, reduction and slicing of state vectors and density operators
#include "qh.h"
using namespace qh;
using namespace quantumdata; using tmptools::Vector;
namespace {
// reference: trace out everything but the axes in `keep` (in that order)
M ptrace(const M& m, const vector<int>& d, const vector<int>& keep) {
  int R=d.size(); vector<int> rest; for (int i=0;i<R;++i) if (std::find(keep.begin(),keep.end(),i)==keep.end()) rest.push_back(i);
  int nk=1, nr=1; for (int k : keep) nk*=d[k]; for (int k : rest) nr*=d[k];
  auto flat=[&](int k, int r) {vector<int> ix(R); for (int q=int(keep.size())-1;q>=0;--q) {ix[keep[q]]=k%d[keep[q]]; k/=d[keep[q]];} for (int q=int(rest.size())-1;q>=0;--q) {ix[rest[q]]=r%d[rest[q]]; r/=d[rest[q]];} int f=0; for (int q=0;q<R;++q) f=f*d[q]+ix[q]; return f;};
  M out(nk); for (int i=0;i<nk;++i) for (int j=0;j<nk;++j) {C s=0; for (int r=0;r<nr;++r) s+=m(flat(i,r),flat(j,r)); out(i,j)=s;}
  return out;
}
template<int R> M full(const DensityOperator<R>& rho) {
  Dims<R> d; for (int i=0;i<R;++i) d(i)=rho.getDimensions()(i);
  M m(total<R>(d)); for (int i=0;i<m.n;++i) for (int j=0;j<m.n;++j) m(i,j)=rho(unflat<R>(d,i))(unflat<R>(d,j)); return m;
}
template<int R> M lazy(const LazyDensityOperator<R>& rho) {
  Dims<R> d; for (int i=0;i<R;++i) d(i)=rho.getDimensions()(i);
  M m(total<R>(d)); for (int i=0;i<m.n;++i) for (int j=0;j<m.n;++j) m(i,j)=rho(unflat<R>(d,i))(unflat<R>(d,j)); return m;
}
template<int... S, int R> void one(const vector<int>& d, const StateVector<R>& psi, const M& pp, const DensityOperator<R>& rho, const M& m) {
  typedef Vector<S...> VS; vector<int> keep{S...}; string l="reduce to"; for (int k : keep) l+=" "+std::to_string(k);
  M rp=ptrace(pp,d,keep), rm=ptrace(m,d,keep);
  const LazyDensityOperator<R>& lp=psi; const LazyDensityOperator<R>& lr=rho;
  eq(full(reduce<VS>(lp)),rp,l+" (state vector)");
  {auto x=reduce<VS>(rho); eq(full(x),rm,l+" (density operator)"); sr_eq(x.trace(),tr(m).real(),l+" keeps the trace");}
  // any linear function of the reduced state, through both representations
  const int K=sizeof...(S);
  auto f=[](const LazyDensityOperator<K>& x) {M y=lazy<K>(x); double s=0; for (int i=0;i<y.n;++i) for (int j=0;j<y.n;++j) s+=(i+1)*(y(i,j).real()+(2*j+i)*y(i,j).imag()); return s;};
  auto fref=[](const M& y) {double s=0; for (int i=0;i<y.n;++i) for (int j=0;j<y.n;++j) s+=(i+1)*(y(i,j).real()+(2*j+i)*y(i,j).imag()); return s;};
  sr_eq(partialTrace<VS>(lp,f),fref(rp),l+" function (state vector)");
  sr_eq(partialTrace<VS>(lr,f),fref(rm),l+" function (density operator)");
  // diagonals through the real-valued access
  auto g=[](const LazyDensityOperator<K>& x) {Dims<K> dd; for (int i=0;i<K;++i) dd(i)=x.getDimensions()(i); double s=0; for (int i=0;i<total<K>(dd);++i) s+=(i+1)*double(x(unflat<K>(dd,i))); return s;};
  {double s=0; for (int i=0;i<rp.n;++i) s+=(i+1)*rp(i,i).real(); sr_eq(partialTrace<VS>(lp,g),s,l+" diagonal (state vector)");}
  {double s=0; for (int i=0;i<rm.n;++i) s+=(i+1)*rm(i,i).real(); sr_eq(partialTrace<VS>(lr,g),s,l+" diagonal (density operator)");}
  auto tf=[](const LazyDensityOperator<K>& x) {return x.trace();};
  sr_eq(partialTrace<VS>(lp,tf),tr(pp).real(),l+" trace (state vector)");
  sr_eq(partialTrace<VS>(lr,tf),tr(m).real(),l+" trace (density operator)");
}
template<int R> struct Both {vector<int> d; StateVector<R> psi; M pp; DensityOperator<R> rho; M m;
  Both(Dims<R> dd, bool general=true) : psi(sv<R>(vsym(total<R>(dd),"psi"),dd)), rho(dop<R>(hsym(total<R>(dd),"rho"),dd)) {
    for (int i=0;i<R;++i) d.push_back(dd(i)); V v=vec<R>(psi.getArray()); pp=dyad(v,v); m=mat<R>(rho.getArray());
  }};
}
SR_SCENARIO(rank2) {Both<2> b(sr_choice(2,"shape") ? dims<2>({2,3}) : dims<2>({3,2})); one<0>(b.d,b.psi,b.pp,b.rho,b.m); one<1>(b.d,b.psi,b.pp,b.rho,b.m);}
SR_SCENARIO(rank3_single) {Both<3> b(dims<3>({2,3,2})); one<0>(b.d,b.psi,b.pp,b.rho,b.m); one<1>(b.d,b.psi,b.pp,b.rho,b.m); one<2>(b.d,b.psi,b.pp,b.rho,b.m);}
SR_SCENARIO(rank3_pairs) {Both<3> b(dims<3>({2,3,2})); one<0,1>(b.d,b.psi,b.pp,b.rho,b.m); one<0,2>(b.d,b.psi,b.pp,b.rho,b.m); one<1,2>(b.d,b.psi,b.pp,b.rho,b.m);}
SR_SCENARIO(rank3_permuted) {Both<3> b(dims<3>({2,3,2})); one<1,0>(b.d,b.psi,b.pp,b.rho,b.m); one<2,0>(b.d,b.psi,b.pp,b.rho,b.m); one<2,1>(b.d,b.psi,b.pp,b.rho,b.m);}
SR_SCENARIO(rank4) {Both<4> b(dims<4>({2,1,2,2})); one<0,3>(b.d,b.psi,b.pp,b.rho,b.m); one<2>(b.d,b.psi,b.pp,b.rho,b.m); one<0,2,3>(b.d,b.psi,b.pp,b.rho,b.m); one<3,1,0>(b.d,b.psi,b.pp,b.rho,b.m);}
// element access of the common interface
SR_SCENARIO(access) {
  Both<2> b(dims<2>({2,3}));
  const LazyDensityOperator<2>& lp=b.psi; const LazyDensityOperator<2>& lr=b.rho;
  eq(lazy<2>(lp),b.pp,"elements of a state vector"); eq(lazy<2>(lr),b.m,"elements of a density operator");
  sr_eq(lp.trace(),tr(b.pp).real(),"trace of a state vector"); sr_eq(lr.trace(),tr(b.m).real(),"trace of a density operator");
  for (int i=0;i<2;++i) for (int j=0;j<3;++j) {
    sr_eq(double(lp(i,j)),b.pp(3*i+j,3*i+j).real(),"diagonal of a state vector"); sr_eq(double(lr(i,j)),b.m(3*i+j,3*i+j).real(),"diagonal of a density operator");
    for (int k=0;k<2;++k) for (int l=0;l<3;++l) {sr_eq(lp(i,j)(k,l),b.pp(3*i+j,3*k+l),"subscripts"); sr_eq(lr(i,j)(k,l),b.m(3*i+j,3*k+l),"subscripts");}
  }
}
// a slice of a state vector (density operator) is the conditional (unnormalised) state
SR_SCENARIO(slices) {
  Both<3> b(dims<3>({2,3,2})); V v=vec<3>(b.psi.getArray()); int n=0;
  for (auto i=cppqedutils::sliceiterator::begin<Vector<0,2>,StateVector>(b.psi); i!=cppqedutils::sliceiterator::end<Vector<0,2>,StateVector>(b.psi); ++i, ++n) {
    if (n>=3) break;
    for (int p=0;p<2;++p) for (int q=0;q<2;++q) sr_eq(i->getArray()(p,q),v[(p*3+n)*2+q],"slice of a state vector");
  }
  sr_check(n==3,"number of slices");
  n=0;
  for (auto i=cppqedutils::sliceiterator::begin<Vector<0,2>,DensityOperator>(b.rho); i!=cppqedutils::sliceiterator::end<Vector<0,2>,DensityOperator>(b.rho); ++i, ++n) {
    if (n>=3) break;
    M x=full<2>(DensityOperator<2>(*i)); for (int p=0;p<4;++p) for (int q=0;q<4;++q) sr_eq(x(p,q),b.m(((p/2)*3+n)*2+p%2,((q/2)*3+n)*2+q%2),"slice of a density operator");
  }
  sr_check(n==3,"number of diagonal slices");
}
// slices are views: writing through the slices of an array visits every element exactly once
template<int... S, int R> static void cover(Dims<R> d, const string& l) {
  V v=vsym(total<R>(d),"x"); CArray<R> a(arr<R>(v,d)); C c=sr_cvar("c");
  for (auto& s : cppqedutils::sliceiterator::fullRange<Vector<S...>>(a)) {s*=c; s+=1.;}
  V w=vec<R>(a); for (size_t i=0;i<v.size();++i) sr_eq(w[i],c*v[i]+1.,l);
}
SR_SCENARIO(coverage) {
  cover<0>(dims<2>({2,3}),"slices cover"); cover<1>(dims<2>({2,3}),"slices cover"); cover<0,1>(dims<2>({2,3}),"slices cover");
  cover<1>(dims<3>({2,3,2}),"slices cover"); cover<2,0>(dims<3>({2,3,2}),"slices cover"); cover<1,2>(dims<3>({2,3,2}),"slices cover"); cover<2,1,0>(dims<3>({2,3,2}),"slices cover");
  cover<3,1>(dims<4>({2,3,2,2}),"slices cover"); cover<0,2,3>(dims<4>({2,3,2,2}),"slices cover");
  cover<4,0,2>(dims<5>({2,1,2,2,2}),"slices cover");
}
// the flattened data: the diagonal, then real and imaginary part of every element above it, row by row
template<int R> static void flat(const Dims<R>& d) {
  Both<R> b(d); int n=total<R>(d); M h=hsym(n,"h"); auto rho=dop<R>(h,d);
  auto chk=[&](const DArray<1>& f, const M& m, bool off, const string& l) {
    sr_check(int(f.size())==(off ? n*n : n),l+" length"); if (int(f.size())!=(off ? n*n : n)) return;
    int k=0; for (int i=0;i<n;++i) sr_eq(f(k++),m(i,i).real(),l+" diagonal"); if (!off) return;
    for (int i=0;i<n;++i) for (int j=i+1;j<n;++j) {sr_eq(f(k++),m(i,j).real(),l+" real part"); sr_eq(f(k++),m(i,j).imag(),l+" imaginary part");}
  };
  const LazyDensityOperator<R>& lp=b.psi; const LazyDensityOperator<R>& lr=rho;
  for (bool off : {false,true}) {chk(deflate(lp,off),b.pp,off,"flattened state vector"); chk(deflate(lr,off),h,off,"flattened density operator");}
  // and back
  DArray<1> f(n*n); vector<double> x; for (int k=0;k<n*n;++k) {x.push_back(sr_var(("f"+std::to_string(k)).c_str())); f(k)=x[k];}
  DensityOperator<R> r(d); r.getArray()=0; inflate(f,r,true); M m(n); int k=0; for (int i=0;i<n;++i) m(i,i)=x[k++];
  for (int i=0;i<n;++i) for (int j=i+1;j<n;++j,k+=2) {m(i,j)=C(x[k],x[k+1]); m(j,i)=C(x[k],-x[k+1]);}
  eq(mat<R>(r.getArray()),m,"density operator from flattened data");
  DensityOperator<R> q(d); q.getArray()=0; inflate(f,q,false); M dm(n); for (int i=0;i<n;++i) dm(i,i)=x[i]; eq(mat<R>(q.getArray()),dm,"density operator from its diagonal");
  eq(mat<R>(densityOperatorize(lp).getArray()),b.pp,"density operator of a state vector"); eq(mat<R>(densityOperatorize(lr).getArray()),h,"density operator of a density operator");
}
SR_SCENARIO(flattened) {switch (sr_choice(3,"rank")) {case 0: flat<1>(dims<1>({3})); break; case 1: flat<2>(dims<2>({2,3})); break; case 2: flat<3>(dims<3>({2,1,2})); break;}}
