// Models (contracts) of the few GSL functions the libraries call, compiled through the symbolic pass in place of libgsl.
#include <gsl/gsl_math.h>
#include <gsl/gsl_fft_complex.h>
#include <cmath>
#include <complex>
#include <vector>
#include <cstdlib>
#include <cstdint>
#include <cstring>
extern "C" {
double gsl_pow_2(const double x) {return x*x;}
double gsl_sf_fact(const unsigned int n) {double r=1; for (unsigned i=2; i<=n; ++i) r*=i; return r;}
double gsl_sf_choose(unsigned int n, unsigned int m) {double r=1; for (unsigned i=1; i<=m; ++i) r=r*double(n-m+i)/double(i); return r;}
static bool symbolic(double x) {uint64_t b; memcpy(&b,&x,8); return (b>>48)==0xFFFC;}
// concrete arguments: GSL's definition; symbolic ones: exact comparison (the tolerance is idealised away)
int gsl_fcmp(const double x1, const double x2, const double epsilon) {
  if (symbolic(x1)||symbolic(x2)||symbolic(epsilon)) {if (x1==x2) return 0; return x1>x2 ? 1 : -1;}
  int exponent; double mx=std::fabs(x1)>std::fabs(x2) ? x1 : x2; frexp(mx,&exponent);
  double delta=ldexp(epsilon,exponent), difference=x1-x2;
  if (difference>delta) return 1; else if (difference<-delta) return -1; return 0;
}
// unnormalised discrete Fourier transform, n a power of two up to 16:  out_k = sum_j in_j exp(sign*2 pi i j k/n)
int gsl_fft_complex_radix2_transform(gsl_complex_packed_array data, const size_t stride, const size_t n, const gsl_fft_direction sign) {
  if (n&(n-1)) return 1; // GSL_EDOM
  if (n>16) abort();
  auto root=[&](size_t k) { // exp(2 pi i k/n)
    k=k%n*(16/n); // in units of 1/16
    static const double r2=std::sqrt(.5);
    auto c16=[&](int q) -> double { // cos(2 pi q/16)
      q=((q%16)+16)%16; if (q>8) q=16-q; bool ng=q>4; if (ng) q=8-q;
      double v = q==0 ? 1. : q==4 ? 0. : q==2 ? r2 : q==1 ? std::sqrt(.5+.5*r2) : std::sqrt(.5-.5*r2);
      return ng ? -v : v;
    };
    return std::complex<double>(c16(k),c16(int(k)-4));
  };
  std::vector<std::complex<double>> in(n), out(n);
  for (size_t j=0;j<n;++j) in[j]={data[2*stride*j],data[2*stride*j+1]};
  for (size_t k=0;k<n;++k) {
    double re=0, im=0;
    for (size_t j=0;j<n;++j) {auto w=root(j*k); double wi = sign==gsl_fft_forward ? -w.imag() : w.imag(); re=re+(in[j].real()*w.real()-in[j].imag()*wi); im=im+(in[j].real()*wi+in[j].imag()*w.real());}
    out[k]={re,im};
  }
  for (size_t j=0;j<n;++j) {data[2*stride*j]=out[j].real(); data[2*stride*j+1]=out[j].imag();}
  return 0;
}
}
