// One name for the single and double precision version of each function, so laws can be templates.
#pragma once
#include "slalib.h"
namespace ov {
#define OV_F inline
OV_F float dot(const float* a, const float* b) { return sla::vdv(a, b); }
OV_F double dot(const double* a, const double* b) { return sla::dvdv(a, b); }
OV_F float vn(const float* a, float* b) { return sla::vn(a, b); }
OV_F double vn(const double* a, double* b) { return sla::dvn(a, b); }
OV_F void vxv(const float* a, const float* b, float* c) { sla::vxv(a, b, c); }
OV_F void vxv(const double* a, const double* b, double* c) { sla::dvxv(a, b, c); }
OV_F void mxm(const float (*a)[3], const float (*b)[3], float (*c)[3]) { sla::mxm(a, b, c); }
OV_F void mxm(const double (*a)[3], const double (*b)[3], double (*c)[3]) { sla::dmxm(a, b, c); }
OV_F void mxv(const float (*a)[3], const float* b, float* c) { sla::mxv(a, b, c); }
OV_F void mxv(const double (*a)[3], const double* b, double* c) { sla::dmxv(a, b, c); }
OV_F void imxv(const float (*a)[3], const float* b, float* c) { sla::imxv(a, b, c); }
OV_F void imxv(const double (*a)[3], const double* b, double* c) { sla::dimxv(a, b, c); }
OV_F void euler(const char* o, float a, float b, float c, float (*m)[3]) { sla::euler(o, a, b, c, m); }
OV_F void euler(const char* o, double a, double b, double c, double (*m)[3]) { sla::deuler(o, a, b, c, m); }
OV_F void av2m(const float* v, float (*m)[3]) { sla::av2m(v, m); }
OV_F void av2m(const double* v, double (*m)[3]) { sla::dav2m(v, m); }
OV_F void m2av(const float (*m)[3], float* v) { sla::m2av(m, v); }
OV_F void m2av(const double (*m)[3], double* v) { sla::dm2av(m, v); }
OV_F void cc2s(const float* v, sla::Spherical<float>& s) { sla::cc2s(v, s); }
OV_F void cc2s(const double* v, sla::Spherical<double>& s) { sla::dcc2s(v, s); }
OV_F void cs2c(const sla::Spherical<float>& s, float* v) { sla::cs2c(s, v); }
OV_F void cs2c(const sla::Spherical<double>& s, double* v) { sla::dcs2c(s, v); }
OV_F void cc62s(const sla::VectorPV<float>& v, sla::SphericalPV<float>& s) { sla::cc62s(v, s); }
OV_F void cc62s(const sla::VectorPV<double>& v, sla::SphericalPV<double>& s) { sla::dc62s(v, s); }
OV_F void cs2c6(const sla::SphericalPV<float>& s, sla::VectorPV<float>& v) { sla::cs2c6(s, v); }
OV_F void cs2c6(const sla::SphericalPV<double>& s, sla::VectorPV<double>& v) { sla::ds2c6(s, v); }
OV_F float sep(const sla::Spherical<float>& a, const sla::Spherical<float>& b) { return sla::sep(a, b); }
OV_F double sep(const sla::Spherical<double>& a, const sla::Spherical<double>& b) { return sla::dsep(a, b); }
OV_F float sepv(const float* a, const float* b) { return sla::sepv(a, b); }
OV_F double sepv(const double* a, const double* b) { return sla::dsepv(a, b); }
OV_F float bear(const sla::Spherical<float>& a, const sla::Spherical<float>& b) { return sla::bear(a, b); }
OV_F double bear(const sla::Spherical<double>& a, const sla::Spherical<double>& b) { return sla::dbear(a, b); }
OV_F float pav(const float* a, const float* b) { return sla::pav(a, b); }
OV_F double pav(const double* a, const double* b) { return sla::dpav(a, b); }
OV_F void e2h(const sla::Spherical<float>& d, float p, float& a, float& e) { sla::e2h(d, p, a, e); }
OV_F void e2h(const sla::Spherical<double>& d, double p, double& a, double& e) { sla::de2h(d, p, a, e); }
OV_F void h2e(float a, float e, float p, sla::Spherical<float>& d) { sla::h2e(a, e, p, d); }
OV_F void h2e(double a, double e, double p, sla::Spherical<double>& d) { sla::dh2e(a, e, p, d); }
OV_F sla::TPPStatus s2tp(const sla::Spherical<float>& p, const sla::Spherical<float>& t, float& x, float& y) { return sla::s2tp(p, t, x, y); }
OV_F sla::TPPStatus s2tp(const sla::Spherical<double>& p, const sla::Spherical<double>& t, double& x, double& y) { return sla::ds2tp(p, t, x, y); }
OV_F void tp2s(float x, float y, const sla::Spherical<float>& t, sla::Spherical<float>& p) { sla::tp2s(x, y, t, p); }
OV_F void tp2s(double x, double y, const sla::Spherical<double>& t, sla::Spherical<double>& p) { sla::dtp2s(x, y, t, p); }
OV_F int tps2c(float x, float y, const sla::Spherical<float>& p, sla::Spherical<float>& a, sla::Spherical<float>& b) { return sla::tps2c(x, y, p, a, b); }
OV_F int tps2c(double x, double y, const sla::Spherical<double>& p, sla::Spherical<double>& a, sla::Spherical<double>& b) { return sla::dtps2c(x, y, p, a, b); }
OV_F void tp2v(float x, float y, const float* t, float* p) { sla::tp2v(x, y, t, p); }
OV_F void tp2v(double x, double y, const double* t, double* p) { sla::dtp2v(x, y, t, p); }
OV_F sla::TPPStatus v2tp(const float* p, const float* t, float& x, float& y) { return sla::v2tp(p, t, x, y); }
OV_F sla::TPPStatus v2tp(const double* p, const double* t, double& x, double& y) { return sla::dv2tp(p, t, x, y); }
OV_F int tpv2c(float x, float y, const float* p, float* a, float* b) { return sla::tpv2c(x, y, p, a, b); }
OV_F int tpv2c(double x, double y, const double* p, double* a, double* b) { return sla::dtpv2c(x, y, p, a, b); }
OV_F bool mat_inv(int n, float* m, float* v, float& d, int* w) { return sla::smat(n, m, v, d, w); }
OV_F bool mat_inv(int n, double* m, double* v, double& d, int* w) { return sla::dmat(n, m, v, d, w); }

template <class T> constexpr ld eps() { return sizeof(T) == 4? 1.1920928955078125e-7L: 2.220446049250313e-16L; }
template <class T> T angle(Gen& g, double span = 6.283185307179586) { return sizeof(T) == 4? (T) g.anglef((float) span): (T) g.angle(span); }
template <class T> T lat(Gen& g) { return sizeof(T) == 4? (T) g.latf(): (T) g.lat(); }
template <class T> T real(Gen& g, double lo, double hi, const std::vector<double>& sp = {}) { return sizeof(T) == 4? (T) g.realf((float) lo, (float) hi, sp): (T) g.real(lo, hi, sp); }
} // ov
