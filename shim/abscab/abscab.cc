#include "abscab/abscab.hh"
#include <cmath>
namespace abscab {
namespace {
void EllipKE(double m, double& K, double& E) {  // parameter m = k^2 < 1, by AGM
  double a = 1.0, b = std::sqrt(1.0 - m), c = std::sqrt(m), s = 0.5 * m, p = 1.0;
  for (int i = 0; i < 40 && std::fabs(c) > 1e-17; ++i) {
    const double an = 0.5 * (a + b), bn = std::sqrt(a * b);
    c = 0.5 * (a - b); a = an; b = bn; s += p * c * c; p *= 2.0;
  }
  K = M_PI / (2.0 * a);
  E = K * (1.0 - s);
}
struct Frame { double n[3]; };
void Local(const double* center, const double* n, const double* x, double& z, double& rho, double* er) {
  double d[3] = {x[0] - center[0], x[1] - center[1], x[2] - center[2]};
  z = d[0] * n[0] + d[1] * n[1] + d[2] * n[2];
  for (int i = 0; i < 3; ++i) er[i] = d[i] - z * n[i];
  rho = std::sqrt(er[0] * er[0] + er[1] * er[1] + er[2] * er[2]);
  if (rho > 0) for (int i = 0; i < 3; ++i) er[i] /= rho;
}
void Unit(const double* normal, double* n) {
  const double l = std::sqrt(normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2]);
  for (int i = 0; i < 3; ++i) n[i] = normal[i] / l;
}
}  // namespace

void magneticFieldPolygonFilament(int nv, const double* v, double current, int ne, const double* x, double* b, int, bool) {
  const double scale = MU_0 / (4.0 * M_PI) * current * 2.0;
  for (int s = 0; s + 1 < nv; ++s) {
    const double* p = v + 3 * s; const double* q = p + 3;
    const double d[3] = {q[0] - p[0], q[1] - p[1], q[2] - p[2]};
    const double L2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
    if (L2 == 0.0) continue;
    for (int e = 0; e < ne; ++e) {
      const double* y = x + 3 * e;
      const double ri[3] = {y[0] - p[0], y[1] - p[1], y[2] - p[2]};
      const double rf[3] = {y[0] - q[0], y[1] - q[1], y[2] - q[2]};
      const double Ri = std::sqrt(ri[0] * ri[0] + ri[1] * ri[1] + ri[2] * ri[2]);
      const double Rf = std::sqrt(rf[0] * rf[0] + rf[1] * rf[1] + rf[2] * rf[2]);
      const double S = Ri + Rf;
      const double m = scale * S / (Ri * Rf * (S * S - L2));
      b[3 * e + 0] += m * (d[1] * ri[2] - d[2] * ri[1]);
      b[3 * e + 1] += m * (d[2] * ri[0] - d[0] * ri[2]);
      b[3 * e + 2] += m * (d[0] * ri[1] - d[1] * ri[0]);
    }
  }
}
void vectorPotentialPolygonFilament(int nv, const double* v, double current, int ne, const double* x, double* a, int, bool) {
  const double scale = MU_0 / (4.0 * M_PI) * current;
  for (int s = 0; s + 1 < nv; ++s) {
    const double* p = v + 3 * s; const double* q = p + 3;
    const double d[3] = {q[0] - p[0], q[1] - p[1], q[2] - p[2]};
    const double L = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
    if (L == 0.0) continue;
    for (int e = 0; e < ne; ++e) {
      const double* y = x + 3 * e;
      const double Ri = std::hypot(y[0] - p[0], y[1] - p[1], y[2] - p[2]);
      const double Rf = std::hypot(y[0] - q[0], y[1] - q[1], y[2] - q[2]);
      const double f = scale * 2.0 * std::atanh(L / (Ri + Rf)) / L;
      for (int i = 0; i < 3; ++i) a[3 * e + i] += f * d[i];
    }
  }
}
void magneticFieldCircularFilament(const double* center, const double* normal, double R, double current, int ne,
                                   const double* x, double* b) {
  double n[3]; Unit(normal, n);
  const double C = MU_0 * current / (2.0 * M_PI);
  for (int e = 0; e < ne; ++e) {
    double z, rho, er[3]; Local(center, n, x + 3 * e, z, rho, er);
    double bz, br = 0.0;
    if (rho < 1e-14 * R) {
      bz = MU_0 * current * R * R / (2.0 * std::pow(R * R + z * z, 1.5));
    } else {
      const double al2 = (R - rho) * (R - rho) + z * z, be2 = (R + rho) * (R + rho) + z * z, be = std::sqrt(be2);
      double K, E; EllipKE(4.0 * R * rho / be2, K, E);
      bz = C / be * (K + E * (R * R - rho * rho - z * z) / al2);
      br = C * z / (rho * be) * (-K + E * (R * R + rho * rho + z * z) / al2);
    }
    for (int i = 0; i < 3; ++i) b[3 * e + i] += bz * n[i] + br * er[i];
  }
}
// The sign follows abscab-cpp: its caller negates the current to get the physical
// potential (see the FIXME in magnetic_field_provider_lib.cc).
void vectorPotentialCircularFilament(const double* center, const double* normal, double R, double current, int ne,
                                     const double* x, double* a) {
  double n[3]; Unit(normal, n);
  for (int e = 0; e < ne; ++e) {
    double z, rho, er[3]; Local(center, n, x + 3 * e, z, rho, er);
    if (rho < 1e-14 * R) continue;
    const double be2 = (R + rho) * (R + rho) + z * z, k2 = 4.0 * R * rho / be2;
    double K, E; EllipKE(k2, K, E);
    const double aphi = -MU_0 * current / (M_PI * std::sqrt(k2)) * std::sqrt(R / rho) * ((1.0 - 0.5 * k2) * K - E);
    // e_phi = n x e_rho
    a[3 * e + 0] += aphi * (n[1] * er[2] - n[2] * er[1]);
    a[3 * e + 1] += aphi * (n[2] * er[0] - n[0] * er[2]);
    a[3 * e + 2] += aphi * (n[0] * er[1] - n[1] * er[0]);
  }
}
}  // namespace abscab
