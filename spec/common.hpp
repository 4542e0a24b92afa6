// Reference definitions used only by the static comparison: nothing here is ever executed.
#pragma once
#include "Sylinder/Sylinder.hpp"
#include <cmath>
#include <limits>
namespace spec {
struct V {
    double x, y, z;
};
inline V add(V a, V b) { return V{a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V sub(V a, V b) { return V{a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V mul(double s, V a) { return V{s * a.x, s * a.y, s * a.z}; }
inline double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V a, V b) { return V{a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double norm(V a) { return sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }
inline V vec(const double *p) { return V{p[0], p[1], p[2]}; }
inline void put(double *p, V v) {
    p[0] = v.x;
    p[1] = v.y;
    p[2] = v.z;
}
inline double at(V a, int k) { return k == 0 ? a.x : k == 1 ? a.y : a.z; }
// rotation of the unit vectors by the quaternion (x,y,z,w)
inline V axis(const double *q) {
    return V{2 * (q[0] * q[2] + q[3] * q[1]), 2 * (q[1] * q[2] - q[3] * q[0]), 1 - 2 * (q[0] * q[0] + q[1] * q[1])};
}
inline V axisx(const double *q) {
    return V{1 - 2 * (q[1] * q[1] + q[2] * q[2]), 2 * (q[0] * q[1] + q[3] * q[2]), 2 * (q[0] * q[2] - q[3] * q[1])};
}
inline bool isSphere(const Sylinder &s) { return s.length < s.radius * 2; }
inline bool isSphereCol(const Sylinder &s) { return s.lengthCollision < s.radiusCollision * 2; }
inline void drag(const Sylinder &s, double mu, double &para, double &perp, double &rot) {
    const double pi = 3.14159265358979323846;
    if (isSphere(s)) {
        const double R = s.length / 2 + s.radius;
        para = perp = 6 * pi * mu * R;
        rot = 8 * pi * mu * R * R * R;
    } else {
        const double b = -(1 + 2 * log(s.radius / s.length));
        para = 8 * pi * s.length * mu / (2 * b);
        perp = 8 * pi * s.length * mu / (b + 2);
        rot = 2 * pi * mu * s.length * s.length * s.length / (3 * (b + 2));
    }
}
// one Euler step of a unit quaternion: multiply by the rotation of angle |w| dt about w, renormalise
inline void rotate(double *q, V w, double dt) {
    const double n = norm(w);
    if (n < std::numeric_limits<float>::epsilon())
        return;
    const double c = cos(n * dt / 2), s = sin(n * dt / 2);
    const V u = mul(s / n, w);
    const V p{q[0], q[1], q[2]};
    const double w0 = q[3];
    const double r = c * w0 - dot(u, p);
    const V v = add(add(mul(c, p), mul(w0, u)), cross(u, p));
    const double m = sqrt(v.x * v.x + v.y * v.y + v.z * v.z + r * r);
    q[0] = v.x / m;
    q[1] = v.y / m;
    q[2] = v.z / m;
    q[3] = r / m;
}
inline void step(Sylinder &s, double dt) {
    for (int k = 0; k < 3; k++)
        s.pos[k] += s.vel[k] * dt;
    rotate(s.orientation, vec(s.omega), dt);
}
inline void clear(Sylinder &s) {
    for (int k = 0; k < 3; k++) {
        s.vel[k] = s.omega[k] = s.velCol[k] = s.omegaCol[k] = s.velBi[k] = s.omegaBi[k] = s.velNonB[k] = s.omegaNonB[k] = 0;
        s.force[k] = s.torque[k] = s.forceCol[k] = s.torqueCol[k] = s.forceBi[k] = s.torqueBi[k] = s.forceNonB[k] =
            s.torqueNonB[k] = 0;
        s.velBrown[k] = s.omegaBrown[k] = 0;
    }
    s.sepmin = std::numeric_limits<double>::max();
    s.globalIndex = GEO_INVALID_INDEX;
    s.rank = -1;
}
} // namespace spec
