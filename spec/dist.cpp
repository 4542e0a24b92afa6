// closest points of a point or segment and a segment
#include "Collision/DCPQuery.hpp"
#include "common.hpp"
#include "Util/EigenDef.hpp"
#include "Sylinder/SylinderNear.hpp"
namespace spec {
using Query = DCPQuery<3, double, Evec3>;

double pointSegment(const Evec3 &x, const Evec3 &m, const Evec3 &p, Evec3 &q) {
    const V X{x[0], x[1], x[2]}, M{m[0], m[1], m[2]}, D = sub(V{p[0], p[1], p[2]}, M);
    const double t = dot(D, sub(X, M)), l = dot(D, D);
    V c;
    if (t >= l)
        c = V{p[0], p[1], p[2]};
    else if (t <= 0)
        c = M;
    else
        c = add(M, mul(t / l, D));
    q[0] = c.x;
    q[1] = c.y;
    q[2] = c.z;
    return norm(sub(X, c));
}

inline double root(double slope, double h0, double h1) {
    const double eps = std::numeric_limits<double>::epsilon();
    if (fabs(h0) < eps && fabs(h1) < eps)
        return 0.5;
    if (h0 >= 0)
        return 0;
    if (h1 <= 0)
        return 1;
    const double r = -h0 / slope;
    return r < 0 ? 0 : r > 1 ? 1 : r;
}
inline double half(double r) { return r < 0 || r > 1 ? 0.5 : r; }

double segmentSegment(Query &self, const Evec3 &p0, const Evec3 &p1, const Evec3 &q0, const Evec3 &q1, Evec3 &x, Evec3 &y,
                      double &s, double &t) {
    const V P{p0[0], p0[1], p0[2]}, Q{q0[0], q0[1], q0[2]}, U = sub(V{p1[0], p1[1], p1[2]}, P), W = sub(V{q1[0], q1[1], q1[2]}, Q);
    const V R = sub(P, Q);
    const double a = dot(U, U), b = dot(U, W), c = dot(W, W), d = dot(U, R), e = dot(W, R);
    double S = 0, T = 0;
    if (a > 0 && c > 0) {
        // zero of the s derivative on the edges t = 0 and t = 1
        const double s0 = root(a, d, d + a), s1 = root(a, d - b, d + a - b);
        if (s0 <= 0 && s1 <= 0) {
            S = 0;
            T = root(c, -e, c - e);
        } else if (s0 >= 1 && s1 >= 1) {
            S = 1;
            T = root(c, -e - b, c - e - b);
        } else {
            // the two ends of the line on which the s derivative is zero, each on an edge of the unit square
            const double a0 = s0 <= 0 ? 0 : s0 >= 1 ? 1 : s0, b0 = s0 <= 0 ? half(d / b) : s0 >= 1 ? half((d + a) / b) : 0;
            const double a1 = s1 <= 0 ? 0 : s1 >= 1 ? 1 : s1, b1 = s1 <= 0 ? half(d / b) : s1 >= 1 ? half((d + a) / b) : 1;
            const double h0 = (b1 - b0) * (c * b0 - b * a0 - e), h1 = (b1 - b0) * (c * b1 - b * a1 - e);
            const double tiny = fabs(c) * std::numeric_limits<double>::epsilon();
            if (fabs(h0) < tiny && fabs(h1) < tiny) {
                S = (a0 + a1) / 2;
                T = (b0 + b1) / 2;
            } else if (h0 >= 0) {
                S = a0;
                T = s0 <= 0 ? root(c, -e, c - e) : s0 >= 1 ? root(c, -e - b, c - e - b) : b0;
            } else if (h1 <= 0) {
                S = a1;
                T = s1 <= 0 ? root(c, -e, c - e) : s1 >= 1 ? root(c, -e - b, c - e - b) : b1;
            } else {
                const double z = root(h1 - h0, h0, h1);
                S = a0 + z * (a1 - a0);
                T = b0 + z * (b1 - b0);
            }
        }
    } else if (a > 0) {
        S = root(a, d, d + a);
    } else if (c > 0) {
        T = root(c, -e, c - e);
    }
    const V X = add(P, mul(S, U)), Y = add(Q, mul(T, W));
    s = S;
    t = T;
    x[0] = X.x;
    x[1] = X.y;
    x[2] = X.z;
    y[0] = Y.x;
    y[1] = Y.y;
    y[2] = Y.z;
    return norm(sub(X, Y));
}
} // namespace spec
