#include "common.hpp"
#include "Boundary/Boundary.hpp"
#include "Sylinder/SylinderConfig.hpp"
#include "Util/EigenDef.hpp"
#include <yaml-cpp/yaml.h>
namespace spec {
// one required scalar, or n scalars in a row of exactly n
template <class T>
void need(const YAML::Node &c, const char *key, T &v) {
    if (!c[key])
        std::exit(1);
    v = c[key].as<T>();
}
template <class T>
void need(const YAML::Node &c, const char *key, T *v, int n) {
    if (!c[key])
        std::exit(1);
    if (c[key].size() != n)
        std::exit(1);
    for (int i = 0; i < n; i++)
        v[i] = c[key][i].as<T>();
}
template <class T>
void may(const YAML::Node &c, const char *key, T &v, T def) {
    v = def;
    if (c[key])
        v = c[key].as<T>();
}
template <class T>
void may(const YAML::Node &c, const char *key, T *v, int n, T a, T b, T d) {
    v[0] = a;
    v[1] = b;
    v[2] = d;
    if (c[key])
        need(c, key, v, n);
}

void config(SylinderConfig &c, std::string filename) {
    const YAML::Node y = YAML::LoadFile(filename);
    need(y, "rngSeed", c.rngSeed);
    need(y, "simBoxLow", c.simBoxLow, 3);
    need(y, "simBoxHigh", c.simBoxHigh, 3);
    need(y, "simBoxPBC", c.simBoxPBC, 3);
    need(y, "viscosity", c.viscosity);
    need(y, "KBT", c.KBT);
    need(y, "sylinderNumber", c.sylinderNumber);
    need(y, "sylinderLength", c.sylinderLength);
    need(y, "sylinderDiameter", c.sylinderDiameter);
    need(y, "dt", c.dt);
    need(y, "timeTotal", c.timeTotal);
    need(y, "timeSnap", c.timeSnap);
    need(y, "conResTol", c.conResTol);
    need(y, "conMaxIte", c.conMaxIte);
    need(y, "conSolverChoice", c.conSolverChoice);
    may(y, "logLevel", c.logLevel, 2);
    may(y, "timerLevel", c.timerLevel, c.logLevel);
    may(y, "monolayer", c.monolayer, false);
    may(y, "initBoxLow", c.initBoxLow, 3, c.simBoxLow[0], c.simBoxLow[1], c.simBoxLow[2]);
    may(y, "initBoxHigh", c.initBoxHigh, 3, c.simBoxHigh[0], c.simBoxHigh[1], c.simBoxHigh[2]);
    may(y, "initOrient", c.initOrient, 3, 2., 2., 2.);
    may(y, "initCircularX", c.initCircularX, false);
    may(y, "initPreSteps", c.initPreSteps, 100);
    may(y, "linkKappa", c.linkKappa, 100.);
    may(y, "linkGap", c.linkGap, 0.01);
    may(y, "sylinderFixed", c.sylinderFixed, false);
    may(y, "sylinderLengthSigma", c.sylinderLengthSigma, -1.);
    may(y, "sylinderDiameterColRatio", c.sylinderDiameterColRatio, 1.);
    may(y, "sylinderLengthColRatio", c.sylinderLengthColRatio, 1.);
    may(y, "sylinderColBuf", c.sylinderColBuf, 0.3);
    c.boundaryPtr.clear();
    if (y["boundaries"]) {
        const YAML::Node all = y["boundaries"];
        for (const auto &b : all) {
            const std::string type = b["type"].as<std::string>();
            if (type == "wall")
                c.boundaryPtr.push_back(std::make_shared<Wall>(b));
            else if (type == "tube")
                c.boundaryPtr.push_back(std::make_shared<Tube>(b));
            else if (type == "sphere")
                c.boundaryPtr.push_back(std::make_shared<SphereShell>(b));
        }
    }
}

inline void unit(double *a) {
    const double n = norm(vec(a));
    put(a, mul(1 / n, vec(a)));
}
void wallInit(Wall &b, const YAML::Node &y) {
    need(y, "center", b.center, 3);
    need(y, "norm", b.norm, 3);
    unit(b.norm);
}
void tubeInit(Tube &b, const YAML::Node &y) {
    need(y, "center", b.center, 3);
    need(y, "axis", b.axis, 3);
    need(y, "inside", b.inside);
    need(y, "radius", b.radius);
    unit(b.axis);
}
void sphereInit(SphereShell &b, const YAML::Node &y) {
    need(y, "center", b.center, 3);
    need(y, "radius", b.radius);
    need(y, "inside", b.inside);
}
void wallMake(Wall &b, double *c, double *n) {
    put(b.center, vec(c));
    put(b.norm, vec(n));
    unit(b.norm);
}
void tubeMake(Tube &b, double *c, double *a, double r, bool in) {
    put(b.center, vec(c));
    put(b.axis, vec(a));
    unit(b.axis);
    b.radius = r;
    b.inside = in;
}
void sphereMake(SphereShell &b, double *c, double r, bool in) {
    put(b.center, vec(c));
    b.radius = r;
    b.inside = in;
}

// the point of the surface closest to the query; delta spans query and projection and points to the allowed side
inline void side(double *P, double *d, V q, V p, V to) {
    put(P, p);
    put(d, dot(sub(q, p), to) >= 0 ? sub(q, p) : sub(p, q));
}
void wallProject(const Wall &b, const double *q, double *P, double *d) {
    const V x = vec(q), n = vec(b.norm);
    const double t = dot(sub(x, vec(b.center)), n);
    put(P, sub(x, mul(t, n)));
    put(d, mul(t < 0 ? -t : t, n));
}
void sphereProject(const SphereShell &b, const double *q, double *P, double *d) {
    const V r = sub(vec(q), vec(b.center));
    const double n = norm(r), gap = n - b.radius;
    put(P, add(vec(b.center), mul(b.radius / n, r)));
    const double m = gap > 0 ? gap : -gap;
    put(d, mul((b.inside ? -m : m) / n, r));
}
void tubeProject(const Tube &b, const double *q, double *P, double *d) {
    const V x = vec(q), a = vec(b.axis), c = vec(b.center);
    const V foot = add(c, mul(dot(sub(x, c), a), a));
    const V r = sub(x, foot);
    const double n = norm(r), gap = n - b.radius;
    put(P, add(foot, mul(b.radius / n, r)));
    const double m = gap > 0 ? gap : -gap;
    put(d, mul((b.inside ? -m : m) / n, r));
}
// the self check accepts exactly a projection on the surface at the right distance on the right side
const double tol = std::numeric_limits<double>::epsilon() * 1e4;
inline bool near(double a, double b) { return !(fabs(a - b) > tol); }
bool wallCheck(const Wall &b, const double *q, const double *P, const double *d) {
    const V n = vec(b.norm);
    return near(dot(sub(vec(P), vec(b.center)), n), 0) && near(norm(sub(vec(q), vec(P))), norm(vec(d))) &&
           near(1, dot(n, mul(1 / norm(vec(d)), vec(d))));
}
bool sphereCheck(const SphereShell &b, const double *q, const double *P, const double *d) {
    const V p = sub(vec(P), vec(b.center));
    const V n = mul((b.inside ? -1 : 1) / norm(p), p);
    return near(norm(p), b.radius) && near(norm(sub(vec(q), vec(P))), norm(vec(d))) && near(1, dot(n, mul(1 / norm(vec(d)), vec(d))));
}
bool tubeCheck(const Tube &b, const double *q, const double *P, const double *d) {
    const V c = vec(b.center), a = vec(b.axis), p = vec(P);
    const V r = sub(p, add(c, mul(dot(sub(p, c), a), a)));
    const V n = mul((b.inside ? -1 : 1) / norm(r), r);
    return near(b.radius, norm(r)) && near(norm(sub(vec(q), vec(P))), norm(vec(d))) && near(1, dot(n, mul(1 / norm(vec(d)), vec(d))));
}
} // namespace spec
