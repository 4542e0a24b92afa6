#include "common.hpp"
#include "Sylinder/SylinderNear.hpp"
namespace spec {
typedef CalcSylinderNearForce CF;
typedef SylinderNearEP EP;

// contact record of two surfaces whose nearest centreline points are p (on I) and q (on J)
inline void record(ConstraintBlock &b, const EP &I, const EP &J, V cI, V cJ, V p, V q, double sep) {
    const V d = sub(p, q);
    const double n = norm(d);
    b.delta0 = sep;
    b.gamma = sep < 0 ? -sep : 0;
    b.gammaLB = 0;
    b.gidI = I.gid;
    b.gidJ = J.gid;
    b.globalIndexI = I.globalIndex;
    b.globalIndexJ = J.globalIndex;
    b.oneSide = false;
    b.bilateral = false;
    b.kappa = 0;
    const V u = mul(1 / n, d);
    put(b.normI, u);
    put(b.normJ, mul(-1, u));
    put(b.posI, sub(p, cI));
    put(b.posJ, sub(q, cJ));
    put(b.labI, p);
    put(b.labJ, q);
}

void nearFunctor(CF &f, std::shared_ptr<ConstraintBlockPool> &pool) { f.conPoolPtr = pool; }

inline Evec3 E(V a) { return Evec3(a.x, a.y, a.z); }
// stress of a unit force between the two particles, stored row by row
inline void stress(ConstraintBlock &b, V dI, V dJ, V cI, V cJ, double hI, double hJ, double rI, double rJ, V p, V q) {
    Emat3 s;
    CF::collideStress(E(dI), E(dJ), E(cI), E(cJ), hI, hJ, rI, rJ, 1.0, E(p), E(q), s);
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            b.stress[3 * i + j] = s(i, j);
}

inline void reverse(ConstraintBlock &b) {
    const ConstraintBlock o = b;
    b.gidI = o.gidJ;
    b.gidJ = o.gidI;
    b.globalIndexI = o.globalIndexJ;
    b.globalIndexJ = o.globalIndexI;
    for (int k = 0; k < 3; k++) {
        b.normI[k] = o.normJ[k];
        b.normJ[k] = o.normI[k];
        b.posI[k] = o.posJ[k];
        b.posJ[k] = o.posI[k];
        b.labI[k] = o.labJ[k];
        b.labJ[k] = o.labI[k];
    }
}

bool spsp(const CF &self, const EP &I, const EP &J, ForceNear &f, ConstraintBlock &b) {
    const double RI = I.lengthCollision / 2 + I.radiusCollision, RJ = J.lengthCollision / 2 + J.radiusCollision;
    const V cI = vec(I.pos), cJ = vec(J.pos);
    const double sep = norm(sub(cJ, cI)) - RI - RJ;
    if (sep < RI * I.colBuf + RJ * J.colBuf) {
        record(b, I, J, cI, cJ, cI, cJ, sep);
        stress(b, V{0, 0, 1}, V{0, 0, 1}, cI, cJ, 0, 0, RI, RJ, cI, cJ);
        return true;
    }
    return false;
}

inline void ends(const EP &J, Evec3 &m, Evec3 &p) {
    const V c = vec(J.pos), d = mul(0.5 * J.lengthCollision, vec(J.direction));
    m = Evec3(c.x - d.x, c.y - d.y, c.z - d.z);
    p = Evec3(c.x + d.x, c.y + d.y, c.z + d.z);
}
inline V ev(const Evec3 &x) { return V{x[0], x[1], x[2]}; }

bool spsy(const CF &self, const EP &I, const EP &J, ForceNear &f, ConstraintBlock &b, bool reverseIJ) {
    const double RI = I.lengthCollision / 2 + I.radiusCollision;
    const V cI = vec(I.pos), cJ = vec(J.pos);
    Evec3 m, p, q;
    ends(J, m, p);
    const double dist = DistPointSeg<Evec3>(Evec3(cI.x, cI.y, cI.z), m, p, q);
    const double sep = dist - RI - J.radiusCollision;
    if (sep < RI * I.colBuf + J.radiusCollision * J.colBuf) {
        record(b, I, J, cI, cJ, cI, ev(q), sep);
        if (reverseIJ)
            reverse(b);
        stress(b, V{0, 0, 1}, vec(J.direction), cI, cJ, 0, J.lengthCollision, RI, J.radiusCollision, cI, ev(q));
        return true;
    }
    return false;
}

bool sysy(const CF &self, const EP &I, const EP &J, ForceNear &f, ConstraintBlock &b) {
    const V cI = vec(I.pos), cJ = vec(J.pos);
    Evec3 im, ip, jm, jp, x, y;
    ends(I, im, ip);
    ends(J, jm, jp);
    DCPQuery<3, double, Evec3> query;
    double s, t;
    const double sep = query(im, ip, jm, jp, x, y, s, t) - I.radiusCollision - J.radiusCollision;
    if (sep < I.radiusCollision * I.colBuf + J.radiusCollision * J.colBuf) {
        record(b, I, J, cI, cJ, ev(x), ev(y), sep);
        stress(b, vec(I.direction), vec(J.direction), cI, cJ, I.lengthCollision, J.lengthCollision, I.radiusCollision,
               J.radiusCollision, ev(x), ev(y));
        return true;
    }
    return false;
}

void copyFromFP(EP &e, const Sylinder &s) {
    e.gid = s.gid;
    e.globalIndex = s.globalIndex;
    e.rank = s.rank;
    e.colBuf = s.colBuf;
    e.radius = s.radius;
    e.length = s.length;
    e.radiusCollision = s.radiusCollision;
    e.lengthCollision = s.lengthCollision;
    const V a = axis(s.orientation);
    for (int k = 0; k < 3; k++) {
        e.pos[k] = s.pos[k];
        e.direction[k] = at(a, k);
    }
}
double rsearch(const EP &e) {
    const double a = e.length + 2 * e.radius, b = e.lengthCollision + 2 * e.radiusCollision;
    return (a > b ? a : b) * (1 + e.colBuf);
}
bool epSphere(const EP &e, bool collision) {
    return collision ? e.lengthCollision < 2 * e.radiusCollision : e.length < 2 * e.radius;
}
bool cfSphere(const CF &self, const EP &e) { return e.lengthCollision < 2 * e.radiusCollision; }
void clearForce(ForceNear &f) {
    for (int k = 0; k < 3; k++)
        f.forceNear[k] = f.torqueNear[k] = 0;
}

void block(ConstraintBlock &b, double delta0_, double gamma_, int gidI_, int gidJ_, int globalIndexI_, int globalIndexJ_,
           const double normI_[3], const double normJ_[3], const double posI_[3], const double posJ_[3],
           const double labI_[3], const double labJ_[3], bool oneSide_, bool bilateral_, double kappa_, double gammaLB_) {
    b.delta0 = delta0_;
    b.gamma = gamma_;
    b.gidI = gidI_;
    b.gidJ = gidJ_;
    b.globalIndexI = globalIndexI_;
    b.globalIndexJ = globalIndexJ_;
    b.oneSide = oneSide_;
    b.bilateral = bilateral_;
    b.kappa = kappa_;
    b.gammaLB = gammaLB_;
    for (int k = 0; k < 3; k++) {
        b.normI[k] = normI_[k];
        b.normJ[k] = normJ_[k];
        b.posI[k] = posI_[k];
        b.posJ[k] = posJ_[k];
        b.labI[k] = labI_[k];
        b.labJ[k] = labJ_[k];
    }
    for (int k = 0; k < 9; k++)
        b.stress[k] = 0;
}

// every unordered pair is examined once, by the endpoint of smaller id, with the query of its shapes; the record of a
// detected contact is queued with I the smaller id
void pairs(CF &self, const EP *const ei, const PS::S32 ni, const EP *const ej, const PS::S32 nj, ForceNear *const fn) {
    ConstraintBlockQue &que = (*self.conPoolPtr)[omp_get_thread_num()];
    for (int i = 0; i < ni; i++) {
        clearForce(fn[i]);
        const bool si = ei[i].lengthCollision < 2 * ei[i].radiusCollision;
        for (int j = 0; j < nj; j++) {
            if (ei[i].gid < ej[j].gid) {
                const bool sj = ej[j].lengthCollision < 2 * ej[j].radiusCollision;
                ConstraintBlock b;
                bool hit;
                if (si && sj)
                    hit = self.sp_sp(ei[i], ej[j], fn[i], b);
                else if (si)
                    hit = self.sp_sy(ei[i], ej[j], fn[i], b);
                else if (sj)
                    hit = self.sp_sy(ej[j], ei[i], fn[i], b, true);
                else
                    hit = self.sy_sy(ei[i], ej[j], fn[i], b);
                if (hit)
                    que.push_back(b);
            }
        }
    }
}
// translational virial plus the rotational part through mass and inertia tensors of a uniform sphero-cylinder
inline double sph(double r) { return r * r * r * r * r * 3.14159265358979323846; }
void collideStress(const Evec3 &dirI, const Evec3 &dirJ, const Evec3 &centerI, const Evec3 &centerJ, double hI, double hJ,
                   const double rI, const double rJ, const double rho, const Evec3 &Ploc, const Evec3 &Qloc, Emat3 &out) {
    const V dI = ev(dirI), dJ = ev(dirJ), cI = ev(centerI), cJ = ev(centerJ), p = ev(Ploc), q = ev(Qloc);
    const V d = sub(q, p);
    const double n = norm(d);
    const V f = mul(1 / n, d);
    double s[9];
    const V c[2] = {cI, cJ}, e[2] = {dI, dJ}, x[2] = {p, q};
    const double h[2] = {hI, hJ}, r[2] = {rI, rJ}, sg[2] = {-1, 1};
    for (int i = 0; i < 9; i++)
        s[i] = 0;
    for (int w = 0; w < 2; w++) {
        const double B = h[w] / (2 * r[w]), m = rho * sph(r[w]);
        const double n0 = m * (15 * B + 8) / 30, n2 = m * (10 * B * B * B + 20 * B * B + 15 * B + 4) / 15;
        const double g0 = m * (20 * B * B * B + 40 * B * B + 45 * B + 16) / 30, g2 = m * (15 * B + 8) / 15;
        const V F = mul(sg[w], f);
        const V T = cross(sub(x[w], c[w]), F); // torque
        // angular acceleration: inverse inertia applied to the torque
        const double td = dot(e[w], T);
        const V a = add(mul(1 / g0, T), mul((1 / g2 - 1 / g0) * td, e[w]));
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) {
                s[3 * i + j] += at(c[w], i) * at(F, j);
                // N(i,l) eps(j,k,l) a(k)
                V nrow{(n2 - n0) * at(e[w], i) * e[w].x + (i == 0 ? n0 : 0.0), (n2 - n0) * at(e[w], i) * e[w].y + (i == 1 ? n0 : 0.0),
                       (n2 - n0) * at(e[w], i) * e[w].z + (i == 2 ? n0 : 0.0)};
                const V ca = cross(a, nrow); // (a x N_i)_j = eps(j,k,l) a_k N_il
                s[3 * i + j] += at(ca, j);
            }
    }
    for (int i = 0; i < 9; i++)
        out(i / 3, i % 3) = s[i];
}

} // namespace spec
