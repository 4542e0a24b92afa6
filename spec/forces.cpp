#include "common.hpp"
#include "Sylinder/SylinderSystem.hpp"
#include "Util/GeoUtil.hpp"
namespace spec {
typedef SylinderSystem SS;
inline Evec3 E(V a) { return Evec3(a.x, a.y, a.z); }

// thermal velocity: Cholesky factor of the mobility times sqrt(2 kT / dt) times six independent normal numbers of the
// thread's own stream, plus the random finite difference drift of the translational mobility
void calcVelocityBrown(SS &s) {
    const int n = s.sylinderContainer.getNumberOfParticleLocal();
    const double dt = s.runConfig.dt, kT = s.runConfig.KBT, delta = 0.1 * dt, amp = sqrt(2 * kT / dt);
    for (int i = 0; i < n; i++) {
        Sylinder &y = s.sylinderContainer[i];
        double a, b, c;
        y.calcDragCoeff(s.runConfig.viscosity, a, b, c);
        const double ma = y.isImmovable ? 0 : 1 / a, mb = y.isImmovable ? 0 : 1 / b, mr = y.isImmovable ? 0 : 1 / c;
        double w[12];
        for (int k = 0; k < 12; k++)
            w[k] = s.rngPoolPtr->getN01(omp_get_thread_num());
        Equatn turned(y.orientation[3], y.orientation[0], y.orientation[1], y.orientation[2]);
        EquatnHelper::rotateEquatn(turned, Evec3(w[6], w[7], w[8]), delta);
        const double q[4] = {turned.x(), turned.y(), turned.z(), turned.w()};
        const V p = axis(y.orientation), p2 = axis(q);
        Emat3 M;
        for (int r = 0; r < 3; r++)
            for (int k = 0; k < 3; k++)
                M(r, k) = (ma - mb) * at(p, r) * at(p, k) + (r == k ? mb : 0);
        const Emat3 L = M.llt().matrixL();
        for (int r = 0; r < 3; r++) {
            double v = 0, d = 0;
            for (int k = 0; k < 3; k++) {
                v += L(r, k) * w[3 + k];
                d += (ma - mb) * (at(p2, r) * at(p2, k) - at(p, r) * at(p, k)) * w[9 + k];
            }
            y.velBrown[r] = amp * v + kT / delta * d;
            y.omegaBrown[r] = sqrt(mr) * amp * w[r];
        }
    }
    Teuchos::RCP<TV> total = Teuchos::rcp(new TV(s.sylinderMobilityMapRcp, true));
    s.velocityBrownRcp = total;
    auto t = total->getLocalView<Kokkos::HostSpace>();
    for (int i = 0; i < n; i++)
        for (int k = 0; k < 3; k++) {
            t(6 * i + k, 0) = s.sylinderContainer[i].velBrown[k];
            t(6 * i + 3 + k, 0) = s.sylinderContainer[i].omegaBrown[k];
        }
}

// one point of a particle against one boundary
inline void endpoint(SS &s, ConstraintBlockQue &que, const Boundary &b, const Sylinder &y, V Q, double R) {
    double P[3], d[3], q[3];
    put(q, Q);
    b.project(q, P, d);
    const double n = norm(vec(d));
    const bool outside = dot(sub(Q, vec(P)), vec(d)) < 0;
    if (!outside && !(n < R * (1 + 2 * s.runConfig.sylinderColBuf)))
        return;
    ConstraintBlock c;
    c.delta0 = (outside ? -n : n) - R;
    c.gamma = c.gammaLB = c.kappa = 0;
    c.gidI = c.gidJ = y.gid;
    c.globalIndexI = c.globalIndexJ = y.globalIndex;
    c.oneSide = true;
    c.bilateral = false;
    for (int k = 0; k < 3; k++) {
        c.normI[k] = c.normJ[k] = d[k] / n;
        c.posI[k] = c.posJ[k] = q[k] - y.pos[k];
        c.labI[k] = q[k];
        c.labJ[k] = P[k];
    }
    que.push_back(c);
}

void collectBoundaryCollision(SS &s) {
    ConstraintBlockPool &pool = *s.conCollectorPtr->constraintPoolPtr;
    for (size_t k = 0; k < s.runConfig.boundaryPtr.size(); k++)
        for (int i = 0; i < s.sylinderContainer.getNumberOfParticleLocal(); i++) {
            const Sylinder &y = s.sylinderContainer[i];
            ConstraintBlockQue &que = pool[omp_get_thread_num()];
            const Boundary &b = *s.runConfig.boundaryPtr[k];
            const V c = vec(y.pos), h = mul(y.lengthCollision / 2, axis(y.orientation));
            if (isSphereCol(y)) {
                endpoint(s, que, b, y, c, y.lengthCollision / 2 + y.radiusCollision);
            } else {
                endpoint(s, que, b, y, sub(c, h), y.radiusCollision);
                endpoint(s, que, b, y, add(c, h), y.radiusCollision);
            }
        }
}

// a spring between the plus end of a particle and the minus end of the nearest image of each particle linked to it
void collectLinkBilateral(SS &s) {
    const int n = s.sylinderContainer.getNumberOfParticleLocal();
    ConstraintBlockPool &pool = *s.conCollectorPtr->constraintPoolPtr;
    ZDD<SylinderNearEP> &dir = *s.sylinderNearDataDirectoryPtr;
    std::vector<int> first(n + 1, 0);
    dir.gidToFind.clear();
    for (int i = 0; i < n; i++) {
        const auto r = s.linkMap.equal_range(s.sylinderContainer[i].gid);
        int m = 0;
        for (auto it = r.first; it != r.second; it++) {
            dir.gidToFind.push_back(it->second);
            m++;
        }
        first[i + 1] = first[i] + m;
    }
    dir.find();
    for (int i = 0; i < n; i++) {
        const Sylinder &I = s.sylinderContainer[i];
        for (int j = first[i]; j < first[i + 1]; j++) {
            const SylinderNearEP &J = dir.dataToFind[j];
            double c[3];
            for (int k = 0; k < 3; k++) {
                c[k] = J.pos[k];
                if (s.runConfig.simBoxPBC[k]) {
                    double x = c[k], t = I.pos[k];
                    findPBCImage(s.runConfig.simBoxLow[k], s.runConfig.simBoxHigh[k], x, t);
                    c[k] = x;
                }
            }
            const V cI = vec(I.pos), cJ = vec(c), dI = axis(I.orientation), dJ = vec(J.direction);
            const V P = add(cI, mul(I.length / 2, dI)), Q = sub(cJ, mul(J.length / 2, dJ));
            const V r = sub(P, Q);
            const double m = norm(r);
            ConstraintBlock b;
            b.delta0 = m - I.radius - J.radius - s.runConfig.linkGap;
            b.gamma = b.delta0 < 0 ? -b.delta0 : 0;
            b.gammaLB = 0;
            b.gidI = I.gid;
            b.gidJ = J.gid;
            b.globalIndexI = I.globalIndex;
            b.globalIndexJ = J.globalIndex;
            b.oneSide = false;
            b.bilateral = true;
            b.kappa = s.runConfig.linkKappa;
            put(b.normI, mul(1 / m, r));
            put(b.normJ, mul(-1 / m, r));
            put(b.posI, sub(P, cI));
            put(b.posJ, sub(Q, cJ));
            put(b.labI, P);
            put(b.labJ, Q);
            Emat3 st;
            CalcSylinderNearForce::collideStress(E(dI), E(dJ), E(cI), E(cJ), I.length, J.length, I.radius, J.radius, 1.0, E(P), E(Q), st);
            for (int a = 0; a < 3; a++)
                for (int k = 0; k < 3; k++)
                    b.stress[3 * a + k] = st(a, k);
            pool[omp_get_thread_num()].push_back(b);
        }
    }
}

void pbcImage(const double &lb, const double &ub, double &x) {
    while (x >= ub)
        x = x - (ub - lb);
    while (x < lb)
        x = x + (ub - lb);
}
// nearest image of x to the wrapped target
void pbcNearest(const double &lb, const double &ub, double &x, double &trg) {
    findPBCImage(lb, ub, trg);
    double d = x - trg;
    findPBCImage(0.0, ub - lb, d);
    x = trg + (d > (ub - lb) / 2 ? d - (ub - lb) : d);
}
void randCircle(const double &R, const double &u, const double &v, double &x, double &y) {
    const double pi = 3.14159265358979323846, r = R * sqrt(v);
    x = r * cos(2 * pi * u);
    y = r * sin(2 * pi * u);
}

void boundingBox(SS &s, double *ll, double *lh, double *gl, double *gh) {
    const int n = s.sylinderContainer.getNumberOfParticleLocal();
    double lo[3], hi[3];
    for (int k = 0; k < 3; k++) {
        lo[k] = std::numeric_limits<double>::max();
        hi[k] = -std::numeric_limits<double>::max();
    }
    for (int i = 0; i < n; i++) {
        const Sylinder &y = s.sylinderContainer[i];
        const V h = mul(y.length / 2, axis(y.orientation)), a = sub(vec(y.pos), h), b = add(vec(y.pos), h);
        for (int k = 0; k < 3; k++) {
            lo[k] = std::min(std::min(lo[k], at(a, k)), at(b, k));
            hi[k] = std::max(std::max(hi[k], at(a, k)), at(b, k));
        }
    }
    for (int k = 0; k < 3; k++) {
        ll[k] = lo[k];
        lh[k] = hi[k];
        gl[k] = ll[k];
        gh[k] = lh[k];
    }
    Teuchos::reduceAll(*s.commRcp, Teuchos::MinValueReductionOp<int, double>(), 3, ll, gl);
    Teuchos::reduceAll(*s.commRcp, Teuchos::MaxValueReductionOp<int, double>(), 3, lh, gh);
}
std::pair<int, int> maxGid(SS &s) {
    int local = 0;
    for (int i = 0; i < s.sylinderContainer.getNumberOfParticleLocal(); i++)
        local = std::max(local, s.sylinderContainer[i].gid);
    int global = local;
    Teuchos::reduceAll(*s.commRcp, Teuchos::MaxValueReductionOp<int, int>(), 1, &local, &global);
    return std::pair<int, int>(local, global);
}

// one random stream per rank and thread: the seeded engine leapfrogged over ranks, then over threads
void rngPool(TRngPool &p, int seed) {
    int flag;
    p.myRank = 0;
    p.nProcs = 1;
    MPI_Initialized(&flag);
    if (flag > 0) {
        MPI_Comm_rank(MPI_COMM_WORLD, &p.myRank);
        MPI_Comm_size(MPI_COMM_WORLD, &p.nProcs);
    }
    p.nThreads = omp_get_max_threads();
    trng::mrg5 e;
    e.seed(seed);
    if (p.nProcs > 1)
        e.split(p.nProcs, p.myRank);
    p.rngEngineThreadsPtr.resize(p.nThreads);
    for (int i = 0; i < p.nThreads; i++) {
        p.rngEngineThreadsPtr[i].reset(new trng::mrg5());
        trng::mrg5 &t = *p.rngEngineThreadsPtr[i];
        t = e;
        t.split(p.nThreads, i);
    }
    p.n01 = trng::normal_dist<double>(0, 1);
    p.setLogNormalParameters(1, 1);
}
} // namespace spec
