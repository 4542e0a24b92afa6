#include "common.hpp"
#include "Sylinder/SylinderSystem.hpp"
#include "Util/GeoUtil.hpp"
namespace spec {
typedef SylinderSystem SS;

void sumForceVelocity(SS &s) {
    for (int i = 0; i < s.sylinderContainer.getNumberOfParticleLocal(); i++) {
        Sylinder &y = s.sylinderContainer[i];
        for (int k = 0; k < 3; k++) {
            y.vel[k] = y.velBrown[k] + y.velCol[k] + y.velBi[k] + y.velNonB[k];
            y.omega[k] = y.omegaBrown[k] + y.omegaCol[k] + y.omegaBi[k] + y.omegaNonB[k];
            y.force[k] = y.forceCol[k] + y.forceBi[k] + y.forceNonB[k];
            y.torque[k] = y.torqueCol[k] + y.torqueBi[k] + y.torqueNonB[k];
        }
    }
}

void stepEuler(SS &s) {
    if (s.runConfig.sylinderFixed)
        return;
    for (int i = 0; i < s.sylinderContainer.getNumberOfParticleLocal(); i++)
        step(s.sylinderContainer[i], s.runConfig.dt);
}

void sylStep(Sylinder &s, double dt) { step(s, dt); }
void sylClear(Sylinder &s) { clear(s); }
void sylDrag(const Sylinder &s, const double mu, double &a, double &b, double &c) { drag(s, mu, a, b, c); }
bool sylSphere(const Sylinder &s, bool collision) { return collision ? isSphereCol(s) : isSphere(s); }

// mobility: block diagonal, (1/para) pp + (1/perp)(I-pp) on translation, (1/rot) I on rotation, zero when immovable
void calcMobMatrix(SS &s) {
    const int n = s.sylinderMapRcp->getNodeNumElements();
    Kokkos::View<size_t *> ptr("r", 6 * n + 1);
    for (int i = 0; i <= 6 * n; i++)
        ptr[i] = 3 * i;
    Kokkos::View<int *> col("c", 18 * n);
    Kokkos::View<double *> val("v", 18 * n);
    for (int i = 0; i < n; i++) {
        const Sylinder &y = s.sylinderContainer[i];
        double a, b, c;
        drag(y, s.runConfig.viscosity, a, b, c);
        const double ma = y.isImmovable ? 0 : 1 / a, mb = y.isImmovable ? 0 : 1 / b, mr = y.isImmovable ? 0 : 1 / c;
        const V p = axis(y.orientation);
        for (int r = 0; r < 3; r++)
            for (int k = 0; k < 3; k++) {
                const double pp = at(p, r) * at(p, k);
                val[18 * i + 3 * r + k] = ma * pp + mb * ((r == k ? 1.0 : 0.0) - pp);
                col[18 * i + 3 * r + k] = 6 * i + k;
                val[18 * i + 9 + 3 * r + k] = r == k ? mr : 0.0;
                col[18 * i + 9 + 3 * r + k] = 6 * i + 3 + k;
            }
    }
    s.mobilityMatrixRcp = Teuchos::rcp(new TCMAT(s.sylinderMobilityMapRcp, s.sylinderMobilityMapRcp, ptr, col, val));
    s.mobilityMatrixRcp->fillComplete(s.sylinderMobilityMapRcp, s.sylinderMobilityMapRcp);
}

template <class T>
inline void load(double *a, double *b, const Teuchos::RCP<T> &t, int i) {
    auto v = t->template getLocalView<Kokkos::HostSpace>();
    for (int k = 0; k < 3; k++) {
        a[k] = v(6 * i + k, 0);
        b[k] = v(6 * i + 3 + k, 0);
    }
}

// velocity without constraints = mobility * given force + given velocity + Brownian velocity; in a monolayer none of
// the three moves a particle out of plane; the non Brownian part and the Brownian part are also kept per particle
void calcVelocityNonCon(SS &s) {
    const int n = s.sylinderContainer.getNumberOfParticleLocal();
    const bool mono = s.runConfig.monolayer;
    Teuchos::RCP<TV> total = Teuchos::rcp(new TV(s.sylinderMobilityMapRcp, true));
    s.velocityNonConRcp = total;
    auto t = total->getLocalView<Kokkos::HostSpace>();
    if (!s.forcePartNonBrownRcp.is_null()) {
        s.mobilityOperatorRcp->apply(*s.forcePartNonBrownRcp, *total);
        for (int i = 0; i < n; i++) {
            load(s.sylinderContainer[i].forceNonB, s.sylinderContainer[i].torqueNonB, s.forcePartNonBrownRcp, i);
            if (mono) {
                t(6 * i + 2, 0) = 0;
                t(6 * i + 3, 0) = 0;
                t(6 * i + 4, 0) = 0;
            }
        }
    }
    if (!s.velocityPartNonBrownRcp.is_null()) {
        if (mono) {
            auto v = s.velocityPartNonBrownRcp->getLocalView<Kokkos::HostSpace>();
            for (int i = 0; i < n; i++) {
                v(6 * i + 2, 0) = 0;
                v(6 * i + 3, 0) = 0;
                v(6 * i + 4, 0) = 0;
            }
        }
        total->update(1.0, *s.velocityPartNonBrownRcp, 1.0);
    }
    for (int i = 0; i < n; i++)
        load(s.sylinderContainer[i].velNonB, s.sylinderContainer[i].omegaNonB, total, i);
    if (!s.velocityBrownRcp.is_null()) {
        if (mono) {
            auto v = s.velocityBrownRcp->getLocalView<Kokkos::HostSpace>();
            for (int i = 0; i < n; i++) {
                v(6 * i + 2, 0) = 0;
                v(6 * i + 3, 0) = 0;
                v(6 * i + 4, 0) = 0;
                s.sylinderContainer[i].velBrown[2] = 0;
                s.sylinderContainer[i].omegaBrown[0] = 0;
                s.sylinderContainer[i].omegaBrown[1] = 0;
            }
        }
        total->update(1.0, *s.velocityBrownRcp, 1.0);
    }
}

void saveForceVelocityConstraints(SS &s) {
    s.forceUniRcp = s.conSolverPtr->forceuRcp;
    s.velocityUniRcp = s.conSolverPtr->veluRcp;
    s.forceBiRcp = s.conSolverPtr->forcebRcp;
    s.velocityBiRcp = s.conSolverPtr->velbRcp;
    for (int i = 0; i < s.sylinderContainer.getNumberOfParticleLocal(); i++) {
        Sylinder &y = s.sylinderContainer[i];
        load(y.velCol, y.omegaCol, s.velocityUniRcp, i);
        load(y.velBi, y.omegaBi, s.velocityBiRcp, i);
        load(y.forceCol, y.torqueCol, s.forceUniRcp, i);
        load(y.forceBi, y.torqueBi, s.forceBiRcp, i);
    }
}

void setForceNonBrown(SS &s, const std::vector<double> &f) { s.forcePartNonBrownRcp = getTVFromVector(f, s.commRcp); }
void setVelocityNonBrown(SS &s, const std::vector<double> &f) { s.velocityPartNonBrownRcp = getTVFromVector(f, s.commRcp); }

void updateSylinderMap(SS &s) {
    const int n = s.sylinderContainer.getNumberOfParticleLocal();
    s.sylinderMapRcp = getTMAPFromLocalSize(n, s.commRcp);
    s.sylinderMobilityMapRcp = getTMAPFromLocalSize(6 * n, s.commRcp);
    for (int i = 0; i < n; i++)
        s.sylinderContainer[i].globalIndex = s.sylinderMapRcp->getMinGlobalIndex() + i;
}

bool getIfWriteResultCurrentStep(SS &s) {
    const int n = std::lround(s.runConfig.timeSnap / s.runConfig.dt);
    return s.stepCount % (n > 1 ? n : 1) == 0;
}

// a step is prepared on the redistributed particles: cleared, with collision size from the configured ratios, in plane
// for a monolayer; then indexing, the lookup directory, the mobility and an empty constraint set are rebuilt
void prepareStep(SS &s) {
    s.applyBoxBC();
    if (s.stepCount % 50 == 0)
        s.decomposeDomain();
    s.exchangeSylinder();
    const int n = s.sylinderContainer.getNumberOfParticleLocal();
    for (int i = 0; i < n; i++) {
        Sylinder &y = s.sylinderContainer[i];
        clear(y);
        y.radiusCollision = y.radius * s.runConfig.sylinderDiameterColRatio;
        y.lengthCollision = y.length * s.runConfig.sylinderLengthColRatio;
        y.rank = s.commRcp->getRank();
        y.colBuf = s.runConfig.sylinderColBuf;
        if (s.runConfig.monolayer) {
            y.pos[2] = (s.runConfig.simBoxHigh[2] + s.runConfig.simBoxLow[2]) / 2;
            const V p = axis(y.orientation);
            const double m = sqrt(p.x * p.x + p.y * p.y);
            Emapq(y.orientation).setFromTwoVectors(Evec3(0, 0, 1), Evec3(p.x / m, p.y / m, 0));
        }
    }
    s.updateSylinderMap();
    s.buildSylinderNearDataDirectory();
    s.calcMobOperator();
    s.conCollectorPtr->clear();
    s.forcePartNonBrownRcp = Teuchos::null;
    s.velocityPartNonBrownRcp = Teuchos::null;
    s.velocityNonBrownRcp = Teuchos::null;
    s.velocityBrownRcp = Teuchos::null;
}

void runStep(SS &s) {
    if (s.runConfig.KBT > 0)
        s.calcVelocityBrown();
    s.calcVelocityNonCon();
    s.resolveConstraints();
    s.sumForceVelocity();
    if (s.getIfWriteResultCurrentStep())
        s.writeResult();
    s.stepEuler();
    s.stepCount++;
}

void resolveConstraints(SS &s) {
    s.collectPairCollision();
    s.collectBoundaryCollision();
    s.collectLinkBilateral();
    s.conSolverPtr->setup(*s.conCollectorPtr, s.mobilityOperatorRcp, s.velocityNonConRcp, s.runConfig.dt);
    s.conSolverPtr->setControlParams(s.runConfig.conResTol, s.runConfig.conMaxIte, s.runConfig.conSolverChoice);
    s.conSolverPtr->solveConstraints();
    s.conSolverPtr->writebackGamma();
    s.saveForceVelocityConstraints();
}
void decomposeDomain(SS &s) {
    s.applyBoxBC();
    s.dinfo.decomposeDomainAll(s.sylinderContainer);
}
void exchangeSylinder(SS &s) {
    s.sylinderContainer.exchangeParticle(s.dinfo);
    for (int i = 0; i < s.sylinderContainer.getNumberOfParticleLocal(); i++)
        s.sylinderContainer[i].rank = s.commRcp->getRank();
}
void applyBoxBC(SS &s) { s.sylinderContainer.adjustPositionIntoRootDomain(s.dinfo); }
void calcMobOperator(SS &s) {
    s.calcMobMatrix();
    s.mobilityOperatorRcp = s.mobilityMatrixRcp;
}
void collectPairCollision(SS &s) {
    CalcSylinderNearForce f(s.conCollectorPtr->constraintPoolPtr);
    s.setTreeSylinder();
    s.treeSylinderNearPtr->calcForceAll(f, s.sylinderContainer, s.dinfo);
}
void buildSylinderNearDataDirectory(SS &s) {
    ZDD<SylinderNearEP> &d = *s.sylinderNearDataDirectoryPtr;
    const int n = s.sylinderContainer.getNumberOfParticleLocal();
    d.gidOnLocal.resize(n);
    d.dataOnLocal.resize(n);
    for (int i = 0; i < n; i++) {
        d.gidOnLocal[i] = s.sylinderContainer[i].gid;
        d.dataOnLocal[i].copyFromFP(s.sylinderContainer[i]);
    }
    d.buildIndex();
}
} // namespace spec
