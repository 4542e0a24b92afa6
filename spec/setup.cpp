#include "common.hpp"
#include "Sylinder/SylinderSystem.hpp"
#include "MPI/CommMPI.hpp"
#include "Util/GeoUtil.hpp"
#include <random>
namespace spec {
typedef SylinderSystem SS;

// ---- global statistics
void volFrac(SS &s) {
    double v = 0;
    for (int i = 0; i < s.sylinderContainer.getNumberOfParticleLocal(); i++) {
        const Sylinder &y = s.sylinderContainer[i];
        v += 3.1415926535 * (y.length * y.radius * y.radius + y.radius * y.radius * y.radius * 4 / 3);
    }
    double all = 0;
    Teuchos::reduceAll(*s.commRcp, Teuchos::SumValueReductionOp<int, double>(), 1, &v, &all);
    double box = 1;
    for (int k = 0; k < 3; k++)
        box *= s.runConfig.simBoxHigh[k] - s.runConfig.simBoxLow[k];
    spdlog::warn("Volume Sylinder = {:g}", all);
    spdlog::warn("Volume fraction = {:g}", all / box);
}
// mean direction and mean nematic tensor p p - 1/3
void orderParameter(SS &s) {
    if (s.runConfig.logLevel > spdlog::level::info)
        return;
    double t[12];
    for (int k = 0; k < 12; k++)
        t[k] = 0;
    for (int i = 0; i < s.sylinderContainer.getNumberOfParticleLocal(); i++) {
        const V p = axis(s.sylinderContainer[i].orientation);
        for (int a = 0; a < 3; a++) {
            t[a] += at(p, a);
            for (int b = 0; b < 3; b++)
                t[3 + 3 * a + b] += at(p, a) * at(p, b) - (a == b ? 1.0 / 3 : 0.0);
        }
    }
    const int n = s.sylinderContainer.getNumberOfParticleGlobal();
    MPI_Allreduce(MPI_IN_PLACE, t, 12, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    spdlog::info("RECORD: Order P,{:g},{:g},{:g},Q,{:g},{:g},{:g},{:g},{:g},{:g},{:g},{:g},{:g}", t[0] / n, t[1] / n, t[2] / n, t[3] / n,
                 t[4] / n, t[5] / n, t[6] / n, t[7] / n, t[8] / n, t[9] / n, t[10] / n, t[11] / n);
}
// collision stress summed over all constraints of all ranks in units of n kT
void conStress(SS &s) {
    if (s.runConfig.logLevel > spdlog::level::info)
        return;
    Emat3 bi = Emat3::Zero(), uni = Emat3::Zero();
    s.conCollectorPtr->sumLocalConstraintStress(uni, bi, false);
    const double f = s.sylinderMapRcp->getGlobalNumElements() * s.runConfig.KBT;
    double a[9], b[9], c[9], d[9];
    for (int i = 0; i < 9; i++) {
        a[i] = uni(i / 3, i % 3) / f;
        b[i] = bi(i / 3, i % 3) / f;
        c[i] = d[i] = 0;
    }
    Teuchos::reduceAll(*s.commRcp, Teuchos::SumValueReductionOp<int, double>(), 9, a, c);
    Teuchos::reduceAll(*s.commRcp, Teuchos::SumValueReductionOp<int, double>(), 9, b, d);
    spdlog::info("RECORD: ColXF,{:g},{:g},{:g},{:g},{:g},{:g},{:g},{:g},{:g}", c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8]);
    spdlog::info("RECORD: BiXF,{:g},{:g},{:g},{:g},{:g},{:g},{:g},{:g},{:g}", d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]);
}

// ---- domain
void domainInfo(SS &s) {
    const bool x = s.runConfig.simBoxPBC[0], y = s.runConfig.simBoxPBC[1], z = s.runConfig.simBoxPBC[2];
    s.dinfo.setBoundaryCondition(x ? (y ? (z ? PS::BOUNDARY_CONDITION_PERIODIC_XYZ : PS::BOUNDARY_CONDITION_PERIODIC_XY)
                                        : (z ? PS::BOUNDARY_CONDITION_PERIODIC_XZ : PS::BOUNDARY_CONDITION_PERIODIC_X))
                                   : (y ? (z ? PS::BOUNDARY_CONDITION_PERIODIC_YZ : PS::BOUNDARY_CONDITION_PERIODIC_Y)
                                        : (z ? PS::BOUNDARY_CONDITION_PERIODIC_Z : PS::BOUNDARY_CONDITION_OPEN)));
    s.dinfo.setPosRootDomain(PS::F64vec3(s.runConfig.simBoxLow[0], s.runConfig.simBoxLow[1], s.runConfig.simBoxLow[2]),
                             PS::F64vec3(s.runConfig.simBoxHigh[0], s.runConfig.simBoxHigh[1], s.runConfig.simBoxHigh[2]));
}
// the tree is rebuilt with room for twice the present number whenever that has grown by more than half
void setTree(SS &s) {
    const int n = s.sylinderContainer.getNumberOfParticleGlobal();
    if (s.treeSylinderNearPtr && n <= 1.5 * s.treeSylinderNumber)
        return;
    s.treeSylinderNearPtr = std::make_unique<TreeSylinderNear>();
    s.treeSylinderNearPtr->initialize(2 * n);
    s.treeSylinderNumber = n;
}
void sylinderRank(SS &s) {
    const int r = s.commRcp->getRank();
    for (int i = 0; i < s.sylinderContainer.getNumberOfParticleLocal(); i++)
        s.sylinderContainer[i].rank = r;
}

// ---- initial configuration
void orient(SS &s, Equatn &q, double px, double py, double pz, int t) {
    const double in[3] = {px, py, pz};
    double v[3];
    int n = 0;
    for (int k = 0; k < 3; k++) {
        v[k] = in[k];
        if (in[k] < -1 || in[k] > 1) {
            v[k] = 2 * s.rngPoolPtr->getU01(t) - 1;
            n++;
        }
    }
    if (v[0] != px && v[1] != py && v[2] != pz) {
        const double a = s.rngPoolPtr->getU01(t), b = s.rngPoolPtr->getU01(t), c = s.rngPoolPtr->getU01(t);
        EquatnHelper::setUnitRandomEquatn(q, a, b, c);
    } else
        q = Equatn::FromTwoVectors(Evec3(0, 0, 1), Evec3(v[0], v[1], v[2]));
}
void initConfig(SS &s) {
    const SylinderConfig &c = s.runConfig;
    if (c.sylinderLengthSigma > 0)
        s.rngPoolPtr->setLogNormalParameters(c.sylinderLength, c.sylinderLengthSigma);
    const int n = s.commRcp->getRank() == 0 ? c.sylinderNumber : 0;
    s.sylinderContainer.setNumberOfParticleLocal(n);
    if (s.commRcp->getRank() == 0) {
        double lmax = c.initBoxHigh[0] - c.initBoxLow[0];
        lmax = std::min(lmax, c.initBoxHigh[1] - c.initBoxLow[1]);
        lmax = std::min(lmax, c.initBoxHigh[2] - c.initBoxLow[2]) / 2;
        for (int i = 0; i < n; i++) {
            const int t = omp_get_thread_num();
            double l = c.sylinderLength;
            if (c.sylinderLengthSigma > 0)
                do
                    l = s.rngPoolPtr->getLN(t);
                while (l >= lmax);
            double pos[3];
            for (int k = 0; k < 3; k++)
                pos[k] = c.initBoxLow[k] + (c.initBoxHigh[k] - c.initBoxLow[k]) * s.rngPoolPtr->getU01(t);
            Equatn q;
            s.getOrient(q, c.initOrient[0], c.initOrient[1], c.initOrient[2], t);
            const double w[4] = {q.x(), q.y(), q.z(), q.w()};
            Sylinder y(i, c.sylinderDiameter / 2, c.sylinderDiameter / 2, l, l, pos, w);
            y.clear();
            s.sylinderContainer[i] = y;
        }
    }
    if (c.initCircularX)
        s.setInitialCircularCrossSection();
}
void initCircle(SS &s) {
    const SylinderConfig &c = s.runConfig;
    const double y0 = (c.initBoxHigh[1] + c.initBoxLow[1]) / 2, z0 = (c.initBoxHigh[2] + c.initBoxLow[2]) / 2;
    const double R = std::min(c.initBoxHigh[1] - c.initBoxLow[1], c.initBoxHigh[2] - c.initBoxLow[2]) / 2;
    for (int i = 0; i < s.sylinderContainer.getNumberOfParticleLocal(); i++) {
        const int t = omp_get_thread_num();
        double y, z;
        getRandPointInCircle(R, s.rngPoolPtr->getU01(t), s.rngPoolPtr->getU01(t), y, z);
        s.sylinderContainer[i].pos[1] = y0 + y;
        s.sylinderContainer[i].pos[2] = z0 + z;
    }
}

// ---- particles and links added while running
std::vector<int> newSylinder(SS &s, const std::vector<Sylinder> &add) {
    const int np = s.commRcp->getSize(), n = add.size(), top = s.getMaxGid().second;
    std::vector<int> count(np, 0), first(np + 1, 0), ids;
    MPI_Gather(&n, 1, MPI_INT, count.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
    if (s.commRcp->getRank() == 0) {
        std::partial_sum(count.begin(), count.end(), first.begin() + 1);
        ids.resize(first.back(), 0);
        std::iota(ids.begin(), ids.end(), top + 1);
        std::random_device rd;
        std::mt19937 g(rd());
        std::shuffle(ids.begin(), ids.end(), g);
    } else
        ids.resize(n, 0);
    std::vector<int> mine(n, 0);
    MPI_Scatterv(ids.data(), count.data(), first.data(), MPI_INT, mine.data(), n, MPI_INT, 0, MPI_COMM_WORLD);
    for (int i = 0; i < n; i++) {
        Sylinder y = add[i];
        y.gid = mine[i];
        s.sylinderContainer.addOneParticle(y);
    }
    return mine;
}
void newLink(SS &s, const std::vector<Link> &add) {
    const int np = s.commRcp->getSize(), n = add.size();
    std::vector<int> count(np, 0), first(np + 1, 0);
    MPI_Allgather(&n, 1, MPI_INT, count.data(), 1, MPI_INT, MPI_COMM_WORLD);
    std::partial_sum(count.begin(), count.end(), first.begin() + 1);
    std::vector<Link> all(first.back());
    MPI_Allgatherv(add.data(), n, createMPIStructType<Link>(), all.data(), count.data(), first.data(), createMPIStructType<Link>(),
                   MPI_COMM_WORLD);
    for (size_t i = 0; i < all.size(); i++) {
        const auto r = s.linkMap.equal_range(all[i].prev);
        bool known = false;
        for (auto it = r.first; it != r.second; it++)
            known = known || it->second == all[i].next;
        if (known)
            continue;
        s.linkMap.emplace(all[i].prev, all[i].next);
        s.linkReverseMap.emplace(all[i].next, all[i].prev);
    }
}
} // namespace spec
