#include "common.hpp"
#include "Constraint/ConstraintOperator.hpp"
#include "Sylinder/SylinderSystem.hpp"
#include "Util/TRngPool.hpp"
namespace spec {
typedef SylinderSystem SS;

// a new particle: the given geometry, at the origin unturned unless told otherwise, nothing acting on it
void sylMake(Sylinder &s, const int &gid, const double &radius, const double &radiusCollision, const double &length, const double &lengthCollision,
             const double *pos, const double *orientation) {
    s.gid = gid;
    s.group = -1;
    s.isImmovable = false;
    s.radius = radius;
    s.length = length;
    s.radiusCollision = radiusCollision;
    s.lengthCollision = lengthCollision;
    for (int k = 0; k < 3; k++)
        s.pos[k] = pos == nullptr ? 0 : pos[k];
    for (int k = 0; k < 4; k++)
        s.orientation[k] = orientation == nullptr ? (k == 3 ? 1 : 0) : orientation[k];
    s.clear();
}

template <class T>
PS::F64vec3 where(const T &s) {
    return PS::F64vec3(s.pos[0], s.pos[1], s.pos[2]);
}
template <class T>
void place(T &s, const PS::F64vec3 &p) {
    s.pos[0] = p.x;
    s.pos[1] = p.y;
    s.pos[2] = p.z;
}
PS::F64vec3 sylWhere(const Sylinder &s) { return where(s); }
PS::F64vec3 epWhere(const SylinderNearEP &s) { return where(s); }
void sylPlace(Sylinder &s, const PS::F64vec3 &p) { place(s, p); }
void epPlace(SylinderNearEP &s, const PS::F64vec3 &p) { place(s, p); }
int sylGid(const Sylinder &s) { return s.gid; }
int epGid(const SylinderNearEP &s) { return s.gid; }
int epIndex(const SylinderNearEP &s) { return s.globalIndex; }
const double *sylCoord(const Sylinder &s) { return s.pos; }

// the simulation a host program sees
int getSnapID(SS &s) { return s.snapID; }
int getStepCount(SS &s) { return s.stepCount; }
Teuchos::RCP<TV> getForcePartNonBrown(const SS &s) { return s.forcePartNonBrownRcp; }
Teuchos::RCP<TV> getVelocityPartNonBrown(const SS &s) { return s.velocityPartNonBrownRcp; }
Teuchos::RCP<TV> getVelocityNonBrown(const SS &s) { return s.velocityNonBrownRcp; }
Teuchos::RCP<TV> getVelocityBrown(const SS &s) { return s.velocityBrownRcp; }
Teuchos::RCP<TV> getVelocityNonCon(const SS &s) { return s.velocityNonConRcp; }
Teuchos::RCP<const TV> getForceUni(const SS &s) { return s.forceUniRcp; }
Teuchos::RCP<const TV> getVelocityUni(const SS &s) { return s.velocityUniRcp; }
Teuchos::RCP<const TV> getForceBi(const SS &s) { return s.forceBiRcp; }
Teuchos::RCP<const TV> getVelocityBi(const SS &s) { return s.velocityBiRcp; }
Teuchos::RCP<TCMAT> getMobMatrix(SS &s) { return s.mobilityMatrixRcp; }
Teuchos::RCP<TOP> getMobOperator(SS &s) { return s.mobilityOperatorRcp; }
ConstraintBlockPool &getConstraintPoolNonConst(SS &s) { return *s.conCollectorPtr->constraintPoolPtr; }
const std::unordered_multimap<int, int> &getLinkMap(SS &s) { return s.linkMap; }
const std::unordered_multimap<int, int> &getLinkReverseMap(SS &s) { return s.linkReverseMap; }
const PS::ParticleSystem<Sylinder> &getContainer(SS &s) { return s.sylinderContainer; }
PS::ParticleSystem<Sylinder> &getContainerNonConst(SS &s) { return s.sylinderContainer; }
const PS::DomainInfo &getDomainInfo(SS &s) { return s.dinfo; }
PS::DomainInfo &getDomainInfoNonConst(SS &s) { return s.dinfo; }
std::shared_ptr<TRngPool> &getRngPoolPtr(SS &s) { return s.rngPoolPtr; }
Teuchos::RCP<const TCOMM> &getCommRcp(SS &s) { return s.commRcp; }
std::shared_ptr<ZDD<SylinderNearEP>> &getSylinderNearDataDirectory(SS &s) { return s.sylinderNearDataDirectoryPtr; }
Teuchos::RCP<TV> opForce(ConstraintOperator &o) { return o.forceRcp; }
Teuchos::RCP<TV> opVel(ConstraintOperator &o) { return o.velRcp; }
Teuchos::RCP<TCMAT> opD(ConstraintOperator &o) { return o.DMatRcp; }

// the two ways to make a system ready in one statement
void fromFile(SS &s, const std::string &configFile, const std::string &posFile, int argc, char **argv) {
    const SylinderConfig c(configFile);
    s.initialize(c, posFile, argc, argv);
}
void fromConfig(SS &s, const SylinderConfig &c, const std::string &posFile, int argc, char **argv) { s.initialize(c, posFile, argc, argv); }

bool exists(const std::string &name) {
    std::ifstream f(name);
    return f.good();
}

// the driver
int driver(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    PS::Initialize(argc, argv);
    Logger::setup_mpi_spdlog();
    {
        SS s;
        if (IOHelper::fileExist("TimeStepInfo.txt"))
            s.reinitialize(SylinderConfig("RunConfig.yaml"), "TimeStepInfo.txt", argc, argv, true);
        else
            s.initialize(SylinderConfig("RunConfig.yaml"), "SylinderInitial.dat", argc, argv);
        while (s.getStepCount() * s.runConfig.dt < s.runConfig.timeTotal) {
            s.prepareStep();
            s.runStep();
            s.calcOrderParameter();
            s.calcConStress();
            s.printTimingSummary();
        }
    }
    PS::Finalize();
    MPI_Finalize();
    return 0;
}

// and what is, and what is not, the same driver
int badDriver1(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    PS::Initialize(argc, argv);
    Logger::setup_mpi_spdlog();
    {
        SS s;
        if (IOHelper::fileExist("TimeStepInfo.txt"))
            s.reinitialize(SylinderConfig("RunConfig.yaml"), "TimeStepInfo.txt", argc, argv, true);
        else
            s.initialize(SylinderConfig("RunConfig.yaml"), "SylinderInitial.dat", argc, argv);
        while (s.getStepCount() * s.runConfig.dt < s.runConfig.timeTotal) {
            s.runStep();
            s.prepareStep();
            s.calcOrderParameter();
            s.calcConStress();
            s.printTimingSummary();
        }
    }
    PS::Finalize();
    MPI_Finalize();
    return 0;
}

int badDriver2(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    PS::Initialize(argc, argv);
    Logger::setup_mpi_spdlog();
    {
        SS s;
        if (IOHelper::fileExist("TimeStepInfo.txt"))
            s.reinitialize(SylinderConfig("RunConfig.yaml"), "TimeStepInfo.txt", argc, argv, true);
        else
            s.initialize(SylinderConfig("RunConfig.yaml"), "SylinderInitial.dat", argc, argv);
        while (s.getStepCount() * s.runConfig.dt <= s.runConfig.timeTotal) {
            s.prepareStep();
            s.runStep();
            s.calcOrderParameter();
            s.calcConStress();
            s.printTimingSummary();
        }
    }
    PS::Finalize();
    MPI_Finalize();
    return 0;
}

int badDriver3(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    PS::Initialize(argc, argv);
    Logger::setup_mpi_spdlog();
    {
        SS s;
        if (IOHelper::fileExist("TimeStepInfo.txt"))
            s.reinitialize(SylinderConfig("RunConfig.yaml"), "TimeStepInfo.txt", argc, argv, false);
        else
            s.initialize(SylinderConfig("RunConfig.yaml"), "SylinderInitial.dat", argc, argv);
        while (s.getStepCount() * s.runConfig.dt < s.runConfig.timeTotal) {
            s.prepareStep();
            s.runStep();
            s.calcOrderParameter();
            s.calcConStress();
            s.printTimingSummary();
        }
    }
    PS::Finalize();
    MPI_Finalize();
    return 0;
}

int badDriver4(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    PS::Initialize(argc, argv);
    Logger::setup_mpi_spdlog();
    {
        SS s;
        if (IOHelper::fileExist("TimeStepInfo.txt"))
            s.reinitialize(SylinderConfig("RunConfig.yaml"), "TimeStepInfo.txt", argc, argv, true);
        else
            s.initialize(SylinderConfig("RunConfig.yaml"), "SylinderInitial.dat", argc, argv);
        s.prepareStep();
        while (s.getStepCount() * s.runConfig.dt < s.runConfig.timeTotal) {
            s.prepareStep();
            s.runStep();
            s.calcOrderParameter();
            s.calcConStress();
            s.printTimingSummary();
        }
    }
    PS::Finalize();
    MPI_Finalize();
    return 0;
}

int goodDriver1(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    PS::Initialize(argc, argv);
    Logger::setup_mpi_spdlog();
    {
        SS s;
        if (IOHelper::fileExist("TimeStepInfo.txt"))
            s.reinitialize(SylinderConfig("RunConfig.yaml"), "TimeStepInfo.txt", argc, argv, true);
        else
            s.initialize(SylinderConfig("RunConfig.yaml"), "SylinderInitial.dat", argc, argv);
        for (;;) {
            if (s.runConfig.timeTotal <= s.runConfig.dt * s.stepCount)
                break;
            s.prepareStep();
            s.runStep();
            s.calcOrderParameter();
            s.calcConStress();
            s.printTimingSummary();
        }
    }
    PS::Finalize();
    MPI_Finalize();
    return 0;
}

inline void oneStep(SS &s) {
    s.prepareStep();
    s.runStep();
}
int goodDriver2(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    PS::Initialize(argc, argv);
    Logger::setup_mpi_spdlog();
    {
        SS s;
        const bool again = IOHelper::fileExist("TimeStepInfo.txt");
        if (again)
            s.reinitialize(SylinderConfig("RunConfig.yaml"), "TimeStepInfo.txt", argc, argv, true);
        else
            s.initialize(SylinderConfig("RunConfig.yaml"), "SylinderInitial.dat", argc, argv);
        while (s.getStepCount() * s.runConfig.dt < s.runConfig.timeTotal) {
            oneStep(s);
            s.calcOrderParameter();
            s.calcConStress();
            s.printTimingSummary();
        }
    }
    PS::Finalize();
    MPI_Finalize();
    return 0;
}

// random numbers of a thread come from the engine of that thread
double uniform(TRngPool &p, int t) { return p.u01(*p.rngEngineThreadsPtr[t]); }
double normal(TRngPool &p, int t) { return p.n01(*p.rngEngineThreadsPtr[t]); }
double lognormal(TRngPool &p, int t) { return (*p.lnDistPtr)(*p.rngEngineThreadsPtr[t]); }
double uniformHere(TRngPool &p) { return p.u01(*p.rngEngineThreadsPtr[omp_get_thread_num()]); }
double normalHere(TRngPool &p) { return p.n01(*p.rngEngineThreadsPtr[omp_get_thread_num()]); }
double lognormalHere(TRngPool &p) { return (*p.lnDistPtr)(*p.rngEngineThreadsPtr[omp_get_thread_num()]); }
void lognormalSet(TRngPool &p, double mu, double sigma) { p.lnDistPtr.reset(new trng::lognormal_dist<double>(mu, sigma)); }
} // namespace spec
