// exchange of data between ranks, and sorting by tag
#include "MPI/CommMPI.hpp"
#include "MPI/MixPairInteraction.hpp"
#include "Trilinos/ZDD.hpp"
#include "Util/SortUtil.hpp"
namespace spec {

struct Full {
    int id;
    double r, x[3];
};
// a particle as the pair search sees it; the members are opaque to the comparison
struct Near {
    int id;
    double r, x[3];
    double getRSearch() const { return r; }
    PS::F64vec3 getPos() const { return PS::F64vec3(x[0], x[1], x[2]); }
    void setPos(const PS::F64vec3 &p) {
        x[0] = p.x;
        x[1] = p.y;
        x[2] = p.z;
    }
    void copyFromFP(const Full &f) {
        id = f.id;
        r = f.r;
        for (int k = 0; k < 3; k++)
            x[k] = f.x[k];
    }
};
struct Near2 : Near {
    int more;
    void copyFromFP(const Full &f) {
        Near::copyFromFP(f);
        more = f.id + 1;
    }
};
struct Out {
    double f;
    void clear() { f = 0; }
};
struct Ftr {
    void operator()(const MixEPI<Near> *const, const PS::S32, const MixEPJ<Near2> *const, const PS::S32, Out *const) {}
};
using Mix = MixPairInteraction<Full, Full, Near, Near2, Out>;

} // namespace spec
template struct MixFP<spec::Near, spec::Near2>;
template struct MixEPI<spec::Near>;
template struct MixEPJ<spec::Near2>;
namespace spec {
void instantiate(Mix &m, PS::ParticleSystem<Full> &a, PS::DomainInfo &d, Ftr &f, CommMPI &c, std::vector<int> &r, std::vector<double> &v,
                 ZDD<Full> &z) {
    m.initialize();
    m.updateSystem(a, a, d);
    m.updateTree();
    m.computeForce(f, d);
    m.dumpSystem();
    m.getForceResult();
    c.exchangeAllToAllV(r, v, r, v);
    sortDataWithTag(r, v);
    ZDD<Full> y(1);
    z.buildIndex();
    z.find();
}

MPI_Datatype messageType() { return createMPIStructType<Full>(); }
MPI_Datatype byteType() {
    static MPI_Datatype type = MPI_DATATYPE_NULL;
    if (type == MPI_DATATYPE_NULL) {
        MPI_Type_contiguous(sizeof(Full), MPI_BYTE, &type);
        MPI_Type_commit(&type);
    }
    return type;
}

void sortTag(std::vector<int> &tags, std::vector<double> &data) {
    const int n = tags.size();
    std::vector<int> order(n), t(n);
    std::vector<double> d(n);
    for (int i = 0; i < n; i++)
        order[i] = i;
    std::stable_sort(order.begin(), order.end(), [&tags](int i, int j) { return tags[i] < tags[j]; });
    for (int i = 0; i < n; i++) {
        t[i] = tags[order[i]];
        d[i] = data[order[i]];
    }
    tags = t;
    data = d;
}

void exchange(CommMPI &self, std::vector<int> &destination, std::vector<double> &send, std::vector<int> &source,
              std::vector<double> &receive) {
    MPI_Datatype type = createMPIStructType<double>();
    sortDataWithTag(destination, send);
    const int n = send.size(), P = self.nProcs;
    for (int i = 0; i < P; i++)
        self.sendCounts[i] = 0;
    for (int i = 0; i < n; i++)
        self.sendCounts[destination[i]]++;
    MPI_Alltoall(self.sendCounts.data(), 1, MPI_INT, self.recvCounts.data(), 1, MPI_INT, MPI_COMM_WORLD);
    self.sendDispls[0] = self.recvDispls[0] = 0;
    std::partial_sum(self.sendCounts.begin(), self.sendCounts.end(), self.sendDispls.begin() + 1);
    std::partial_sum(self.recvCounts.begin(), self.recvCounts.end(), self.recvDispls.begin() + 1);
    receive.resize(self.recvDispls[P]);
    source.resize(self.recvDispls[P]);
    MPI_Alltoallv(send.data(), self.sendCounts.data(), self.sendDispls.data(), type, receive.data(), self.recvCounts.data(),
                  self.recvDispls.data(), type, MPI_COMM_WORLD);
    for (int i = 0; i < P; i++)
        std::fill(source.begin() + self.recvDispls[i], source.begin() + self.recvDispls[i + 1], i);
}

void mixUpdate(Mix &self, const PS::ParticleSystem<Full> &trg, const PS::ParticleSystem<Full> &src, const PS::DomainInfo &d) {
    self.nLocalTrg = trg.getNumberOfParticleLocal();
    self.nLocalSrc = src.getNumberOfParticleLocal();
    const int n = self.nLocalTrg, m = self.nLocalSrc;
    self.systemMix.setNumberOfParticleLocal(n + m);
    for (int i = 0; i < n + m; i++) {
        if (i < n) {
            self.systemMix[i].trgFlag = true;
            self.systemMix[i].epTrg.copyFromFP(trg[i]);
        } else {
            self.systemMix[i].trgFlag = false;
            self.systemMix[i].epSrc.copyFromFP(src[i - n]);
        }
    }
    self.systemMix.adjustPositionIntoRootDomain(d);
}

void mixTree(Mix &self) {
    const int n = self.systemMix.getNumberOfParticleGlobal();
    const bool rebuild = PS::Comm::synchronizeConditionalBranchAND(!self.treeMixPtr || n > 1.5 * self.numberParticleInTree);
    if (rebuild) {
        self.treeMixPtr = std::make_unique<Mix::TreeType>();
        self.treeMixPtr->initialize(n * 2);
        self.numberParticleInTree = n;
    }
    PS::Comm::barrier();
}

void mixForce(Mix &self, Ftr &f, PS::DomainInfo &d) {
    self.treeMixPtr->calcForceAll(f, self.systemMix, d);
    self.forceResult.resize(self.nLocalTrg);
    for (int i = 0; i < self.nLocalTrg; i++)
        self.forceResult[i] = self.treeMixPtr->getForce(i);
}

void epi(MixEPI<Near> &e, const MixFP<Near, Near2> &f) {
    e.trgFlag = f.trgFlag;
    if (f.trgFlag) {
        e.radius = f.epTrg.r;
        e.epTrg = f.epTrg;
    } else {
        e.radius = f.epSrc.r;
        e.pos.x = f.epSrc.x[0];
        e.pos.y = f.epSrc.x[1];
        e.pos.z = f.epSrc.x[2];
    }
}
void epj(MixEPJ<Near2> &e, const MixFP<Near, Near2> &f) {
    e.srcFlag = !f.trgFlag;
    if (!f.trgFlag) {
        e.radius = f.epSrc.r;
        e.epSrc = f.epSrc;
    } else {
        e.radius = f.epTrg.r;
        e.pos.x = f.epTrg.x[0];
        e.pos.y = f.epTrg.x[1];
        e.pos.z = f.epTrg.x[2];
    }
}
PS::F64vec3 fpPos(const MixFP<Near, Near2> &f) {
    const double *x = f.trgFlag ? f.epTrg.x : f.epSrc.x;
    return PS::F64vec3(x[0], x[1], x[2]);
}
double fpRadius(const MixFP<Near, Near2> &f) { return f.trgFlag ? f.epTrg.r : f.epSrc.r; }
void fpSet(MixFP<Near, Near2> &f, const PS::F64vec3 &p) {
    double *x = f.trgFlag ? f.epTrg.x : f.epSrc.x;
    x[0] = p.x;
    x[1] = p.y;
    x[2] = p.z;
}
PS::F64vec3 epiPos(const MixEPI<Near> &e) { return e.trgFlag ? PS::F64vec3(e.epTrg.x[0], e.epTrg.x[1], e.epTrg.x[2]) : e.pos; }
PS::F64vec3 epjPos(const MixEPJ<Near2> &e) { return e.srcFlag ? PS::F64vec3(e.epSrc.x[0], e.epSrc.x[1], e.epSrc.x[2]) : e.pos; }
void epiSet(MixEPI<Near> &e, const PS::F64vec3 &p) {
    if (e.trgFlag) {
        e.epTrg.x[0] = p.x;
        e.epTrg.x[1] = p.y;
        e.epTrg.x[2] = p.z;
    } else
        e.pos = p;
}
void epjSet(MixEPJ<Near2> &e, const PS::F64vec3 &p) {
    if (e.srcFlag) {
        e.epSrc.x[0] = p.x;
        e.epSrc.x[1] = p.y;
        e.epSrc.x[2] = p.z;
    } else
        e.pos = p;
}
double epiRadius(const MixEPI<Near> &e) { return e.radius; }
double epjRadius(const MixEPJ<Near2> &e) { return e.radius; }

void commMake(CommMPI &self) {
    MPI_Comm_rank(MPI_COMM_WORLD, &self.rank);
    MPI_Comm_size(MPI_COMM_WORLD, &self.nProcs);
    const int n = self.nProcs;
    self.sendCounts.assign(n, 0);
    self.recvCounts.assign(n, 0);
    self.sendDispls.assign(n + 1, 0);
    self.recvDispls.assign(n + 1, 0);
}

void zddMake(ZDD<Full> &self, int n) {
    self.gidToFind.clear();
    self.dataToFind.clear();
    self.gidOnLocal.clear();
    self.dataOnLocal.clear();
    MPI_Comm_rank(MPI_COMM_WORLD, &self.myRank);
    MPI_Comm_size(MPI_COMM_WORLD, &self.rankSize);
    if (self.findZDD.Create(MPI_COMM_WORLD, 1, 0, sizeof(Full), 0, 0) != ZOLTAN_OK)
        std::exit(1);
}

int zddFind(ZDD<Full> &self) {
    const int n = self.gidToFind.size();
    if ((int)self.dataToFind.size() < n)
        self.dataToFind.resize(n);
    return self.findZDD.Find(self.gidToFind.data(), NULL, (char *)self.dataToFind.data(), NULL, n, NULL);
}
int zddBuild(ZDD<Full> &self) {
    const int e = self.findZDD.Update(self.gidOnLocal.data(), NULL, (char *)self.dataOnLocal.data(), NULL, self.gidOnLocal.size());
    if (e != ZOLTAN_OK) {
        spdlog::critical("ZDD Update error {}", e);
        std::exit(1);
    }
    return e;
}
} // namespace spec
