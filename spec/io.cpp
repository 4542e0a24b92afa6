#include "common.hpp"
#include "MPI/CommMPI.hpp"
#include "Sylinder/SylinderSystem.hpp"
#include "Util/IOHelper.hpp"
#include <cstdio>
#include <fstream>
#include <sstream>
#include <vtkCellData.h>
#include <vtkPolyData.h>
#include <vtkSmartPointer.h>
#include <vtkTypeInt32Array.h>
#include <vtkTypeUInt8Array.h>
#include <vtkXMLPPolyDataReader.h>
namespace spec {
typedef SylinderSystem SS;

// the rotation that takes z to v
inline void orient(double *o, V v) {
    const Equatn r = Equatn::FromTwoVectors(Evec3(0, 0, 1), Evec3(v.x, v.y, v.z));
    o[0] = r.x();
    o[1] = r.y();
    o[2] = r.z();
    o[3] = r.w();
}

// ---- restart record
std::string getResultFolderWithID(SS &s, int id) {
    const int n = 400 / s.commRcp->getSize();
    const int perFolder = std::max(n, 1);
    const int k = id / perFolder;
    return "./result/result" + std::to_string(k * perFolder) + "-" + std::to_string(k * perFolder + perFolder - 1) + "/";
}

// a snapshot is recorded once the files of all ranks are complete
void writeTimeStepInfo(SS &s, const std::string &folder) {
    s.commRcp->barrier();
    if (s.commRcp->getRank() == 0) {
        FILE *f = fopen((folder + "../../TimeStepInfo.txt").c_str(), "w");
        fprintf(f, "%u\n%u\n%u\nSylinder_%u.pvtp\n", s.restartRngSeed, s.stepCount, s.snapID, s.snapID);
        fclose(f);
    }
}

void writeVTK(SS &s, const std::string &folder) {
    Sylinder::writeVTP<PS::ParticleSystem<Sylinder>>(s.sylinderContainer, s.sylinderContainer.getNumberOfParticleLocal(), folder,
                                                     std::to_string(s.snapID), s.commRcp->getRank());
    s.conCollectorPtr->writeVTP(folder, "", std::to_string(s.snapID), s.commRcp->getRank());
    if (s.commRcp->getRank() == 0) {
        Sylinder::writePVTP(folder, std::to_string(s.snapID), s.commRcp->getSize());
        s.conCollectorPtr->writePVTP(folder, "", std::to_string(s.snapID), s.commRcp->getSize());
    }
}

void writeResult(SS &s) {
    const std::string folder = s.getResultFolderWithID(s.snapID);
    IOHelper::makeSubFolder(folder);
    s.writeAscii(folder);
    s.writeVTK(folder);
    s.writeTimeStepInfo(folder);
    s.snapID++;
}

// every particle of the snapshot, restored from the fields written by Sylinder::writeVTP
void setInitialFromVTKFile(SS &s, const std::string &name) {
    if (s.commRcp->getRank() != 0) {
        s.sylinderContainer.setNumberOfParticleLocal(0);
    } else {
        vtkSmartPointer<vtkXMLPPolyDataReader> reader = vtkSmartPointer<vtkXMLPPolyDataReader>::New();
        reader->SetFileName(name.c_str());
        reader->Update();
        vtkPolyData *data = reader->GetOutput();
        vtkCellData *cell = data->GetCellData();
        const int n = data->GetPoints()->GetNumberOfPoints() / 2;
        s.sylinderContainer.setNumberOfParticleLocal(n);
        for (int i = 0; i < n; i++) {
            Sylinder &y = s.sylinderContainer[i];
            double minus[3], plus[3];
            data->GetPoints()->GetPoint(2 * i, minus);
            data->GetPoints()->GetPoint(2 * i + 1, plus);
            V d;
            d.x = cell->GetArray("znorm")->GetComponent(i, 0);
            d.y = cell->GetArray("znorm")->GetComponent(i, 1);
            d.z = cell->GetArray("znorm")->GetComponent(i, 2);
            for (int k = 0; k < 3; k++) {
                y.pos[k] = (minus[k] + plus[k]) / 2;
                y.vel[k] = cell->GetArray("vel")->GetComponent(i, k);
                y.omega[k] = cell->GetArray("omega")->GetComponent(i, k);
            }
            orient(y.orientation, d);
            y.gid = cell->GetArray("gid")->GetComponent(i, 0);
            y.group = cell->GetArray("group")->GetComponent(i, 0);
            y.isImmovable = cell->GetArray("isImmovable")->GetComponent(i, 0) > 0;
            y.length = cell->GetArray("length")->GetComponent(i, 0);
            y.lengthCollision = cell->GetArray("lengthCollision")->GetComponent(i, 0);
            y.radius = cell->GetArray("radius")->GetComponent(i, 0);
            y.radiusCollision = cell->GetArray("radiusCollision")->GetComponent(i, 0);
        }
    }
    s.commRcp->barrier();
}

// state common to a fresh and a restarted run
inline void start(SS &s, const SylinderConfig &c) {
    s.runConfig = c;
}
inline void parts(SS &s) {
    int flag;
    MPI_Initialized(&flag);
    Logger::set_level(s.runConfig.logLevel);
    s.commRcp = getMPIWORLDTCOMM();
    s.showOnScreenRank0();
    s.rngPoolPtr = std::make_shared<TRngPool>(s.restartRngSeed);
    s.conSolverPtr = std::make_shared<ConstraintSolver>();
    s.conCollectorPtr = std::make_shared<ConstraintCollector>();
    s.dinfo.initialize();
    s.setDomainInfo();
    s.sylinderContainer.initialize();
    s.sylinderContainer.setAverageTargetNumberOfSampleParticlePerProcess(200);
}
inline void directory(SS &s) {
    s.sylinderNearDataDirectoryPtr = std::make_shared<ZDD<SylinderNearEP>>(s.sylinderContainer.getNumberOfParticleLocal());
    s.treeSylinderNumber = 0;
    s.setTreeSylinder();
    s.calcVolFrac();
}

void initialize(SS &s, const SylinderConfig &c, const std::string &posFile, int argc, char **argv) {
    s.runConfig = c;
    s.stepCount = 0;
    s.snapID = 0;
    s.restartRngSeed = c.rngSeed;
    parts(s);
    if (IOHelper::fileExist(posFile))
        s.setInitialFromFile(posFile);
    else
        s.setInitialFromConfig();
    s.setLinkMapFromFile(posFile);
    s.commRcp->barrier();
    s.decomposeDomain();
    s.exchangeSylinder();
    directory(s);
    if (s.commRcp->getRank() == 0) {
        IOHelper::makeSubFolder("./result");
        s.writeBox();
    }
    if (!s.runConfig.sylinderFixed)
        for (int i = 0; i < s.runConfig.initPreSteps; i++) {
            s.prepareStep();
            s.calcVelocityNonCon();
            s.resolveConstraints();
            s.saveForceVelocityConstraints();
            s.sumForceVelocity();
            s.stepEuler();
        }
}

// a restart reads the record and the snapshot it names, with a new seed; the snapshot was taken before the Euler step of its step
void reinitialize(SS &s, const SylinderConfig &c, const std::string &restartFile, int argc, char **argv, bool eulerStep) {
    s.runConfig = c;
    std::string pvtp;
    std::ifstream f(restartFile);
    f >> s.restartRngSeed >> s.stepCount >> s.snapID >> pvtp;
    s.restartRngSeed++;
    parts(s);
    std::string dat = pvtp;
    dat.replace(dat.find_last_of('.'), 5, std::string(".dat"));
    dat.replace(dat.find_last_of('_'), 1, std::string("Ascii_"));
    const std::string folder = s.getResultFolderWithID(s.snapID);
    s.setInitialFromVTKFile(folder + pvtp);
    s.setLinkMapFromFile(folder + dat);
    if (eulerStep)
        s.stepEuler();
    s.stepCount++;
    s.snapID++;
    s.commRcp->barrier();
    s.applyBoxBC();
    s.decomposeDomain();
    s.exchangeSylinder();
    s.updateSylinderMap();
    directory(s);
}

// ---- text files
void sylAscii(const Sylinder &s, FILE *f) {
    const V d = axis(s.orientation);
    fprintf(f, "%c %d %.8g", s.isImmovable ? 'S' : 'C', s.gid, s.radius);
    for (int k = 0; k < 3; k++)
        fprintf(f, " %.8g", s.pos[k] - s.length / 2 * at(d, k));
    for (int k = 0; k < 3; k++)
        fprintf(f, " %.8g", s.pos[k] + s.length / 2 * at(d, k));
    fprintf(f, " %d\n", s.group);
}
void header(const SylinderAsciiHeader &h, FILE *f) { fprintf(f, "%d \n %lf\n", h.nparticle, h.time); }

void writeAscii(SS &s, const std::string &folder) {
    const std::string name = folder + "SylinderAscii_" + std::to_string(s.snapID) + ".dat";
    SylinderAsciiHeader h;
    h.nparticle = s.sylinderContainer.getNumberOfParticleGlobal();
    h.time = s.stepCount * s.runConfig.dt;
    s.sylinderContainer.writeParticleAscii(name.c_str(), h);
    if (s.commRcp->getRank() == 0) {
        FILE *f = fopen(name.c_str(), "a");
        for (const auto &l : s.linkMap)
            fprintf(f, "L %d %d\n", l.first, l.second);
        fclose(f);
    }
    s.commRcp->barrier();
}

void writeBox(SS &s) {
    FILE *f = fopen("./result/simBox.vtk", "w");
    fprintf(f, "# vtk DataFile Version 3.0\nvtk file\nASCII\nDATASET RECTILINEAR_GRID\nDIMENSIONS 2 2 2\n");
    const char *axes[3] = {"X", "Y", "Z"};
    for (int k = 0; k < 3; k++)
        fprintf(f, "%s_COORDINATES 2 float\n%g %g\n", axes[k], s.runConfig.simBoxLow[k], s.runConfig.simBoxHigh[k]);
    fprintf(f, "CELL_DATA 1\nPOINT_DATA 8\n");
    fclose(f);
}

// after two header lines: type gid radius minus(3) plus(3) [group]; other lines are skipped
void setInitialFromFile(SS &s, const std::string &name) {
    if (s.commRcp->getRank() != 0) {
        s.sylinderContainer.setNumberOfParticleLocal(0);
        return;
    }
    std::ifstream f(name);
    std::string line;
    std::getline(f, line);
    std::getline(f, line);
    std::deque<Sylinder> all;
    while (std::getline(f, line)) {
        if (line[0] != 'C' && line[0] != 'S')
            continue;
        std::stringstream t(line);
        char type;
        int gid, group = -1;
        double radius;
        V m, p;
        t >> type >> gid >> radius >> m.x >> m.y >> m.z >> p.x >> p.y >> p.z;
        t >> group;
        Sylinder y;
        y.gid = gid;
        y.group = group;
        y.isImmovable = type == 'S';
        y.radius = y.radiusCollision = radius;
        y.length = y.lengthCollision = norm(sub(p, m));
        put(y.pos, mul(0.5, add(p, m)));
        if (y.length > 1e-7)
            orient(y.orientation, sub(p, m));
        else
            orient(y.orientation, V{0, 0, 1});
        all.push_back(y);
    }
    const int n = all.size();
    s.sylinderContainer.setNumberOfParticleLocal(n);
    for (int i = 0; i < n; i++) {
        s.sylinderContainer[i] = all[i];
        clear(s.sylinderContainer[i]);
    }
}

// after two header lines: L prev next; both directions are recorded
void setLinkMapFromFile(SS &s, const std::string &name) {
    std::ifstream f(name);
    std::string line;
    std::getline(f, line);
    std::getline(f, line);
    s.linkMap.clear();
    s.linkReverseMap.clear();
    while (std::getline(f, line))
        if (line[0] == 'L') {
            std::stringstream t(line);
            char h;
            Link l;
            t >> h >> l.prev >> l.next;
            s.linkMap.emplace(l.prev, l.next);
            s.linkReverseMap.emplace(l.next, l.prev);
        }
}
} // namespace spec
