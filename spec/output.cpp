#include "common.hpp"
#include "Sylinder/SylinderSystem.hpp"
#include "Util/Base64.hpp"
#include <cstdio>
#include <fstream>
namespace spec {
typedef SylinderSystem SS;

// ---- pieces of a VTK XML file
template <class T>
inline void array(std::ofstream &f, const char *name, const char *type, int comp, std::vector<T> &data) {
    std::string b;
    B64Converter::getBase64FromVector(data, b);
    f << "<DataArray Name=\"" << name << "\" type=\"" << type << "\" NumberOfComponents=\"" << comp << "\" format=\"binary\">\n";
    f << b << "\n</DataArray>\n";
}
inline void head(std::ofstream &f) {
    f << "<?xml version=\"1.0\"?>\n<VTKFile type=\"PolyData\" version=\"1.0\" byte_order=\"LittleEndian\"  header_type=\"UInt32\">\n<PolyData>\n";
}
inline void tail(std::ofstream &f) { f << "</PolyData>\n</VTKFile>\n"; }
inline void piece(std::ofstream &f, int n) { f << "<Piece NumberOfPoints=\"" << 2 * n << "\" NumberOfLines=\"" << n << "\">\n"; }
inline void phead(std::ofstream &f) {
    f << "<?xml version=\"1.0\"?>\n<VTKFile type=\"PPolyData\" version=\"1.0\" byte_order=\"LittleEndian\" header_type=\"UInt32\"> \n"
         "<PPolyData GhostLevel=\"0\"> \n";
}
inline void parray(std::ofstream &f, const char *name, const char *type, int comp) {
    f << "<PDataArray Name=\"" << name << "\" type=\"" << type << "\" NumberOfComponents=\"" << comp << "\" format=\"binary\"/>\n";
}
inline void ppoints(std::ofstream &f) {
    f << "<PPoints> \n<PDataArray NumberOfComponents=\"3\" type=\"Float64\" format=\"binary\"/>\n</PPoints> \n";
}
inline void ptail(std::ofstream &f) { f << "</PPolyData>\n</VTKFile>\n"; }
typedef const double *(*VecOf)(const Sylinder &);

// ---- particles: a line from the minus end to the plus end of each particle
#define SCALAR(T, name, value)                                                                                                           \
    std::vector<T> name(n);                                                                                                              \
    for (int i = 0; i < n; i++)                                                                                                          \
        name[i] = value;
#define VECTOR(name, member)                                                                                                             \
    std::vector<float> name(3 * n);                                                                                                      \
    for (int i = 0; i < n; i++)                                                                                                          \
        for (int k = 0; k < 3; k++)                                                                                                      \
            name[3 * i + k] = s[i].member[k];
void sylVTP(const PS::ParticleSystem<Sylinder> &s, const int n, const std::string &prefix, const std::string &postfix, int rank) {
    std::vector<double> pos(6 * n);
    std::vector<uint8_t> label(2 * n);
    std::vector<int32_t> connectivity(2 * n), offset(n);
    std::vector<float> xn(3 * n), zn(3 * n);
    for (int i = 0; i < n; i++) {
        const V d = axis(s[i].orientation), x = axisx(s[i].orientation);
        for (int k = 0; k < 3; k++) {
            pos[6 * i + k] = s[i].pos[k] - at(d, k) * s[i].length / 2;
            pos[6 * i + 3 + k] = s[i].pos[k] + at(d, k) * s[i].length / 2;
            xn[3 * i + k] = at(x, k);
            zn[3 * i + k] = at(d, k);
        }
        for (int e = 0; e < 2; e++) {
            label[2 * i + e] = e;
            connectivity[2 * i + e] = 2 * i + e;
        }
        offset[i] = 2 * i + 2;
    }
    SCALAR(int32_t, gid, s[i].gid)
    SCALAR(int32_t, group, s[i].group)
    SCALAR(uint8_t, fixed, s[i].isImmovable ? 1 : 0)
    SCALAR(float, radius, s[i].radius)
    SCALAR(float, radiusCollision, s[i].radiusCollision)
    SCALAR(float, length, s[i].length)
    SCALAR(float, lengthCollision, s[i].lengthCollision)
    VECTOR(vel, vel)
    VECTOR(omega, omega)
    VECTOR(velCol, velCol)
    VECTOR(omegaCol, omegaCol)
    VECTOR(velBi, velBi)
    VECTOR(omegaBi, omegaBi)
    VECTOR(velNonB, velNonB)
    VECTOR(omegaNonB, omegaNonB)
    VECTOR(force, force)
    VECTOR(torque, torque)
    VECTOR(forceCol, forceCol)
    VECTOR(torqueCol, torqueCol)
    VECTOR(forceBi, forceBi)
    VECTOR(torqueBi, torqueBi)
    VECTOR(forceNonB, forceNonB)
    VECTOR(torqueNonB, torqueNonB)
    VECTOR(velBrown, velBrown)
    VECTOR(omegaBrown, omegaBrown)
    std::ofstream f(prefix + "Sylinder_r" + std::to_string(rank) + "_" + postfix + ".vtp");
    head(f);
    piece(f, n);
    f << "<Points>\n";
    array(f, "position", "Float64", 3, pos);
    f << "</Points>\n<Lines>\n";
    array(f, "connectivity", "Int32", 1, connectivity);
    array(f, "offsets", "Int32", 1, offset);
    f << "</Lines>\n<PointData Scalars=\"scalars\">\n";
    array(f, "endLabel", "UInt8", 1, label);
    f << "</PointData>\n<CellData Scalars=\"scalars\">\n";
    array(f, "gid", "Int32", 1, gid);
    array(f, "group", "Int32", 1, group);
    array(f, "isImmovable", "UInt8", 1, fixed);
    array(f, "radius", "Float32", 1, radius);
    array(f, "radiusCollision", "Float32", 1, radiusCollision);
    array(f, "length", "Float32", 1, length);
    array(f, "lengthCollision", "Float32", 1, lengthCollision);
    array(f, "vel", "Float32", 3, vel);
    array(f, "omega", "Float32", 3, omega);
    array(f, "velCollision", "Float32", 3, velCol);
    array(f, "omegaCollision", "Float32", 3, omegaCol);
    array(f, "velBilateral", "Float32", 3, velBi);
    array(f, "omegaBilateral", "Float32", 3, omegaBi);
    array(f, "velNonBrown", "Float32", 3, velNonB);
    array(f, "omegaNonBrown", "Float32", 3, omegaNonB);
    array(f, "force", "Float32", 3, force);
    array(f, "torque", "Float32", 3, torque);
    array(f, "forceCollision", "Float32", 3, forceCol);
    array(f, "torqueCollision", "Float32", 3, torqueCol);
    array(f, "forceBilateral", "Float32", 3, forceBi);
    array(f, "torqueBilateral", "Float32", 3, torqueBi);
    array(f, "forceNonBrown", "Float32", 3, forceNonB);
    array(f, "torqueNonBrown", "Float32", 3, torqueNonB);
    array(f, "velBrown", "Float32", 3, velBrown);
    array(f, "omegaBrown", "Float32", 3, omegaBrown);
    array(f, "xnorm", "Float32", 3, xn);
    array(f, "znorm", "Float32", 3, zn);
    f << "</CellData>\n</Piece>\n";
    tail(f);
}
// the header lists the same arrays as the pieces and one piece per rank
void sylPVTP(const std::string &prefix, const std::string &postfix, const int n) {
    std::ofstream f(prefix + "Sylinder_" + postfix + ".pvtp");
    phead(f);
    f << "<PPointData Scalars=\"scalars\">\n";
    parray(f, "endLabel", "UInt8", 1);
    f << "</PPointData>\n<PCellData Scalars=\"scalars\">\n";
    parray(f, "gid", "Int32", 1);
    parray(f, "group", "Int32", 1);
    parray(f, "isImmovable", "UInt8", 1);
    parray(f, "radius", "Float32", 1);
    parray(f, "radiusCollision", "Float32", 1);
    parray(f, "length", "Float32", 1);
    parray(f, "lengthCollision", "Float32", 1);
    parray(f, "vel", "Float32", 3);
    parray(f, "omega", "Float32", 3);
    parray(f, "velCollision", "Float32", 3);
    parray(f, "omegaCollision", "Float32", 3);
    parray(f, "velBilateral", "Float32", 3);
    parray(f, "omegaBilateral", "Float32", 3);
    parray(f, "velNonBrown", "Float32", 3);
    parray(f, "omegaNonBrown", "Float32", 3);
    parray(f, "force", "Float32", 3);
    parray(f, "torque", "Float32", 3);
    parray(f, "forceCollision", "Float32", 3);
    parray(f, "torqueCollision", "Float32", 3);
    parray(f, "forceBilateral", "Float32", 3);
    parray(f, "torqueBilateral", "Float32", 3);
    parray(f, "forceNonBrown", "Float32", 3);
    parray(f, "torqueNonBrown", "Float32", 3);
    parray(f, "velBrown", "Float32", 3);
    parray(f, "omegaBrown", "Float32", 3);
    parray(f, "xnorm", "Float32", 3);
    parray(f, "znorm", "Float32", 3);
    f << "</PCellData>\n";
    ppoints(f);
    for (int r = 0; r < n; r++)
        f << "<Piece Source=\"Sylinder_r" << r << "_" << postfix << ".vtp\"/>\n";
    ptail(f);
}

// ---- constraints: a line between the two application points
void conVTP(const ConstraintCollector &c, const std::string &folder, const std::string &prefix, const std::string &postfix, int rank) {
    const auto &pool = *c.constraintPoolPtr;
    const int nq = pool.size();
    std::vector<int> count, start;
    c.buildConIndex(count, start);
    const int n = start.back();
    std::vector<double> pos(6 * n);
    std::vector<int32_t> gid(2 * n), index(2 * n), connectivity(2 * n), offset(n), one(n), bi(n);
    std::vector<float> posIJ(6 * n), normIJ(6 * n), delta0(n), gamma(n), kappa(n), stress(9 * n);
    for (int i = 0; i < n; i++) {
        for (int e = 0; e < 2; e++)
            connectivity[2 * i + e] = 2 * i + e;
        offset[i] = 2 * i + 2;
    }
    for (int q = 0; q < nq; q++)
        for (int j = 0; j < count[q]; j++) {
            const ConstraintBlock &b = pool[q][j];
            const int i = start[q] + j;
            for (int k = 0; k < 3; k++) {
                pos[6 * i + k] = b.labI[k];
                pos[6 * i + 3 + k] = b.labJ[k];
                posIJ[6 * i + k] = b.posI[k];
                posIJ[6 * i + 3 + k] = b.posJ[k];
                normIJ[6 * i + k] = b.normI[k];
                normIJ[6 * i + 3 + k] = b.normJ[k];
            }
            gid[2 * i] = b.gidI;
            gid[2 * i + 1] = b.gidJ;
            index[2 * i] = b.globalIndexI;
            index[2 * i + 1] = b.globalIndexJ;
            one[i] = b.oneSide ? 1 : 0;
            bi[i] = b.bilateral ? 1 : 0;
            delta0[i] = b.delta0;
            gamma[i] = b.gamma;
            kappa[i] = b.kappa;
            for (int k = 0; k < 9; k++)
                stress[9 * i + k] = b.stress[k];
        }
    std::ofstream f(folder + '/' + prefix + "ConBlock_r" + std::to_string(rank) + "_" + postfix + ".vtp");
    head(f);
    piece(f, n);
    f << "<Points>\n";
    array(f, "position", "Float64", 3, pos);
    f << "</Points>\n<Lines>\n";
    array(f, "connectivity", "Int32", 1, connectivity);
    array(f, "offsets", "Int32", 1, offset);
    f << "</Lines>\n<PointData Scalars=\"scalars\">\n";
    array(f, "gid", "Int32", 1, gid);
    array(f, "globalIndex", "Int32", 1, index);
    array(f, "posIJ", "Float32", 3, posIJ);
    array(f, "normIJ", "Float32", 3, normIJ);
    f << "</PointData>\n<CellData Scalars=\"scalars\">\n";
    array(f, "oneSide", "Int32", 1, one);
    array(f, "bilateral", "Int32", 1, bi);
    array(f, "delta0", "Float32", 1, delta0);
    array(f, "gamma", "Float32", 1, gamma);
    array(f, "kappa", "Float32", 1, kappa);
    array(f, "Stress", "Float32", 9, stress);
    f << "</CellData>\n</Piece>\n";
    tail(f);
}
void conPVTP(const ConstraintCollector &c, const std::string &folder, const std::string &prefix, const std::string &postfix, const int n) {
    std::ofstream f(folder + "/" + prefix + "ConBlock_" + postfix + ".pvtp");
    phead(f);
    f << "<PPointData Scalars=\"scalars\">\n";
    parray(f, "gid", "Int32", 1);
    parray(f, "globalIndex", "Int32", 1);
    parray(f, "posIJ", "Float32", 3);
    parray(f, "normIJ", "Float32", 3);
    f << "</PPointData>\n<PCellData Scalars=\"scalars\">\n";
    parray(f, "oneSide", "Int32", 1);
    parray(f, "bilateral", "Int32", 1);
    parray(f, "delta0", "Float32", 1);
    parray(f, "gamma", "Float32", 1);
    parray(f, "kappa", "Float32", 1);
    parray(f, "Stress", "Float32", 9);
    f << "</PCellData>\n";
    ppoints(f);
    for (int r = 0; r < n; r++)
        f << "<Piece Source=\"" << prefix << "ConBlock_r" << r << "_" << postfix << ".vtp\"/>\n";
    ptail(f);
}
} // namespace spec
