#include "common.hpp"
#include "Trilinos/TpetraUtil.hpp"
#include "Util/EquatnHelper.hpp"
#include "Util/GeoUtil.hpp"
#include "Util/PointDistribution.hpp"
#include <limits>
#include <mpi.h>
template void getRandPointInCircle<double>(const double &, const double &, const double &, double &, double &);
template void getRandPointAngleOnSphere<double>(const double &, const double &, double &, double &);
template void getRandPointOnSphere<double>(const double &, const double &, const double &, double[3]);
namespace spec {
typedef Teuchos::RCP<const TMAP> Map;
typedef Teuchos::RCP<const TCOMM> Comm;

// ---------------------------------------------------------------- Tpetra helpers
// Y = op X, plain or (conjugate) transposed as asked
void belosApply(const TOP &op, const TMV &x, TMV &y, const Belos::ETrans trans) {
    op.apply(x, y, trans == Belos::NOTRANS ? Teuchos::NO_TRANS : trans == Belos::TRANS ? Teuchos::TRANS : Teuchos::CONJ_TRANS);
}
bool belosTranspose(const TOP &op) { return op.hasTransposeApply(); }
Teuchos::RCP<TMAP> mapFromLocal(const int &n, Comm &comm) {
    return Teuchos::rcp(new TMAP(Teuchos::OrdinalTraits<Tpetra::global_size_t>::invalid(), n, 0, comm));
}
Teuchos::RCP<TMAP> mapFromList(const std::vector<int> &gid, const int total, Comm &comm) {
    return Teuchos::rcp(new TMAP(total, gid.data(), gid.size(), 0, comm));
}
// all of the first map's indices, then the second's shifted by the size of the first
Teuchos::RCP<TMAP> mapFromTwo(const Map &a, const Map &b) {
    if (!a->isContiguous())
        throw std::invalid_argument("");
    if (!b->isContiguous())
        throw std::invalid_argument("");
    const int na = a->getNodeNumElements(), nb = b->getNodeNumElements();
    const int Na = a->getGlobalNumElements(), Nb = b->getGlobalNumElements();
    auto ga = a->getMyGlobalIndices();
    auto gb = b->getMyGlobalIndices();
    std::vector<int> gid;
    gid.resize(na + nb);
    for (int i = 0; i < na + nb; i++)
        gid[i] = i < na ? ga[i] : gb[i - na] + Na;
    return Teuchos::rcp(new TMAP(Na + Nb, gid.data(), na + nb, 0, a->getComm()));
}
Teuchos::RCP<TV> vecFromTwo(const Teuchos::RCP<const TV> &a, const Teuchos::RCP<const TV> &b) {
    Teuchos::RCP<TMAP> map = getTMAPFromTwoBlockTMAP(a->getMap(), b->getMap());
    Teuchos::RCP<TV> r = Teuchos::rcp(new TV(map, true));
    const int na = a->getMap()->getNodeNumElements(), nb = b->getMap()->getNodeNumElements();
    auto v = r->getLocalView<Kokkos::HostSpace>();
    auto va = a->getLocalView<Kokkos::HostSpace>();
    auto vb = b->getLocalView<Kokkos::HostSpace>();
    for (int i = 0; i < na; i++)
        v(i, 0) = va(i, 0);
    for (int i = 0; i < nb; i++)
        v(na + i, 0) = vb(i, 0);
    return r;
}
Teuchos::RCP<TV> vecFromList(const std::vector<double> &in, Comm &comm) {
    const int n = in.size();
    Teuchos::RCP<TMAP> map = getTMAPFromLocalSize(n, comm);
    Teuchos::RCP<TV> r = Teuchos::rcp(new TV(map, false));
    auto v = r->getLocalView<Kokkos::HostSpace>();
    for (int i = 0; i < map->getNodeNumElements(); i++)
        v(i, 0) = in[i];
    return r;
}

// ---------------------------------------------------------------- rotations and random placement
void quatRandom(Equatn &q, const double &u1, const double &u2, const double &u3) {
    const double tau = 2 * 3.14159265358979323846;
    q.w() = sqrt(1 - u1) * sin(tau * u2);
    q.x() = sqrt(1 - u1) * cos(tau * u2);
    q.y() = sqrt(u1) * sin(tau * u3);
    q.z() = sqrt(u1) * cos(tau * u3);
}
// q <- (rotation by |omega| dt about omega) q, of unit length; a turn rate of practically zero leaves q as it is
void quatRotate(Equatn &q, const Evec3 &omega, const double &dt) {
    const double w = sqrt(omega[0] * omega[0] + omega[1] * omega[1] + omega[2] * omega[2]);
    if (w < std::numeric_limits<float>::epsilon())
        return;
    const double c = cos(w * dt / 2), s = sin(w * dt / 2);
    const double n0 = s * omega[0] / w, n1 = s * omega[1] / w, n2 = s * omega[2] / w;
    const double a = q.w(), x = q.x(), y = q.y(), z = q.z();
    const double W = c * a - n0 * x - n1 * y - n2 * z;
    const double X = c * x + n0 * a + n1 * z - n2 * y;
    const double Y = c * y + n1 * a + n2 * x - n0 * z;
    const double Z = c * z + n2 * a + n0 * y - n1 * x;
    const double L = sqrt(W * W + X * X + Y * Y + Z * Z);
    q.w() = W / L;
    q.x() = X / L;
    q.y() = Y / L;
    q.z() = Z / L;
}
void crossMatrix(const Evec3 &p, Emat3 &P) {
    for (int i = 0; i < 3; i++)
        P(i, i) = 0;
    P(0, 1) = -p[2];
    P(1, 2) = -p[0];
    P(2, 0) = -p[1];
    P(1, 0) = p[2];
    P(2, 1) = p[0];
    P(0, 2) = p[1];
}
// dq/dt = Psi(q) omega
void psiMatrix(const Equatn &q, EmatPsi &psi) {
    for (int j = 0; j < 3; j++) {
        // half the product of the pure quaternion of axis j with q
        const double u0 = j == 0, u1 = j == 1, u2 = j == 2;
        psi(0, j) = -(u0 * q.x() + u1 * q.y() + u2 * q.z()) / 2;
        psi(1, j) = (u0 * q.w() + u1 * q.z() - u2 * q.y()) / 2;
        psi(2, j) = (u1 * q.w() + u2 * q.x() - u0 * q.z()) / 2;
        psi(3, j) = (u2 * q.w() + u0 * q.y() - u1 * q.x()) / 2;
    }
}
void inCircle(const double &R, const double &a, const double &b, double &x, double &y) {
    const double t = 2 * 3.14159265358979323846 * a;
    x = R * sqrt(b) * cos(t);
    y = R * sqrt(b) * sin(t);
}
void anglesOnSphere(const double &a, const double &b, double &t, double &p) {
    t = 2 * 3.14159265358979323846 * a;
    p = acos(2 * b - 1);
}
void onSphere(const double &R, const double &a, const double &b, double pos[3]) {
    double t, p;
    anglesOnSphere(a, b, t, p);
    pos[0] = R * sin(p) * cos(t);
    pos[1] = R * sin(p) * sin(t);
    pos[2] = R * cos(p);
}

// ---------------------------------------------------------------- lists of points
void pointsScale(std::vector<double> &x, double shift[3], double scale) {
    const int n = x.size() / 3;
    for (int i = 0; i < n; i++)
        for (int k = 0; k < 3; k++)
            x[3 * i + k] = x[3 * i + k] * scale + shift[k];
}
// rank r of P takes points [floor(r n/P), floor((r+1) n/P)), the last one all that remains
void pointsSplit(std::vector<double> &x, int dim) {
    int r, P;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    MPI_Comm_size(MPI_COMM_WORLD, &P);
    if (P == 1)
        return;
    int size = 0;
    if (r == 0)
        size = x.size();
    MPI_Bcast(&size, 1, MPI_INT, 0, MPI_COMM_WORLD);
    x.resize(size);
    MPI_Bcast(x.data(), size, MPI_DOUBLE, 0, MPI_COMM_WORLD);
    const int n = size / dim;
    const int lo = dim * floor(r * n / (double)P);
    const int hi = r == P - 1 ? size : (int)(dim * floor((r + 1) * n / (double)P));
    std::vector<double> mine;
    mine.resize(hi - lo);
    for (int i = 0; i < hi - lo; i++)
        mine[i] = x[lo + i];
    x = mine;
}
// rank 0 gets all, in rank order; the others end up with none
void pointsGather(std::vector<double> &x) {
    int r, P;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    MPI_Comm_size(MPI_COMM_WORLD, &P);
    if (P == 1)
        return;
    int n = x.size();
    std::vector<int> sizes, displs;
    if (r == 0)
        sizes.resize(P);
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Gather(&n, 1, MPI_INT, sizes.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
    displs.resize(sizes.size());
    int total = 0;
    for (int i = 0; i < (int)sizes.size(); i++) {
        displs[i] = total;
        total += sizes[i];
    }
    std::vector<double> all;
    all.resize(total);
    MPI_Barrier(MPI_COMM_WORLD);
    if (r == 0)
        MPI_Gatherv(x.data(), n, MPI_DOUBLE, all.data(), sizes.data(), displs.data(), MPI_DOUBLE, 0, MPI_COMM_WORLD);
    else
        MPI_Gatherv(x.data(), n, MPI_DOUBLE, NULL, NULL, NULL, MPI_DOUBLE, 0, MPI_COMM_WORLD);
    x = all;
}
void pointsAll(std::vector<double> &x) {
    collectPts(x);
    int n = x.size();
    MPI_Bcast(&n, 1, MPI_INT, 0, MPI_COMM_WORLD);
    x.resize(n);
    MPI_Bcast(x.data(), n, MPI_DOUBLE, 0, MPI_COMM_WORLD);
}
void pointsFixed(int n, double box, double shift, std::vector<double> &x) {
    const double one[3] = {0.7, 0.6, 0.4}, two[6] = {0.7, 0.6, 0.5, 0.2, 0.8, 0.7};
    const double four[12] = {0.1, 0.1, 0.1, 0.2, 0.2, 0.2, 0.3, 0.3, 0.3, 0.4, 0.4, 0.4};
    if (n == 1)
        for (int i = 0; i < 3; i++)
            x.push_back(one[i] * box + shift);
    else if (n == 2)
        for (int i = 0; i < 6; i++)
            x.push_back(two[i] * box + shift);
    else if (n == 4)
        for (int i = 0; i < 12; i++)
            x.push_back(four[i] * box + shift);
    else
        x.clear();
}
void pointsDump(const std::string &name, std::vector<double> &x, std::vector<double> &v, const int dim) {
    FILE *f = fopen(name.c_str(), "w");
    auto X = x;
    auto V = v;
    collectPts(X);
    collectPts(V);
    const int n = X.size() / 3;
    if (V.size() != dim * n)
        std::exit(1);
    for (int i = 0; i < n; i++) {
        fprintf(f, "%6f %6f %6f;", X[3 * i], X[3 * i + 1], X[3 * i + 2]);
        for (int j = 0; j < dim; j++)
            fprintf(f, " %6f", V[dim * i + j]);
        fprintf(f, " \n");
    }
    fclose(f);
}
} // namespace spec
