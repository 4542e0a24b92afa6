#include "common.hpp"
#include "Collision/CPSolver.hpp"
#include "Constraint/BCQPSolver.hpp"
#include "Trilinos/TpetraUtil.hpp"
#include <limits>
namespace spec {
typedef BCQPSolver BQ;

void bqMake(BQ &s, const Teuchos::RCP<const TOP> &A, const Teuchos::RCP<const TV> &b) {
    const double big = std::numeric_limits<double>::max() / 10;
    s.ARcp = A;
    s.bRcp = b;
    s.mapRcp = b->getMap();
    s.commRcp = b->getMap()->getComm();
    s.lbRcp = Teuchos::rcp(new TV(b->getMap(), true));
    s.lbRcp->putScalar(-big);
    s.ubRcp = Teuchos::rcp(new TV(b->getMap(), true));
    s.ubRcp->putScalar(big);
    s.lbSet = true;
    s.ubSet = true;
}
void bqLower(BQ &s, const Teuchos::RCP<TV> &v) {
    s.lbRcp = v;
    s.lbSet = true;
}
void bqUpper(BQ &s, const Teuchos::RCP<TV> &v) {
    s.ubRcp = v;
    s.ubSet = true;
}
Teuchos::RCP<TV> bqGetLower(BQ &s) { return s.lbRcp; }
Teuchos::RCP<TV> bqGetUpper(BQ &s) { return s.ubRcp; }
// bounds that were set stay
void bqDefault(BQ &s) {
    const double big = std::numeric_limits<double>::max() / 10;
    if (!s.lbSet) {
        s.lbRcp = Teuchos::rcp(new TV(s.bRcp->getMap(), true));
        s.lbRcp->putScalar(-big);
        s.lbSet = true;
    }
    if (!s.ubSet) {
        s.ubRcp = Teuchos::rcp(new TV(s.bRcp->getMap(), true));
        s.ubRcp->putScalar(big);
        s.ubSet = true;
    }
}
// every entry into [lb, ub]
void bqProject(const BQ &s, Teuchos::RCP<TV> &v) {
    auto x = v->getLocalView<Kokkos::HostSpace>();
    auto lb = s.lbRcp->getLocalView<Kokkos::HostSpace>();
    auto ub = s.ubRcp->getLocalView<Kokkos::HostSpace>();
    const int n = x.dimension_0();
    for (int i = 0; i < n; i++)
        x(i, 0) = std::min(std::max(x(i, 0), lb(i, 0)), ub(i, 0));
}
// the part of the gradient along which x may still move
double bqResidual(const BQ &s, const Teuchos::RCP<const TV> &X, const Teuchos::RCP<const TV> &Y, const Teuchos::RCP<TV> &Q) {
    const double eps = std::numeric_limits<double>::epsilon() * 100;
    auto x = X->getLocalView<Kokkos::HostSpace>();
    auto y = Y->getLocalView<Kokkos::HostSpace>();
    auto lb = s.lbRcp->getLocalView<Kokkos::HostSpace>();
    auto ub = s.ubRcp->getLocalView<Kokkos::HostSpace>();
    auto q = Q->getLocalView<Kokkos::HostSpace>();
    const int n = x.dimension_0();
    bool outside = false;
    for (int i = 0; i < n; i++) {
        if (x(i, 0) < lb(i, 0) + eps)
            q(i, 0) = y(i, 0) < 0 ? y(i, 0) : 0;
        else if (x(i, 0) > ub(i, 0) - eps)
            q(i, 0) = y(i, 0) > 0 ? y(i, 0) : 0;
        else if (x(i, 0) > lb(i, 0) && x(i, 0) < ub(i, 0))
            q(i, 0) = y(i, 0);
        else
            outside = true;
    }
    if (outside)
        std::exit(1);
    return Q->norm2();
}

// the older solver for complementarity: x >= 0
typedef CPSolver CP;
void cpMake(CP &s, const Teuchos::RCP<const TOP> &A, const Teuchos::RCP<const TV> &b) {
    s.ARcp = A;
    s.bRcp = b;
    s.mapRcp = b->getMap();
    s.commRcp = b->getMap()->getComm();
}
void cpClip(const CP &, Teuchos::RCP<TV> &v) {
    auto x = v->getLocalView<Kokkos::HostSpace>();
    const int m = x.dimension_1(), n = x.dimension_0();
    for (int c = 0; c < m; c++)
        for (int i = 0; i < n; i++)
            if (x(i, c) < 0)
                x(i, c) = 0;
}
void cpMax(const CP &, const Teuchos::RCP<const TV> &X, const Teuchos::RCP<const TV> &Y, const Teuchos::RCP<TV> &Z) {
    auto x = X->getLocalView<Kokkos::HostSpace>();
    auto y = Y->getLocalView<Kokkos::HostSpace>();
    auto z = Z->getLocalView<Kokkos::HostSpace>();
    const int m = x.dimension_1(), n = x.dimension_0();
    for (int c = 0; c < m; c++)
        for (int i = 0; i < n; i++)
            z(i, c) = x(i, c) > y(i, c) ? x(i, c) : y(i, c);
}
void cpMin(const CP &, const Teuchos::RCP<const TV> &X, const Teuchos::RCP<const TV> &Y, const Teuchos::RCP<TV> &Z) {
    auto x = X->getLocalView<Kokkos::HostSpace>();
    auto y = Y->getLocalView<Kokkos::HostSpace>();
    auto z = Z->getLocalView<Kokkos::HostSpace>();
    const int m = x.dimension_1(), n = x.dimension_0();
    for (int c = 0; c < m; c++)
        for (int i = 0; i < n; i++)
            z(i, c) = x(i, c) < y(i, c) ? x(i, c) : y(i, c);
}
// |min(x, A x + b)|
double cpPhi3(const CP &s, const Teuchos::RCP<const TV> &X, const Teuchos::RCP<const TV> &Y, const Teuchos::RCP<TV> &Z) {
    cpMin(s, X, Y, Z);
    return Z->norm2();
}
double cpPhi4(const CP &, const Teuchos::RCP<const TV> &X, const Teuchos::RCP<const TV> &Y, const Teuchos::RCP<const TV> &B, const Teuchos::RCP<TV> &Z) {
    auto x = X->getLocalView<Kokkos::HostSpace>();
    auto y = Y->getLocalView<Kokkos::HostSpace>();
    auto b = B->getLocalView<Kokkos::HostSpace>();
    auto z = Z->getLocalView<Kokkos::HostSpace>();
    const int m = x.dimension_1(), n = x.dimension_0();
    for (int c = 0; c < m; c++)
        for (int i = 0; i < n; i++)
            z(i, c) = std::min(x(i, c), y(i, c) + b(i, c));
    return Z->norm2();
}
void cpH(const CP &, const Teuchos::RCP<const TV> &X, const Teuchos::RCP<const TV> &Y, const Teuchos::RCP<TV> &H, const Teuchos::RCP<TV> &M) {
    auto x = X->getLocalView<Kokkos::HostSpace>();
    auto y = Y->getLocalView<Kokkos::HostSpace>();
    auto h = H->getLocalView<Kokkos::HostSpace>();
    auto k = M->getLocalView<Kokkos::HostSpace>();
    const int m = x.dimension_1(), n = x.dimension_0();
    for (int c = 0; c < m; c++)
        for (int i = 0; i < n; i++) {
            k(i, c) = x(i, c) < y(i, c) ? 1 : 0;
            h(i, c) = x(i, c) < y(i, c) ? x(i, c) : y(i, c);
        }
}
void cpOpMake(CPMatOp &o, Teuchos::RCP<TOP> mob, Teuchos::RCP<TCMAT> Dt) {
    o.mobRcp = mob;
    o.fcTransRcp = Dt;
    o.forceVecRcp = Teuchos::rcp(new TV(mob->getRangeMap(), true));
    o.velVecRcp = Teuchos::rcp(new TV(mob->getRangeMap(), true));
    Tpetra::RowMatrixTransposer<double, int, int> t(Dt);
    o.fcRcp = t.createTranspose();
}
void cpOpApply(const CPMatOp &o, const TMV &X, TMV &Y, Teuchos::ETransp, double, double) {
    const int n = X.getNumVectors();
    for (int c = 0; c < n; c++) {
        auto x = X.getVector(c);
        auto y = Y.getVectorNonConst(c);
        o.fcRcp->apply(*x, *o.forceVecRcp);
        o.mobRcp->apply(*o.forceVecRcp, *o.velVecRcp);
        o.fcTransRcp->apply(*o.velVecRcp, *y);
    }
}
Teuchos::RCP<const TMAP> cpOpMap(const CPMatOp &o) { return o.fcTransRcp->getRangeMap(); }
}
