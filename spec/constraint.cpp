#include "common.hpp"
#include "Constraint/ConstraintCollector.hpp"
#include "Constraint/ConstraintOperator.hpp"
#include "Constraint/ConstraintSolver.hpp"
#include "Trilinos/TpetraUtil.hpp"
#include <omp.h>
namespace spec {
typedef ConstraintCollector CC;

void collectorMake(CC &c) {
    c.constraintPoolPtr = std::make_shared<ConstraintBlockPool>();
    c.constraintPoolPtr->resize(omp_get_max_threads());
}
void collectorClear(CC &c) {
    ConstraintBlockPool &p = *c.constraintPoolPtr;
    for (int i = 0; i < p.size(); i++)
        p[i].clear();
    p.resize(omp_get_max_threads());
}
int collectorCount(CC &c) {
    const ConstraintBlockPool &p = *c.constraintPoolPtr;
    int n = 0;
    for (int i = 0; i < p.size(); i++)
        n += p[i].size();
    return n;
}
// number of blocks of each queue and of all earlier queues
int conIndex(const CC &c, std::vector<int> &size, std::vector<int> &first) {
    const ConstraintBlockPool &p = *c.constraintPoolPtr;
    const int n = p.size();
    size.resize(n);
    first.resize(n + 1);
    for (int i = 0; i < n; i++) {
        size[i] = p[i].size();
        first[i + 1] = first[i] + size[i];
    }
    return 0;
}
// stress of two-sided and of one- or two-body contacts; contacts with boundaries only when asked for
void stress(const CC &c, Emat3 &uni, Emat3 &bi, bool boundary) {
    const ConstraintBlockPool &p = *c.constraintPoolPtr;
    double u[9], b[9];
    for (int k = 0; k < 9; k++)
        u[k] = b[k] = 0;
    for (int q = 0; q < p.size(); q++)
        for (int j = 0; j < p[q].size(); j++) {
            const ConstraintBlock &x = p[q][j];
            for (int k = 0; k < 9; k++) {
                const bool use = boundary || !x.oneSide;
                b[k] += use && x.bilateral ? x.stress[k] : 0;
                u[k] += use && !x.bilateral ? x.stress[k] : 0;
            }
        }
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
            uni(i, j) = u[3 * i + j];
            bi(i, j) = b[3 * i + j];
        }
}
int writeBack(CC &c, const Teuchos::RCP<const TV> &gamma) {
    ConstraintBlockPool &p = *c.constraintPoolPtr;
    auto g = gamma->getLocalView<Kokkos::HostSpace>();
    int first = 0;
    for (int q = 0; q < p.size(); q++) {
        for (int j = 0; j < p[q].size(); j++) {
            const double x = g(first + j, 0);
            p[q][j].gamma = x;
            for (int k = 0; k < 9; k++)
                p[q][j].stress[k] = x * p[q][j].stress[k];
        }
        first += p[q].size();
    }
    return 0;
}

// six entries of a constraint row: direction n, torque arm p x n, of the body at column 6*g
void rowEntries(Kokkos::View<int *> &col, Kokkos::View<double *> &val, int at, int g, const double n[3], const double p[3]) {
    for (int k = 0; k < 6; k++)
        col[at + k] = 6 * g + k;
    for (int k = 0; k < 3; k++)
        val[at + k] = n[k];
    val[at + 3] = p[1] * n[2] - p[2] * n[1];
    val[at + 4] = p[2] * n[0] - p[0] * n[2];
    val[at + 5] = p[0] * n[1] - p[1] * n[0];
}

int matrix(const CC &c, const Teuchos::RCP<const TMAP> &mob, Teuchos::RCP<TCMAT> &D, Teuchos::RCP<TV> &delta0,
           Teuchos::RCP<TV> &invKappa, Teuchos::RCP<TV> &biFlag, Teuchos::RCP<TV> &guess) {
    const ConstraintBlockPool &p = *c.constraintPoolPtr;
    const int n = p.size();
    Teuchos::RCP<const TCOMM> comm = mob->getComm();
    int rows = 0;
    for (int q = 0; q < n; q++)
        rows += p[q].size();
    Teuchos::RCP<const TMAP> rowMap = getTMAPFromLocalSize(rows, comm);
    Kokkos::View<size_t *> ptr("rowPointers", rows + 1);
    int nnz = 0;
    int r = 0;
    ptr[0] = 0;
    for (int q = 0; q < n; q++)
        for (int j = 0; j < p[q].size(); j++) {
            nnz += p[q][j].oneSide ? 6 : 12;
            r++;
            ptr[r] = nnz;
        }
    Kokkos::View<int *> col("columnIndices", nnz);
    Kokkos::View<double *> val("values", nnz);
    int at = 0;
    for (int q = 0; q < n; q++)
        for (int j = 0; j < p[q].size(); j++) {
            const ConstraintBlock &b = p[q][j];
            rowEntries(col, val, at, b.globalIndexI, b.normI, b.posI);
            at += 6;
            if (!b.oneSide) {
                rowEntries(col, val, at, b.globalIndexJ, b.normJ, b.posJ);
                at += 6;
            }
        }
    const int lo = mob->getMinGlobalIndex(), hi = mob->getMaxGlobalIndex();
    std::vector<int> cols(hi - lo + 1);
    for (int i = 0; i < hi - lo + 1; i++)
        cols[i] = lo + i;
    for (int i = 0; i < nnz; i++)
        if (col[i] < lo || col[i] > hi)
            cols.push_back(col[i]);
    std::sort(cols.begin(), cols.end());
    cols.resize(std::unique(cols.begin(), cols.end()) - cols.begin());
    Teuchos::RCP<TMAP> colMap =
        Teuchos::rcp(new TMAP(Teuchos::OrdinalTraits<int>::invalid(), cols.data(), cols.size(), 0, comm));
    for (int i = 0; i < nnz; i++)
        col[i] = colMap->getLocalElement(col[i]);
    D = Teuchos::rcp(new TCMAT(rowMap, colMap, ptr, col, val));
    D->fillComplete(mob, rowMap);
    delta0 = Teuchos::rcp(new TV(rowMap, true));
    invKappa = Teuchos::rcp(new TV(rowMap, true));
    biFlag = Teuchos::rcp(new TV(rowMap, true));
    guess = Teuchos::rcp(new TV(rowMap, true));
    auto d = delta0->getLocalView<Kokkos::HostSpace>();
    auto g = guess->getLocalView<Kokkos::HostSpace>();
    auto k = invKappa->getLocalView<Kokkos::HostSpace>();
    auto f = biFlag->getLocalView<Kokkos::HostSpace>();
    delta0->modify<Kokkos::HostSpace>();
    guess->modify<Kokkos::HostSpace>();
    invKappa->modify<Kokkos::HostSpace>();
    biFlag->modify<Kokkos::HostSpace>();
    int first = 0;
    for (int q = 0; q < n; q++) {
        for (int j = 0; j < p[q].size(); j++) {
            const ConstraintBlock &b = p[q][j];
            d(first + j, 0) = b.delta0;
            g(first + j, 0) = b.gamma;
            if (b.bilateral) {
                k(first + j, 0) = b.kappa > 0 ? 1 / b.kappa : 0;
                f(first + j, 0) = 1;
            }
        }
        first += p[q].size();
    }
    return 0;
}
} // namespace spec
