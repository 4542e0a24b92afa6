#include "common.hpp"
#include "Constraint/BCQPSolver.hpp"
#include "Constraint/ConstraintCollector.hpp"
#include "Constraint/ConstraintOperator.hpp"
#include "Constraint/ConstraintSolver.hpp"
#include "Trilinos/TpetraUtil.hpp"
#include <limits>
namespace spec {
typedef ConstraintOperator CO;
typedef ConstraintSolver CS;

void opMake(CO &o, Teuchos::RCP<TOP> &mob, Teuchos::RCP<TCMAT> &Dt, Teuchos::RCP<TV> &invKappa) {
    o.mobOpRcp = mob;
    o.DMatTransRcp = Dt;
    o.invKappa = invKappa;
    o.commRcp = mob->getDomainMap()->getComm();
    Tpetra::RowMatrixTransposer<double, int, int> t(Dt);
    o.DMatRcp = t.createTranspose();
    o.mobMapRcp = mob->getDomainMap();
    o.gammaMapRcp = invKappa->getMap();
    o.forceRcp = Teuchos::rcp(new TV(o.mobMapRcp, true));
    o.velRcp = Teuchos::rcp(new TV(o.mobMapRcp, true));
}

// Y = beta Y + alpha (D^T M D + K^-1) X; force = D X and vel = M force stay available
void opApply(const CO &o, const TMV &X, TMV &Y, Teuchos::ETransp, double alpha, double beta) {
    const int n = X.getNumVectors();
    for (int c = 0; c < n; c++) {
        auto x = X.getVector(c);
        auto y = Y.getVectorNonConst(c);
        o.DMatRcp->apply(*x, *o.forceRcp);
        o.mobOpRcp->apply(*o.forceRcp, *o.velRcp);
        o.DMatTransRcp->apply(*o.velRcp, *y, Teuchos::NO_TRANS, alpha, beta);
        y->elementWiseMultiply(alpha, *x, *o.invKappa, 1.0);
    }
}
Teuchos::RCP<const TMAP> opMap(const CO &o) { return o.gammaMapRcp; }

void solverReset(CS &s) {
    s.res = 1e-5;
    s.maxIte = 1000000;
    s.solverChoice = 0;
    s.mobMapRcp = Teuchos::null;
    s.mobOpRcp = Teuchos::null;
    s.forceuRcp = Teuchos::null;
    s.forcebRcp = Teuchos::null;
    s.veluRcp = Teuchos::null;
    s.velbRcp = Teuchos::null;
    s.velncRcp = Teuchos::null;
    s.DMatTransRcp = Teuchos::null;
    s.invKappaRcp = Teuchos::null;
    s.biFlagRcp = Teuchos::null;
    s.delta0Rcp = Teuchos::null;
    s.deltancRcp = Teuchos::null;
    s.MOpRcp = Teuchos::null;
    s.gammaRcp = Teuchos::null;
    s.qRcp = Teuchos::null;
}
void solverControl(CS &s, double res, int ite, int choice) {
    s.res = res;
    s.maxIte = ite;
    s.solverChoice = choice;
}

void solverSetup(CS &s, ConstraintCollector &con, Teuchos::RCP<TOP> &mob, Teuchos::RCP<TV> &velnc, double dt) {
    solverReset(s);
    s.conCollector = con;
    s.dt = dt;
    s.mobOpRcp = mob;
    s.velncRcp = velnc;
    s.mobMapRcp = mob->getDomainMap();
    s.conCollector.buildConstraintMatrixVector(s.mobMapRcp, s.DMatTransRcp, s.delta0Rcp, s.invKappaRcp, s.biFlagRcp, s.gammaRcp);
    s.delta0Rcp->scale(1 / dt);
    s.invKappaRcp->scale(1 / dt);
    s.deltancRcp = Teuchos::rcp(new TV(s.delta0Rcp->getMap(), true));
    s.DMatTransRcp->apply(*velnc, *s.deltancRcp);
    s.MOpRcp = Teuchos::rcp(new ConstraintOperator(s.mobOpRcp, s.DMatTransRcp, s.invKappaRcp));
    s.qRcp = Teuchos::rcp(new TV(s.delta0Rcp->getMap(), true));
    s.qRcp->update(1, *s.delta0Rcp, 1, *s.deltancRcp, 0);
    s.forcebRcp = Teuchos::rcp(new TV(s.mobMapRcp, true));
    s.forceuRcp = Teuchos::rcp(new TV(s.mobMapRcp, true));
    s.velbRcp = Teuchos::rcp(new TV(s.mobMapRcp, true));
    s.veluRcp = Teuchos::rcp(new TV(s.mobMapRcp, true));
}

// min 1/2 g (D^T M D + K^-1) g + q g with g >= 0 where one-sided, g >= -1e8 where two-sided
void solverSolve(CS &s) {
    BCQPSolver q(s.MOpRcp, s.qRcp);
    Teuchos::RCP<TV> lb = q.getLowerBound();
    lb->scale(-1e8, *s.biFlagRcp);
    IteHistory h;
    if (s.solverChoice == 1)
        q.solveAPGD(s.gammaRcp, s.res, s.maxIte, h);
    else
        q.solveBBPGD(s.gammaRcp, s.res, s.maxIte, h);
    // forces and velocities of the solution; the two-sided part separately, the rest is one-sided
    TV g(*s.gammaRcp, Teuchos::Copy), f(s.gammaRcp->getMap(), true);
    Teuchos::RCP<TCMAT> D = s.MOpRcp->getDMat();
    TV y(s.gammaRcp->getMap(), true);
    s.MOpRcp->apply(*s.gammaRcp, y);
    f.elementWiseMultiply(1, g, *s.biFlagRcp, 0);
    D->apply(f, *s.forcebRcp);
    s.mobOpRcp->apply(*s.forcebRcp, *s.velbRcp);
    s.forceuRcp->update(1, *s.MOpRcp->getForce(), -1, *s.forcebRcp, 0);
    s.veluRcp->update(1, *s.MOpRcp->getVel(), -1, *s.velbRcp, 0);
}
void solverWriteBack(CS &s) { s.conCollector.writeBackGamma(s.gammaRcp); }
Teuchos::RCP<const TV> forceUni(const CS &s) { return s.forceuRcp; }
Teuchos::RCP<const TV> velUni(const CS &s) { return s.veluRcp; }
Teuchos::RCP<const TV> forceBi(const CS &s) { return s.forcebRcp; }
Teuchos::RCP<const TV> velBi(const CS &s) { return s.velbRcp; }
} // namespace spec
