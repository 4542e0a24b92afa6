// helper of the demonstrations: a complete simulator on a small configuration in the current (scratch) folder
#include "Sylinder/SylinderSystem.hpp"
#include <cstdio>
#include <fstream>
#include <iostream>
static int demoFail = 0;
#define NEED(cond) do { if (!(cond)) { printf("FAILED line %d: %s\n", __LINE__, #cond); demoFail = 1; } } while (0)
#define CLOSE(a, b) NEED(std::abs((a) - (b)) <= 1e-8 * (1 + std::abs(b)))
static void writeText(const std::string &name, const std::string &text) { std::ofstream f(name); f << text; }
static const char *const BASE =
    "rngSeed: 1234\nlogLevel: 5\nsimBoxLow: [0, 0, 0]\nsimBoxHigh: [20, 20, 20]\nsimBoxPBC: [false, false, false]\n"
    "viscosity: 0.01\nsylinderNumber: 0\nsylinderLength: 1.0\nsylinderLengthSigma: -1\n"
    "sylinderDiameter: 0.5\nsylinderColBuf: 0.3\ndt: 0.001\ntimeTotal: 0.01\nconResTol: 1e-8\n"
    "conMaxIte: 1000\nconSolverChoice: 0\ninitPreSteps: 0\n";
static void setUp(int argc, char **argv) { MPI_Init(&argc, &argv); PS::Initialize(argc, argv); Logger::setup_mpi_spdlog(); }
static void tearDown() {
    fflush(stdout);
    int all = 0;
    MPI_Allreduce(&demoFail, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    MPI_Barrier(MPI_COMM_WORLD);
    if (!all) { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); if (!r) printf("demonstration: fine\n"); fflush(stdout); }
    MPI_Finalize();
    _exit(all);
}
