// self-test of the collective analysis: in every function bad* some ranks may skip a collective call, in no function good*
#include <cstdlib>
#include <memory>
#include <mpi.h>
#include <vector>
namespace colltest {
struct Sys {
    int rank = 0;
    int nLocal = 0;
    int steps = 0;
    bool verbose = false;
    std::vector<double> data;
    std::shared_ptr<int> buf;
    void init() { MPI_Comm_rank(MPI_COMM_WORLD, &rank); }
    int first() const { return rank == 0 ? 1 : 0; }
    void sync() { MPI_Barrier(MPI_COMM_WORLD); }
    void fill() {
        int r;
        MPI_Comm_rank(MPI_COMM_WORLD, &r);
        data.resize(r + 1);
        nLocal = data.size();
    }
    double total(double x) {
        double y = 0;
        MPI_Allreduce(&x, &y, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        return y;
    }
    void badRank() {
        if (rank == 0)
            MPI_Barrier(MPI_COMM_WORLD);
    }
    void badRankCall() {
        if (first())
            sync();
    }
    void goodRank() {
        if (rank == 0)
            steps++;
        MPI_Barrier(MPI_COMM_WORLD);
    }
    void badReturn() {
        if (data.empty())
            return;
        sync();
    }
    void badReturn2() {
        if (verbose) {
            if (nLocal == 0)
                return;
        }
        total(1);
    }
    void goodReturn() {
        if (verbose)
            return;
        sync();
    }
    void badLoop() {
        for (int i = 0; i < nLocal; i++)
            total(data[i]);
    }
    void goodLoop() {
        for (int i = 0; i < 3; i++)
            total(i);
    }
    double badConverge() {
        double res = 1;
        for (int k = 0; k < 100; k++) {
            res = 0;
            for (auto &x : data)
                res += x * x;
            double all = total(res);
            if (res < 1e-5)
                break;
        }
        return res;
    }
    double goodConverge() {
        double all = 1;
        for (int k = 0; k < 100; k++) {
            double res = 0;
            for (auto &x : data)
                res += x * x;
            all = total(res);
            if (all < 1e-5)
                break;
        }
        return all;
    }
    void badFlag() {
        bool some = false;
        for (auto &x : data)
            if (x > 0)
                some = true;
        if (some)
            sync();
    }
    void goodFlag() {
        int some = 0;
        for (auto &x : data)
            if (x > 0)
                some = 1;
        MPI_Allreduce(MPI_IN_PLACE, &some, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        if (some)
            sync();
    }
    void goodBoth(std::vector<double> &all) {
        if (rank == 0) {
            all.resize(100);
            MPI_Gather(data.data(), 1, MPI_DOUBLE, all.data(), 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
        } else {
            MPI_Gather(data.data(), 1, MPI_DOUBLE, nullptr, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
        }
    }
    void badOrder() {
        double x = 1;
        if (rank == 0) {
            MPI_Bcast(&x, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
            MPI_Barrier(MPI_COMM_WORLD);
        } else {
            MPI_Barrier(MPI_COMM_WORLD);
            MPI_Bcast(&x, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
        }
    }
    void goodBcast() {
        int n = 0;
        if (rank == 0)
            n = data.size();
        MPI_Bcast(&n, 1, MPI_INT, 0, MPI_COMM_WORLD);
        for (int i = 0; i < n; i++)
            sync();
    }
    void badShort() {
        if (verbose && data.size() > 2 && total(1) > 0)
            steps++;
    }
    void badLambda() {
        auto f = [&]() { sync(); };
        if (rank)
            f();
    }
    void goodLambda() {
        auto f = [&](double x) { return total(x); };
        if (f(data[0]) > 1)
            f(2);
    }
    void goodNull() {
        if (!buf) {
            buf = std::make_shared<int>(data.size());
            sync();
        }
    }
    void badSwap() {
        int n = nLocal;
        while (n > 1) {
            sync();
            n /= 2;
        }
    }
    void goodAbort() {
        if (data.size() > 1000000)
            std::exit(1);
        sync();
    }
};
} // namespace colltest
