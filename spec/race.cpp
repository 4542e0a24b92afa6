// self-test of the race analysis: every function bad* has a race that must be reported, no function good* has one
#include <Eigen/Core>
#include <algorithm>
#include <deque>
#include <numeric>
#include <vector>
#include <omp.h>
namespace racetest {
struct Item {
    double pos[3];
    int id;
    void move(double d) { pos[0] += d; }
    double len() const { return pos[0] * pos[0] + pos[1] * pos[1]; }
};
struct Sys {
    std::vector<Item> items;
    std::vector<std::deque<int>> pools;
    int count;
    int next() { return count++; }
    int bump(int k) {
        static int last = 0;
        last += k;
        return last;
    }
    void badScalar(int n) {
        double t;
#pragma omp parallel for
        for (int i = 0; i < n; i++) {
            t = items[i].pos[0];
            items[i].pos[1] = t;
        }
    }
    void goodScalar(int n) {
#pragma omp parallel for
        for (int i = 0; i < n; i++) {
            double t = items[i].pos[0];
            items[i].pos[1] = t;
        }
    }
    double badSum(int n) {
        double s = 0;
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            s += items[i].len();
        return s;
    }
    double goodSum(int n) {
        double s = 0;
#pragma omp parallel for reduction(+ : s)
        for (int i = 0; i < n; i++)
            s += items[i].len();
        return s;
    }
    double badOp(int n) {
        double s = 0;
#pragma omp parallel for reduction(* : s)
        for (int i = 0; i < n; i++)
            s += items[i].len();
        return s;
    }
    void badMember(int n) {
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            items[i].id = next();
    }
    void badStatic(int n) {
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            items[i].id = bump(i);
    }
    void badNeighbour(int n) {
#pragma omp parallel for
        for (int i = 1; i < n; i++)
            items[i].pos[0] += items[i - 1].pos[0];
    }
    void goodNeighbourField(int n) {
#pragma omp parallel for
        for (int i = 1; i < n; i++)
            items[i].pos[0] += items[i - 1].pos[1];
    }
    void badScatter(const std::vector<int> &to, int n) {
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            items[to[i]].pos[0] += 1;
    }
    void goodGather(const std::vector<int> &from, std::vector<double> &out, int n) {
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            out[i] = items[from[i]].pos[0];
    }
    void badStride(std::vector<double> &out, int n) {
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            for (int k = 0; k < 4; k++)
                out[3 * i + k] = k;
    }
    void goodStride(std::vector<double> &out, int n, int dim) {
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            for (int k = 0; k < dim; k++)
                out[dim * i + k] = k;
    }
    void badPool(int n) {
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            pools[0].push_back(i);
    }
    void badPool2(int n) {
#pragma omp parallel
        {
            auto &pool = pools[omp_get_thread_num() / 2];
#pragma omp for
            for (int i = 0; i < n; i++)
                pool.push_back(i);
        }
    }
    void goodPool(int n) {
#pragma omp parallel
        {
            auto &pool = pools[omp_get_thread_num()];
#pragma omp for
            for (int i = 0; i < n; i++)
                pool.push_back(i);
        }
    }
    void goodCritical(std::vector<int> &v, int n) {
#pragma omp parallel for
        for (int i = 0; i < n; i++) {
#pragma omp critical
            v.push_back(i);
        }
    }
    void badCritical(std::vector<int> &v, int n) {
#pragma omp parallel for
        for (int i = 0; i < n; i++) {
#pragma omp critical
            v.push_back(i);
            if (v.size() > 10)
                items[i].id = v[0];
        }
    }
    void badEigen(Eigen::Vector3d &sum, int n) {
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            sum += Eigen::Map<Eigen::Vector3d>(items[i].pos);
    }
    void badCapture(int n) {
        Eigen::Vector3d tmp;
        auto f = [&](int i) {
            tmp = Eigen::Map<Eigen::Vector3d>(items[i].pos);
            items[i].pos[0] = tmp.sum();
        };
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            f(i);
    }
    void goodCapture(int n) {
        auto f = [&](int i) {
            Eigen::Vector3d tmp = Eigen::Map<Eigen::Vector3d>(items[i].pos);
            items[i].pos[0] = tmp.sum();
        };
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            f(i);
    }
    void goodSegments(const std::vector<int> &size, std::vector<int> &out, int n) {
        std::vector<int> start(n + 1, 0);
        for (int i = 0; i < n; i++)
            start[i + 1] = start[i] + size[i];
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            for (int k = 0; k < size[i]; k++)
                out[start[i] + k] = i;
    }
    void badSegments(const std::vector<int> &size, std::vector<int> &out, int n) {
        int k = 0;
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            for (int j = 0; j < size[i]; j++)
                out[k++] = i;
    }
    void badSections() {
        int a = 0;
#pragma omp parallel sections
        {
#pragma omp section
            a = 1;
#pragma omp section
            count = a;
        }
    }
    void badNowait(std::vector<double> &v, int n) {
#pragma omp parallel
        {
#pragma omp for nowait
            for (int i = 0; i < n; i++)
                v[i] = i;
#pragma omp for
            for (int i = 0; i < n; i++)
                items[i].pos[0] = v[n - 1 - i];
        }
    }
    void goodPhases(std::vector<double> &v, int n) {
#pragma omp parallel
        {
#pragma omp for
            for (int i = 0; i < n; i++)
                v[i] = i;
#pragma omp for
            for (int i = 0; i < n; i++)
                items[i].pos[0] = v[n - 1 - i];
        }
    }
    double badPrivate(int n) {
        double s = 0;
#pragma omp parallel for private(s)
        for (int i = 0; i < n; i++)
            s += items[i].len();
        return s;
    }
    void goodPrivate(int n) {
        double s;
#pragma omp parallel for private(s)
        for (int i = 0; i < n; i++) {
            s = items[i].len();
            items[i].pos[0] = s;
        }
    }
    void goodDigits(std::vector<double> &x, int n) {
#pragma omp parallel for
        for (int i = 0; i < 3 * n; i++) {
            const int q = i / 3, k = i % 3;
            x[6 * q + k] = 1;
            x[6 * q + k + 3] = 2;
        }
    }
    void badDigits(std::vector<double> &x, int n) {
#pragma omp parallel for
        for (int i = 0; i < 3 * n; i++) {
            const int q = i / 3, k = i % 3;
            x[6 * q + k] = 1;
            x[6 * q + k + 2] = 2;
        }
    }
    void badDigits2(std::vector<double> &x, int n) {
#pragma omp parallel for
        for (int i = 0; i < 4 * n; i++) {
            const int q = i / 4, k = i % 4;
            x[3 * q + k] = 1;
        }
    }
    void badDigits3(std::vector<double> &x, int n) {
#pragma omp parallel for
        for (int i = 0; i < 3 * n; i++)
            x[i / 3] += 1;
    }
    void badBool(std::vector<bool> &v, int n) {
#pragma omp parallel for
        for (int i = 0; i < n; i++)
            v[i] = i > 3;
    }
};
} // namespace racetest
