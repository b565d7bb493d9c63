// Tasks spread over threads.
#include "common.hpp"
#include <atomic>
using namespace slide;
using namespace h;

namespace {
// every task runs exactly once, and run() returns after the last one
void tasks(int n, int workers, int hw, bool order)
{
  sv::set_hw(hw);
  sv::thread_order(order);
  sv::observe("n", n);
  std::vector<std::atomic<int>> done(n + 4);
  std::vector<double> x(n), y(n);
  for (int i = 0; i < n; i++) x[i] = realn(nm("x", i), -5, 5);
  run([&](int i) {
    sv::check(i >= 0 && i < n, "only tasks that exist run");
    if (i < 0 || i >= n) return;
    done[i]++;
    y[i] = 2 * x[i] + i;
  },
      n, workers);
  for (int i = 0; i < n; i++) {
    sv::check(done[i] == 1, "every task runs exactly once before run returns");
    sv::check_eq(y[i], 2 * x[i] + i, "every task has its own result");
  }
}
} // namespace

HARNESS(run_order, "threads run in every order")
{
  tasks(sv::integer("n", 0, sv::param("n", 5)), sv::integer("workers", 0, sv::param("workers", 4)), sv::integer("hw", 0, sv::param("hw", 4)), true);
}
HARNESS(run_many, "more workers, processors and tasks")
{
  const int w[] = { 0, 1, 5, 31, 33, 1000 }, p[] = { 0, 1, 2, 7, 64 }, n[] = { 1, 31, 32, 33, 100 };
  tasks(n[sv::integer("n", 0, 4)], w[sv::integer("w", 0, 5)], p[sv::integer("p", 0, 4)], false);
}
HARNESS(run_default, "the number of workers is optional")
{
  const int n = sv::integer("n", 0, 40), hw = sv::integer("hw", 0, 40);
  sv::set_hw(hw);
  sv::observe("n", n);
  std::vector<std::atomic<int>> done(n + 1);
  run([&](int i) { done[i]++; }, n);
  for (int i = 0; i < n; i++) sv::check(done[i] == 1, "every task runs exactly once before run returns");
}
