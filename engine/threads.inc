// Controlled threads, the same in the symbolic run and in the native replay: std::thread runs its function
// synchronously; with thread_order(true) the functions run when the first one is joined, in an order chosen by the
// explorer (every permutation).
namespace sv {
static bool g_nondet_threads = false;
static int g_hw = 3;
void thread_order(bool on) { g_nondet_threads = on; }
void set_hw(int n) { g_hw = n; }
} // namespace sv
struct Pending { std::thread::_State *st; bool done; };
static std::vector<Pending> g_pending;
static unsigned long g_tid = 1;
static long g_sched = 0;
static void runState(std::thread::_State *s)
{
  try { s->_M_run(); }
  catch (...) { std::terminate(); }
}
static void runPending()
{
  std::vector<size_t> left;
  for (size_t i = 0; i < g_pending.size(); i++) if (!g_pending[i].done) left.push_back(i);
  while (!left.empty()) {
    int k = 0;
    if (left.size() > 1) { char nm[32]; snprintf(nm, 32, "sched%ld", g_sched++); k = sv::integer(nm, 0, left.size() - 1); }
    size_t i = left[k];
    left.erase(left.begin() + k);
    g_pending[i].done = true;
    runState(g_pending[i].st);
  }
  for (auto &p : g_pending) delete p.st;
  g_pending.clear();
}
void thread_start_impl(std::thread *t, std::unique_ptr<std::thread::_State> st, void (*)()) asm("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
void thread_start_impl(std::thread *t, std::unique_ptr<std::thread::_State> st, void (*)())
{
  unsigned long v = g_tid++;
  memcpy((void *)t, &v, sizeof v);
  if (sv::g_nondet_threads) { g_pending.push_back({ st.release(), false }); return; }
  runState(st.get());
}
void thread_join_impl(std::thread *t) asm("_ZNSt6thread4joinEv");
void thread_join_impl(std::thread *t)
{
  if (sv::g_nondet_threads) runPending();
  unsigned long v = 0;
  memcpy((void *)t, &v, sizeof v);
}
unsigned thread_hw_impl() asm("_ZNSt6thread20hardware_concurrencyEv");
unsigned thread_hw_impl() { return sv::g_hw; }
