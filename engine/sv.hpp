// Harness API.  The same harness source is compiled twice: with SymPass (symbolic run) and without it (native replay).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <functional>

namespace sv {
// --- inputs -------------------------------------------------------------------------------------------------------
double real(const char *name, double lo, double hi); // any real number in [lo, hi]
int integer(const char *name, int lo, int hi);       // any integer in [lo, hi]; every value is its own path
inline bool boolean(const char *name) { return integer(name, 0, 1) != 0; }
bool symbolic(); // true in the symbolic run, false in the native replay
// --- assumptions (stated bounds) ------------------------------------------------------------------------------------
void assume(bool c);
void assume_le(double a, double b);
void assume_lt(double a, double b);
// --- obligations ----------------------------------------------------------------------------------------------------
void check(bool c, const char *label);                                    // concrete on each path
void check_eq(double a, double b, const char *label, double tol = 1e-9);  // |a-b| <= tol for every input of the path
void check_le(double a, double b, const char *label, double tol = 1e-9);  // a <= b + tol
void check_same(double a, double b, const char *label);                   // a is b, no tolerance
void check_pos(double a, const char *label);                              // a > 0 strictly
void fail(const char *label);                                             // reaching this point is a violation
// --- misc -----------------------------------------------------------------------------------------------------------
void observe(const char *name, double v); // compared between the symbolic run and the native run
double split(double v);                   // case split on the sign of v (v<0, v==0, v>0); returns v
void fptoint_overflow_is_violation(bool on);
void thread_order(bool nondeterministic); // symbolic run: threads are executed at join, in every order
void set_hw(int n);                       // what std::thread::hardware_concurrency() reports
bool is_symbolic(double v);
void set_mode_fp(bool on);                // bit-exact IEEE encoding instead of real arithmetic
void note(const char *what);
[[noreturn]] void stop();                 // end this path quietly (after the last obligation)
void private_files();                     // every path works on its own copy of the working directory (the harness writes files)
double number(const char *s, char **end); // strtod for text that the code under test printed (symbolic values are printed as handles)
const char *scratch();                    // private scratch directory of this run
int param(const char *name, int dflt);    // tier dependent bound (--param name=value)

struct Reg
{
  Reg(const char *name, void (*f)(), const char *what);
};
} // namespace sv

#define HARNESS(name, what)                      \
  static void harness_##name();                  \
  static sv::Reg reg_##name(#name, harness_##name, what); \
  static void harness_##name()
