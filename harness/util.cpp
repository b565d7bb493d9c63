// Curves, histograms and tables.
#include "common.hpp"
#include "types/data_storage/cell_data.hpp"
#include <fstream>
#include <sstream>
using namespace slide;
using namespace h;

namespace {
struct Table
{
  std::vector<double> x, y;
};
// the value of the piecewise linear curve through the points of a table, checked without dividing
void onCurve(const Table &t, double x, double y, const char *l)
{
  const size_t n = t.x.size();
  if (x <= t.x[0]) return sv::check_eq(y, t.y[0], l);
  if (x >= t.x[n - 1]) return sv::check_eq(y, t.y[n - 1], l);
  size_t i = 1;
  while (t.x[i] < x) i++;
  const double dx = t.x[i] - t.x[i - 1];
  sv::check_eq((y - t.y[i - 1]) * dx, (t.y[i] - t.y[i - 1]) * (x - t.x[i - 1]), l);
}
template <typename XY>
void lookup(XY &d, const Table &t, double x, bool bound)
{
  const size_t n = t.x.size();
  bool thrown = false;
  double y = 0;
  try {
    y = d.interp(x, false, bound);
  } catch (int e) {
    sv::check(e == 1, "out of range throws 1");
    thrown = true;
  }
  const bool outside = x < t.x[0] || x > t.x[n - 1];
  sv::check(thrown == (bound && outside), "a value is refused exactly when it is out of range and the range is binding");
  if (!thrown) onCurve(t, x, y, "the value lies on the line between the neighbouring points");
}
Table table(int n, double lo, double hi)
{
  Table t;
  double x = sv::real("x0", -10, 10);
  for (int i = 0; i < n; i++) {
    t.x.push_back(x);
    t.y.push_back(realn(nm("y", i), -5, 5));
    x += realn(nm("gap", i), lo, hi);
  }
  return t;
}
} // namespace

HARNESS(interp_any, "any table with up to 4 points")
{
  const int n = sv::integer("n", 1, sv::param("points", 4));
  auto t = table(n, 0.1, 5);
  XYdata_vv d;
  d.x = t.x, d.y = t.y;
  if (sv::boolean("check_fixed")) d.check_is_fixed();
  lookup(d, t, sv::real("x", -40, 40), sv::boolean("bound"));
}
HARNESS(interp_near, "tables whose steps differ by less than the tolerance of equal steps")
{
  const int n = sv::integer("n", 2, sv::param("near", 6));
  Table t;
  double x = 0;
  for (int i = 0; i < n; i++) {
    t.x.push_back(x), t.y.push_back(realn(nm("y", i), -5, 5));
    x += i ? 1 + 0.0099 * realn(nm("e", i), -1, 1) : 1;
  }
  XYdata_ss d;
  d.x = t.x, d.y = t.y;
  d.check_is_fixed();
  lookup(d, t, sv::real("x", -1, 8), sv::boolean("bound"));
}
HARNESS(interp_long, "a long table whose steps are nearly equal")
{
  const int n = 150;
  const bool up = sv::boolean("up");
  Table t;
  double x = 0;
  for (int i = 0; i < n; i++) {
    t.x.push_back(x), t.y.push_back((i * i) % 17 - 5 + 0.1 * i);
    x += i ? up ? 1.009 : 0.991 : 1;
  }
  XYdata_vv d(t.x, t.y);
  const bool far = sv::boolean("far");
  lookup(d, t, sv::real("x", far ? 130 : -1, far ? 155 : 12), true);
}
HARNESS(interp_fixed, "curves given by formula: equidistant x and y")
{
  const int n = sv::integer("n", 1, 5);
  const double x0 = sv::real("x0", -5, 5), x1 = x0 + sv::real("dx", 0.5, 5), y0 = sv::real("y0", -5, 5), y1 = sv::real("y1", -5, 5);
  XYdata_ff d;
  d.x = linspace_fix(x0, x1, n), d.y = linspace_fix(y0, y1, n);
  if (sv::boolean("check_fixed")) d.check_is_fixed();
  Table t;
  for (int i = 0; i < n; i++) t.x.push_back(d.x[i]), t.y.push_back(d.y[i]);
  lookup(d, t, sv::real("x", -8, 13), sv::boolean("bound"));
}
HARNESS(interp_cells, "the curves of the cells, over their whole range")
{
  Cell_SPM c;
  auto &k = c.OCV_curves;
  XYdata_ss *d[] = { &k.OCV_neg, &k.OCV_pos, &k.dOCV_neg, &k.dOCV_tot };
  auto &q = *d[sv::integer("curve", 0, 3)];
  Table t{ { q.x.begin(), q.x.end() }, { q.y.begin(), q.y.end() } };
  sv::check(t.x.size() == t.y.size() && !t.x.empty(), "a curve has as many values as points");
  for (size_t i = 1; i < t.x.size(); i++) sv::check(t.x[i - 1] < t.x[i], "the points of a curve increase");
  lookup(q, t, sv::real("x", -0.1, 1.1), sv::boolean("bound"));
}
HARNESS(spaces, "linearly spaced points")
{
  const int n = sv::integer("n", 0, 6);
  const double a = sv::real("a", -10, 10), b = sv::real("b", -10, 10);
  auto v = linspace(a, b, n);
  auto f = linspace_fix(a, b, n);
  sv::check((int)v.size() == n && (int)f.size() == n, "as many points as asked for");
  auto arr = linspace<5>(a, b);
  if (n == 5)
    for (int i = 0; i < 5; i++) sv::check_eq(arr[i], v[i], "all ways to space points agree");
  for (int i = 0; i < n; i++) {
    sv::check_eq(v[i], f[i], "all ways to space points agree");
    sv::check_eq((b - v[i]) * (n > 1 ? n - 1 : 1), (b - a) * (n - 1 - i), "points are equally spaced, from the first to the last");
  }
  int k = 0;
  for (auto it = f.begin(); it != f.end(); ++it, ++k) sv::check_same(*it, f[k], "iterating visits every point in order");
  sv::check(k == n, "iterating visits every point in order");
  if (n) {
    sv::check_same(f.back(), f[n - 1], "back is the last point");
    sv::check_same(f.front(), f[0], "front is the first point");
    const double p = sv::real("p", -10, 10);
    sv::check_eq(f.next(p) - p, f.dstep(), "next is one step up");
    sv::check_eq(p - f.prev(p), f.dstep(), "prev is one step down");
    sv::check_same(f.front(), f[0], "looking at neighbours changes nothing");
  }
  f.clear();
  sv::check(f.size() == 0, "clear removes all points");
}
HARNESS(ranges, "points at a given step")
{
  const double a = sv::real("a", -10, 10), w = sv::real("w", 0, 7), s = sv::integer("step", 1, 3);
  auto r = range_fix(a, a + w, s);
  const int n = r.size();
  sv::check(n >= 1, "a range has its first point");
  sv::check_eq(r[0], a, "a range has its first point");
  sv::check_le(r[n - 1], a + w, "a range stays in its limits");
  sv::check_le(a + w, r[n - 1] + s, "a range has every point in its limits");
  const int m = sv::integer("m", 1, 4);
  auto l = linstep_fix(a, w, m);
  auto g = logstep_fix(a, 2, m);
  sv::check((int)l.size() == m && (int)g.size() == m, "as many points as asked for");
  for (int i = 0; i < m; i++) {
    sv::check_eq(l[i], a + i * w, "linear steps add");
    sv::check_eq(g[i], a * (1 << i), "logarithmic steps multiply");
  }
}

// histograms ---------------------------------------------------------------------------------------------------------
HARNESS(hist_count, "any values, up to and beyond the range of integers")
{
  sv::fptoint_overflow_is_violation(true);
  const int n = sv::integer("bins", 1, sv::param("bins", 3)), k = sv::integer("values", 0, sv::param("values", 2));
  const double lo = sv::real("lo", -10, 10), w = sv::real("bin", 0.1, 5);
  Histogram<> hst(lo, lo + n * w, n);
  std::vector<size_t> want(n + 2);
  for (int i = 0; i < k; i++) {
    const double x = realn(nm("x", i), sv::integer(nm("big", i).c_str(), 0, 1) ? -1e12 : -100, 1e12);
    hst.add(x);
    int b = 0;
    while (b < n + 1 && x >= lo + b * w) b++;
    want[b]++;
  }
  const auto got = hst.viewBinValues();
  sv::check((int)hst.size() == n + 2, "a histogram has a bin for each interval and one at each side");
  for (int i = 0; i < n + 2; i++) sv::check(got[i] == want[i], "every value is counted in the bin it belongs to");
}
HARNESS(hist_edges, "the edges of the bins")
{
  const int n = sv::integer("bins", 1, 6);
  const double lo = sv::real("lo", -10, 10), hi = lo + sv::real("width", 0.1, 20);
  Histogram<> hst(lo, hi, n);
  auto e = hst.getEdgeValues();
  sv::check((int)e.size() == n + 1, "one edge more than bins");
  for (int i = 0; i <= n; i++) sv::check_eq((e[i] - lo) * n, (hi - lo) * i, "the edges divide the range equally");
  for (int m = 2; m < 130; m++) { // rounding in the width of the bins must not lose an edge
    Histogram<> r(-0.1 * m, 1.7 + 0.3 * m, m);
    sv::check((int)r.getEdgeValues().size() == m + 1, "one edge more than bins");
  }
}
HARNESS(hist_empty, "a histogram without bins")
{
  Histogram<> hst;
  const double x = sv::real("x", -1e3, 1e3);
  hst.add(x);
  sv::check(hst.size() == 0, "a histogram without bins stays empty");
}
HARNESS(hist_print, "printing")
{
  const int n = sv::integer("bins", 1, 3);
  const double lo = sv::real("lo", -10, 10), w = sv::real("bin", 0.1, 5);
  Histogram<> hst(lo, lo + n * w, n);
  hst.add(sv::real("x", -20, 40));
  std::ostringstream o;
  o << hst;
  std::istringstream in(o.str());
  std::string l;
  std::getline(in, l);
  sv::check(l == "Edges:", "edges first");
  std::getline(in, l);
  const char *s = l.c_str();
  for (int i = 0; i <= n; i++) {
    char *e = nullptr;
    const double v = sv::number(s, &e);
    sv::check(e != s && *e == ',', "every edge is printed");
    sv::check_le(std::abs(v - (lo + i * w)) * 1e-2, 1e-5, "every edge is printed");
    s = e + 1;
  }
  sv::check(!*s, "every edge is printed once");
  std::getline(in, l);
  sv::check(l == "Bins:", "bins after the edges");
  std::getline(in, l);
  std::string want;
  for (auto b : hst.viewBinValues()) want += std::to_string(b) + ",";
  sv::check(l == want, "every bin is printed");
}

// tables -------------------------------------------------------------------------------------------------------------
namespace {
constexpr const char *F = "table.csv";
double cell(int i, int j) { return realn(nm("v", i) + nm("_", j), -10, 10); }
struct Style
{
  bool bom, newline, crlf, blank;
};
Style style() // as different programs write files
{
  const Style s[] = { { false, true, false, false }, { false, false, false, false }, { true, true, true, false }, { false, true, false, true }, { true, false, false, false } };
  return s[sv::integer("style", 0, 4)];
}
std::vector<std::vector<double>> file(int rows, int cols, const Style &s)
{
  std::vector<std::vector<double>> m(rows, std::vector<double>(cols));
  std::ofstream o(F, std::ios::binary);
  if (s.bom) o << "\xEF\xBB\xBF";
  const char *nl = s.crlf ? "\r\n" : "\n";
  for (int i = 0; i < rows; i++) {
    for (int j = 0; j < cols; j++) {
      m[i][j] = cell(i, j);
      if (j) o << ',';
      o << m[i][j];
    }
    if (i + 1 < rows || s.newline) o << nl;
  }
  if (s.newline && s.blank) o << nl;
  return m;
}
void near(double a, double b, const char *l) { sv::check_le(std::abs(a - b) * 1e-2, 1e-6, l, 0); } // six digits are written
template <typename Fn>
void missing(Fn f)
{
  int code = 0;
  try {
    f("no_such_file.csv");
  } catch (int e) {
    code = e;
  }
  sv::check(code == 2, "a file that cannot be opened throws 2");
}
} // namespace

HARNESS(csv_2col, "two columns into vectors, arrays and views")
{
  sv::private_files();
  const int rows = sv::integer("rows", 0, 4), n = sv::integer("n", 0, 6), kind = sv::integer("kind", 0, 2);
  const auto s = style();
  const auto m = file(rows, 2, s);
  const int want = n == 0 ? rows : std::min(n, rows);
  auto equal = [&](auto &x, auto &y, int k) {
    for (int i = 0; i < k; i++) near(x[i], m[i][0], "the first column is x"), near(y[i], m[i][1], "the second column is y");
  };
  if (kind == 0) {
    std::vector<double> x(3, 7), y(2, 7);
    loadCSV_2col(std::string(F), x, y, n);
    sv::check((int)x.size() == want && (int)y.size() == want, "as many rows as the file has, or as asked for");
    equal(x, y, want);
    missing([&](const char *f) { loadCSV_2col(std::string(f), x, y); });
  } else if (kind == 1) {
    struct
    {
      std::array<double, 3> x{ 7, 7, 7 };
      double guard1 = 7;
      std::array<double, 3> y{ 7, 7, 7 };
      double guard2 = 7;
    } b;
    loadCSV_2col(std::string(F), b.x, b.y, n);
    const int k = std::min(want, 3);
    equal(b.x, b.y, k);
    for (int i = k; i < 3; i++) sv::check(b.x[i] == 7 || b.x[i] == 0, "entries without data are not invented");
    sv::check(b.guard1 == 7 && b.guard2 == 7, "nothing is written beyond an array");
    missing([&](const char *f) { loadCSV_2col(std::string(f), b.x, b.y); });
  } else {
    std::span<double> x, y;
    const auto path = std::filesystem::current_path() / F;
    loadCSV_2col(path, x, y, n);
    sv::check((int)x.size() == want && (int)y.size() == want, "a view has as many rows as the file has, or as asked for");
    equal(x, y, want);
    std::span<double> x2, y2;
    loadCSV_2col(path, x2, y2, n);
    sv::check(x2.size() == x.size() && y2.size() == y.size(), "the same file gives the same data");
    equal(x2, y2, want);
    missing([&](const char *f) { loadCSV_2col(std::filesystem::path(f), x, y); });
  }
}
HARNESS(csv_xy, "a curve from a file")
{
  sv::private_files();
  const int rows = sv::integer("rows", 0, 4);
  const auto m = file(rows, 2, style());
  XYdata_vv d;
  d.setCurve(std::string(F));
  sv::check((int)d.size() == rows && (int)d.x.size() == rows, "a curve has the points of the file");
  for (int i = 0; i < rows; i++) near(d.x[i], m[i][0], "a curve has the points of the file"), near(d.y[i], m[i][1], "a curve has the points of the file");
}
HARNESS(csv_mat, "matrices")
{
  sv::private_files();
  const int kind = sv::integer("kind", 0, 2), rows = sv::integer("rows", 0, 1) ? 3 : 0;
  const auto m = file(rows, kind + 1, style());
  auto run = [&](auto &x) {
    loadCSV_mat(std::string(F), x);
    for (int i = 0; i < rows; i++)
      for (int j = 0; j <= kind; j++) near(x[i][j], m[i][j], "rows and columns of the file are those of the matrix");
    missing([&](const char *f) { loadCSV_mat(std::string(f), x); });
  };
  if (kind == 0) {
    Matrix<double, 3, 1> x{};
    run(x);
    std::array<double, 3> c{};
    loadCSV_1col(std::string(F), c);
    for (int i = 0; i < rows; i++) near(c[i], m[i][0], "a column of the file");
  } else if (kind == 1) {
    Matrix<double, 3, 2> x{};
    run(x);
  } else {
    Matrix<double, 3, 3> x{};
    run(x);
  }
}
HARNESS(csv_ncol, "tables of any width")
{
  sv::private_files();
  const int rows = sv::integer("rows", 0, 3), cols = sv::integer("cols", 1, 3), n = sv::integer("n", 0, 4);
  const auto m = file(rows, cols, style());
  DynamicMatrix<double> x(2, 2, 7);
  loadCSV_Ncol(std::string(F), x, n);
  const int want = n == 0 ? rows : std::min(n, rows);
  sv::check((int)x.data.size() == want * cols, "every number is read once");
  if (want) {
    sv::check(x.rows() == cols && x.cols() == want, "the shape is that of the file");
    for (int i = 0; i < want; i++)
      for (int j = 0; j < cols; j++) near(x(j, i), m[i][j], "entry (column, row) is that of the file");
  } else sv::check(x.size() == 0, "a table without data is empty");
  missing([&](const char *f) { loadCSV_Ncol(std::string(f), x); });
}
HARNESS(matrices, "matrix and array helpers")
{
  const double k = sv::real("k", -5, 5);
  auto e = eye<2, 3>(k);
  auto o = ones<2, 3>(k);
  auto z = zeros<2, 3>();
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 2; j++) {
      sv::check_same(e[i][j], i == j ? k : 0, "a scaled identity");
      sv::check_same(o[i][j], k, "all entries the same");
      sv::check_same(z[i][j], 0, "all entries zero");
    }
  DynamicMatrix<double> d(2, 3);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 3; j++) d(i, j) = realn(nm("d", i) + nm("_", j), -5, 5);
  const auto &c = d;
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 3; j++) sv::check_same(c(i, j), realn(nm("e", i) + nm("_", j), 0, 0) + d(i, j), "entries are kept apart");
  std::array<double, 3> a, b;
  for (int i = 0; i < 3; i++) a[i] = realn(nm("a", i), -5, 5), b[i] = realn(nm("b", i), -5, 5);
  const double p = sv::real("p", -5, 5), q = sv::real("q", -5, 5);
  const auto s = arrSum(a, b, p, q), t = a + b, u = a - b;
  for (int i = 0; i < 3; i++) {
    sv::check_eq(s[i], p * a[i] + q * b[i], "weighted sum");
    sv::check_eq(t[i], a[i] + b[i], "sum");
    sv::check_eq(u[i], a[i] - b[i], "difference");
  }
}
HARNESS(cholesky, "rank one updates of a Cholesky factor")
{
  const bool down = sv::boolean("down");
  Matrix<double, 2, 2> L{}, L0;
  L[0][0] = sv::real("a", 1, 3), L[1][0] = sv::real("b", -1, 1), L[1][1] = sv::real("c", 1, 3);
  L0 = L;
  std::array<double, 2> x{ sv::real("x", -0.3, 0.3), sv::real("y", -0.3, 0.3) };
  cholUpdate<2>(L, x, down);
  const double s = down ? -1 : 1;
  auto prod = [](const Matrix<double, 2, 2> &l, int i, int j) {
    double r = 0;
    for (int k = 0; k <= std::min(i, j); k++) r += l[i][k] * l[j][k];
    return r;
  };
  sv::check_eq(prod(L, 0, 0), prod(L0, 0, 0) + s * x[0] * x[0], "the factor of the updated matrix", 1e-7);
  sv::check_eq(prod(L, 1, 0), prod(L0, 1, 0) + s * x[0] * x[1], "the factor of the updated matrix", 1e-7);
  sv::check_eq(prod(L, 1, 1), prod(L0, 1, 1) + s * x[1] * x[1], "the factor of the updated matrix", 1e-7);
}
