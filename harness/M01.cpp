// M01: matrix containers.
#include "mc.hpp"
#ifdef VAR_COPY
#include "compact2dmat.hpp"
#define SFX "-var"
#else
#include "cmat2d.hpp"
#define SFX ""
#endif
#include <new>
#include <utility>
using dso::Mat2D;
using dso::MatrixStorageType;
namespace {
template <MatrixStorageType S> bool legal(int i, int j) { return S != MatrixStorageType::Trapezoid || j <= i; }
template <MatrixStorageType S> const char *nm() { return S == MatrixStorageType::RowWise ? "row-wise" : S == MatrixStorageType::ColumnWise ? "column-wise" : "trapezoid"; }

template <MatrixStorageType S> void layout(mc::Ctx &c) {
  int mx = c.thorough() ? 9 : 6;
  int r = 1 + c.choose(mx, "rows"), k = 1 + c.choose(mx, "cols");
  c.note("%s %dx%d", nm<S>(), r, k);
  size_t before = mc::heap_live();
  {
    Mat2D<S> M(r, k);
    c.check(M.rows() == r && M.cols() == k, "shape");
    long cells = 0;
    for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) if (legal<S>(i, j)) ++cells;
    c.check(M.num_elements() == cells, "%s %dx%d: %ld elements, %ld cells", nm<S>(), r, k, (long)M.num_elements(), cells);
    M.fill_with(-7.5);
    for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) if (legal<S>(i, j)) c.check(M(i, j) == -7.5, "fill missed (%d,%d)", i, j);
    double v = 0;
    for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) if (legal<S>(i, j)) { M(i, j) = ++v; c.step(); }
    v = 0;
    const Mat2D<S> &K = M;
    for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) if (legal<S>(i, j)) {
      ++v;
      c.check(K(i, j) == v, "%s %dx%d: cell (%d,%d) reads %g, written %g", nm<S>(), r, k, i, j, K(i, j), v);
      long off = &M(i, j) - K.data();
      c.check(off >= 0 && off < cells, "cell (%d,%d) at offset %ld outside %ld", i, j, off, cells);
#ifndef VAR_COPY
      // slices: rows of row-major layouts, columns of the column-major one
      const double *sl = S == MatrixStorageType::ColumnWise ? K.slice(j) + i : K.slice(i) + j;
      c.check(sl == &K(i, j), "slice disagrees with cell (%d,%d)", i, j);
      double *sm = S == MatrixStorageType::ColumnWise ? M.slice(j) + i : M.slice(i) + j;
      c.check(sm == &M(i, j), "mutable slice disagrees with cell (%d,%d)", i, j);
#endif
      if (S == MatrixStorageType::Trapezoid && j != i && j < r && i < k)
        c.check(K(j, i) == v, "packed matrix not symmetric in its indices at (%d,%d)", j, i);
    }
    c.state(mc::Hash().i((int)S).i(r).i(k).h);
  }
  c.check(mc::heap_live() == before, "leak");
}

template <MatrixStorageType S> struct Mod { bool live{false}; int r{0}, k{0}; double v[5][5]; };
template <MatrixStorageType S> struct Hist {
  using M = Mat2D<S>;
  alignas(M) static unsigned char st[2][sizeof(M)];
  static M &m(int i) { return *reinterpret_cast<M *>(st[i]); }
  static double uniq;
  static void fill(int i, Mod<S> &md) { for (int a = 0; a < md.r; a++) for (int b = 0; b < md.k; b++) if (legal<S>(a, b)) m(i)(a, b) = md.v[a][b] = ++uniq; }
  static void verify(mc::Ctx &c, int i, const Mod<S> &md, const char *op) {
    if (!md.live) return;
    const M &x = m(i);
    c.check(x.rows() == md.r && x.cols() == md.k, "m%d after %s: shape %dx%d, expected %dx%d", i, op, x.rows(), x.cols(), md.r, md.k);
    for (int a = 0; a < md.r; a++) for (int b = 0; b < md.k; b++) if (legal<S>(a, b))
      c.check(x(a, b) == md.v[a][b], "m%d after %s: (%d,%d) is %g, last written %g", i, op, a, b, x(a, b), md.v[a][b]);
  }
  static void run(mc::Ctx &c, int depth) {
    static const int shp[4][2] = {{2, 3}, {3, 2}, {3, 3}, {1, 4}};
    Mod<S> md[2];
    uniq = 0;
    size_t before = mc::heap_live();
    for (int i = 0; i < 2; i++) { new (st[i]) M(shp[i][0], shp[i][1]); md[i].live = true; md[i].r = shp[i][0]; md[i].k = shp[i][1]; fill(i, md[i]); }
    for (int d = 0; d < depth; d++) {
      int a = c.choose(2, "slot"), op = c.choose(11, "op");
      char name[64] = "";
      if (op < 4) { m(a).~M(); new (st[a]) M(shp[op][0], shp[op][1]); md[a].live = true; md[a].r = shp[op][0]; md[a].k = shp[op][1]; fill(a, md[a]); std::snprintf(name, 64, "m%d=new %dx%d", a, md[a].r, md[a].k); }
      else if (op == 4) { if (!md[a].live) { cleanup(); c.skip(); } fill(a, md[a]); std::snprintf(name, 64, "rewrite m%d", a); }
      else if (op == 5) { if (!md[a].live) { cleanup(); c.skip(); } m(a).fill_with(++uniq); for (auto &r : md[a].v) for (auto &x : r) x = uniq; std::snprintf(name, 64, "fill m%d", a); }
#ifndef NO_COPY
      else if (op == 6) { if (!md[1 - a].live) { cleanup(); c.skip(); } m(a) = m(1 - a); md[a] = md[1 - a]; std::snprintf(name, 64, "m%d=m%d", a, 1 - a); }
      else if (op == 7) { if (!md[1 - a].live) { cleanup(); c.skip(); } m(a).~M(); new (st[a]) M(static_cast<const M &>(m(1 - a))); md[a] = md[1 - a]; std::snprintf(name, 64, "m%d=copy of m%d", a, 1 - a); }
      else if (op == 8) { if (!md[a].live) { cleanup(); c.skip(); } M &self = m(a); m(a) = self; std::snprintf(name, 64, "m%d=m%d (self)", a, a); }
#else
      else if (op <= 8) { cleanup(); c.skip(); }
#endif
      else if (op == 9) { if (!md[1 - a].live) { cleanup(); c.skip(); } m(a) = std::move(m(1 - a)); md[a] = md[1 - a]; md[1 - a] = Mod<S>(); std::snprintf(name, 64, "m%d=move(m%d)", a, 1 - a); }
      else { if (!md[1 - a].live) { cleanup(); c.skip(); } m(a).~M(); new (st[a]) M(std::move(m(1 - a))); md[a] = md[1 - a]; md[1 - a] = Mod<S>(); std::snprintf(name, 64, "m%d constructed from move(m%d)", a, 1 - a); }
      c.note("%s", name); c.step();
      mc::Hash h;
      for (int i = 0; i < 2; i++) { verify(c, i, md[i], name); h.i(md[i].live).i(md[i].r).i(md[i].k); if (md[i].live) h.d(md[i].v[0][0]); }
      c.state(h.h);
    }
    cleanup();
    c.check(mc::heap_live() == before, "%ld bytes not released", (long)(mc::heap_live() - before));
  }
  static void cleanup() { m(0).~M(); m(1).~M(); }
};
template <MatrixStorageType S> unsigned char Hist<S>::st[2][sizeof(Hist<S>::M)];
template <MatrixStorageType S> double Hist<S>::uniq;

MC_SCENARIO("layout-row" SFX, 0, 0) { layout<MatrixStorageType::RowWise>(c); }
MC_SCENARIO("layout-col" SFX, 0, 0) { layout<MatrixStorageType::ColumnWise>(c); }
MC_SCENARIO("layout-trap" SFX, 0, 0) { layout<MatrixStorageType::Trapezoid>(c); }
MC_SCENARIO("history-row" SFX, 0, 0) { Hist<MatrixStorageType::RowWise>::run(c, c.thorough() ? 5 : 3); }
MC_SCENARIO("history-col" SFX, 0, 0) { Hist<MatrixStorageType::ColumnWise>::run(c, c.thorough() ? 5 : 3); }
MC_SCENARIO("history-trap" SFX, 0, 0) { Hist<MatrixStorageType::Trapezoid>::run(c, c.thorough() ? 5 : 3); }
} // namespace
#ifndef VAR_COPY
MC_PROPERTY("M01", "model_checking",
  "every shape in every layout, and every sequence of {construct, rewrite, fill, copy/self/move assign, copy/move construct} over two matrices, against an array of last-written values",
  "shapes up to 6x6 (quick) / 9x9 (thorough); histories of depth 3 / 5",
  "a moved-from matrix is only assigned to or destroyed")
#endif
