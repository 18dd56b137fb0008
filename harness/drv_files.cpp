// P18 well-formed files, P19 malformed files, P20 store and load back.
#include "drv.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <dirent.h>
#include <cstring>
#include <cstdio>
#include <strings.h>
#include "CSR.hpp"
#include "COO.hpp"
#include "Vector.hpp"
#include "mm_io.h"
using namespace SpMP;
static int reps(int q, int t) { return (int)((D.thorough ? t : q) * D.scale); }
static const int TS[] = {1, 2, 3, 4, 6};
typedef std::vector<int> VI; typedef std::vector<std::string> VS;
static int openFds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
static std::string path(const char* ext = "mtx") { const char* t = getenv("SIM_TMP"); return std::string(t ? t : ".") + "/f" + std::to_string(getpid()) + "." + ext; }
static void spew(const std::string& f, const std::string& s) { FILE* o = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
static std::string jstrs(const VS& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += "\"" + v[i] + "\""; } return s + "]"; }

// A file is described by its tokens; values are in eighths.
struct FileD { bool missing = false; VS banner; VI size; bool badsize = false; std::vector<VI> e; int partial = 0; bool junk = false; };
static std::string jfile(const FileD& f) { Obj o; o.b("missing", f.missing).raw("banner", jstrs(f.banner)).arr("size", f.size).b("badsize", f.badsize).raw("e", jarr2(f.e)).i("partial", f.partial).b("junk", f.junk); return o.done(); }
static std::string val8(Rng& g, int v, bool integer) { char b[64]; if (integer) { snprintf(b, sizeof b, g.chance(0.1) && v >= 0 ? "+%d" : "%d", v / 8); return b; } static const char* fm[] = {"%g", "%.6f", "%e", "%.16g", "%G", "%20.16g", "%+.4f", "%012.5f", "%.25f", "%.30e", "%.9E"}; snprintf(b, sizeof b, fm[g.below(11)], v / 8.0); std::string s = b;
  if (s.find_first_of("eE") == std::string::npos && s.find('.') != std::string::npos && g.chance(0.3)) { while (s.back() == '0') s.pop_back(); if (s == "." || s == "-." || s == "+.") s = "0."; else { size_t z = s.find_first_of("123456789."); if (s[z] == '.' && z > 0 && s[z - 1] == '0' && s.size() > z + 1 && s.find_first_not_of("+-0 ") == z) s.erase(z - 1, 1); } } // ".5", "5."
  return s; }
static std::string idx(Rng& g, int v) { return (g.chance(0.03) && v >= 0 ? "+" : "") + std::string(g.chance(0.03) && v >= 0 ? g.range(1, 5) : 0, '0') + std::to_string(v); }
static std::string render(Rng& g, const FileD& f, bool array) {
  std::string nl = g.chance(0.1) ? "\r\n" : "\n", s; auto sp = [&] { return std::string(g.chance(0.1) ? "\t" : g.chance(0.1) ? "   " : " "); };
  for (size_t i = 0; i < f.banner.size(); ++i) { std::string w = f.banner[i]; if (i > 0 && g.chance(0.15)) for (auto& c : w) c = toupper(c); s += (i ? sp() : "") + w; } s += nl;
  int cm = g.chance(0.5) ? 0 : g.below(4); for (int i = 0; i < cm; ++i) { if (g.chance(0.3)) s += "%" + nl; else if (g.chance(0.15)) { s += "%" + std::string(g.range(1000, 2100), "x 1"[g.below(3)]) + " 3 3 3" + nl; } else s += "% a comment 1 2 3" + nl; }
  if (g.chance(0.15)) { s += nl; if (g.chance(0.3)) s += "  " + nl; if (g.chance(0.3)) s += "% late" + nl; }
  if (f.badsize) s += VS{"x y z", "3 x 3", "size", "3,3,3", "nan nan nan"}[g.below(5)] + nl;
  else if (!f.size.empty()) { if (g.chance(0.1)) s += "  "; for (size_t i = 0; i < f.size.size(); ++i) s += (i ? sp() : "") + std::to_string(f.size[i]); s += nl; }
  bool pat = f.banner.size() > 3 && f.banner[3] == "pattern", in = f.banner.size() > 3 && f.banner[3] == "integer", cplx = f.banner.size() > 3 && f.banner[3] == "complex";
  int k = (int)f.e.size(), i = 0;
  for (auto& x : f.e) { std::string l; if (array) l = val8(g, x[0], in); else { l = idx(g, x[0]) + sp() + idx(g, x[1]); if (!pat) l += sp() + val8(g, x[2], in); }
    if (cplx) l += sp() + val8(g, 8, false); ++i;
    s += (g.chance(0.05) ? "  " : "") + l + (array && g.chance(0.3) ? " " : g.chance(0.05) ? " " + nl : i == k && g.chance(0.3) && !f.partial && !f.junk ? "" : nl); if (g.chance(0.02)) s += nl; }
  if (f.partial == 1) s += "1" + nl; if (f.partial == 2) s += "1 1" + nl; if (f.junk) s += "% trailing" + nl;
  return s; }
static std::string jcoo(const COO& c) { std::vector<VI> v; long n = c.nnz; if (n < 0 || n > 100000) n = 0; for (long i = 0; i < n; ++i) { if (!sim::addressable(c.rowidx + i, 4) || !sim::addressable(c.colidx + i, 4) || !sim::addressable(c.values + i, 8)) break; v.push_back({c.rowidx[i], c.colidx[i], num(c.values[i] * 8)}); } return jarr2(v); }
static void scaleUp(CSR* M) { if (!M->values) return; int nnz = M->rowptr[M->m] - M->rowptr[0]; for (int i = 0; i < nnz; ++i) M->values[i] *= 8; }
static std::string junk(int n) { std::string s; for (int i = 0; i < n; ++i) s += "%%MatrixMarket matrix coordinate real symmetric\n2 2 2\n1 1 1\n2 1 5\n"; return s; }

// how: 0 COO, 1 COO transposed, 2 CSR constructor; prior: the COO was loaded before
static void addLoad(std::vector<Case>& C, const std::string& id, const FileD& f, const std::string& text, int how, bool force, int pad, int base, int prior, int T) {
  C.push_back({id, [=] { Obj in; in.raw("f", jfile(f)).i("how", how).b("force", force).i("pad", pad).i("base", base).i("prior", prior);
    explore("load", in.done(), T, 3, [&] { std::string p = path(); Obj j; int fd;
      { sim::Quiet q; if (prior) spew(p, junk(1)); fd = openFds(); }
      if (how == 2) { { sim::Quiet q; unlink(p.c_str()); spew(p, text); } CSR* M = new CSR(p.c_str(), base, force, pad); { sim::Quiet q; j.b("ok", true).i("fd", openFds() - fd); int z = 0; for (int i = 0; i < M->m; ++i) { bool d = false; for (int k = M->rowptr[i] - M->rowptr[0]; k < M->rowptr[i + 1] - M->rowptr[0]; ++k) if (M->colidx[k] - M->rowptr[0] == i) { d = true; if (M->values[k] == 0) ++z; } if (!d) { M->diagptr[i] = -5; M->diag[i] = 0; M->idiag[i] = 0; } } scaleUp(M); for (int i = 0; i < M->m; ++i) { M->diag[i] *= 8; M->idiag[i] /= 8; } j.raw("M", jcsr(*M)).i("zd", z); } delete M; }
      else { COO* A = new COO; if (prior) loadMatrixMarket(p.c_str(), *A, false, 1); { sim::Quiet q; unlink(p.c_str()); if (!f.missing) spew(p, text); }
        bool ok = how == 1 ? loadMatrixMarketTransposed(p.c_str(), *A, pad) : loadMatrixMarket(p.c_str(), *A, force, pad);
        { sim::Quiet q; j.b("ok", ok).i("fd", openFds() - fd); if (ok) j.i("m", A->m).i("n", A->n).b("sym", A->isSymmetric).i("nnz", A->nnz).raw("e", jcoo(*A)); } delete A; }
      { sim::Quiet q; unlink(p.c_str()); } return j.done(); }); }});
}
// the readers that hand out plain arrays: how 3 mm_read_mtx_crd, 4 mm_read_unsymmetric_sparse
static void addCrd(std::vector<Case>& C, const std::string& id, const FileD& f, const std::string& text, int how) {
  C.push_back({id, [=] { Obj in; in.raw("f", jfile(f)).i("how", how);
    explore("crd", in.done(), 1, 2, [&] { std::string p = path(); Obj j; int fd; { sim::Quiet q; unlink(p.c_str()); if (!f.missing) spew(p, text); fd = openFds(); }
      int m = -7, n = -7, z = -7, *I = NULL, *J = NULL; double* V = NULL; MM_typecode t; mm_initialize_typecode(&t);
      int r = how == 3 ? mm_read_mtx_crd((char*)p.c_str(), &m, &n, &z, &I, &J, &V, &t) : mm_read_unsymmetric_sparse(p.c_str(), &m, &n, &z, &V, &I, &J);
      { sim::Quiet q; j.b("ok", r == 0).i("fd", openFds() - fd); if (r == 0) { int o = how == 4, cx = mm_is_complex(t); std::vector<VI> e; for (int k = 0; k < z && k < 100000; ++k) { if (!I || !J || !sim::addressable(I + k, 4) || !sim::addressable(J + k, 4) || (V && !sim::addressable(V + k, 8))) break; e.push_back({I[k] + o, J[k] + o, V ? num(V[cx ? 2 * k : k] * 8) : 8}); } j.i("m", m).i("n", n).i("nz", z).raw("e", jarr2(e)); } unlink(p.c_str()); }
      free(I); free(J); free(V); return j.done(); }); }});
}
static void addVec(std::vector<Case>& C, const std::string& id, const FileD& f, const std::string& text) {
  C.push_back({id, [=] { Obj in; in.raw("f", jfile(f));
    explore("vec", in.done(), 1, 2, [&] { std::string p = path(); Obj j; int fd; { sim::Quiet q; unlink(p.c_str()); if (!f.missing) spew(p, text); fd = openFds(); }
      double* v = NULL; int m = -7, n = -7; bool ok = loadVectorMatrixMarket(p.c_str(), &v, &m, &n);
      { sim::Quiet q; j.b("ok", ok).i("fd", openFds() - fd); if (ok) { j.i("m", m).i("n", n).arr("v", v, (long)m * n, 8.0); } unlink(p.c_str()); } if (ok) FREE(v); return j.done(); }); }});
}
static FileD goodFile(Rng& g, bool square, bool zeroBased, const char* sym, const char* typ, int size = 0) {
  FileD f; bool s = !strcmp(sym, "symmetric"); bool big = g.chance(0.03); int m = size ? size : g.chance(0.05) ? 0 : big ? g.range(25, 60) : g.range(1, g.chance(0.15) ? 20 : 6), n = square || s ? m : size ? g.range(size / 2, size * 2) : big ? g.range(1, 80) : g.range(1, 7);
  f.banner = {"%%MatrixMarket", "matrix", "coordinate", typ, sym}; int shape = g.below(4), k = m == 0 ? 0 : size ? size * 3 : g.chance(0.08) ? 0 : big ? g.range(80, 200) : g.range(1, g.chance(0.2) ? 30 : 10); std::set<std::pair<int,int>> seen; bool dup = g.chance(0.1); bool integer = !strcmp(typ, "integer");
  int heavy = g.below(m + 1); for (int i = 0; i < k; ++i) { int r = size && g.chance(0.2) ? std::min(heavy, m - 1) : g.below(m), c = size && g.chance(0.2) ? std::min(heavy, n - 1) : g.below(n); if (shape == 0 && r < c && c < m && r < n) std::swap(r, c); if (shape == 1 && r > c && c < m && r < n) std::swap(r, c); if (!dup && !seen.insert({r, c}).second) continue;
    int v = integer ? 8 * g.range(-20, 20) : g.range(-200, 200); if (r == c) v = 8 * (1 << g.below(4)) * (g.chance(0.5) ? 1 : -1); f.e.push_back({r + !zeroBased, c + !zeroBased, !strcmp(typ, "pattern") ? 8 : v}); }
  if (g.chance(0.5)) std::sort(f.e.begin(), f.e.end()); if (zeroBased && !f.e.empty()) { bool z = false; for (auto& x : f.e) z |= x[0] == 0 || x[1] == 0; if (!z) f.e[0][g.below(2)] = 0; if (!strcmp(typ, "pattern")) f.e[0][2] = 8; }
  f.size = {m, n, (int)f.e.size()}; return f; }
static void genP18(std::vector<Case>& C) {
  Rng g(D.seed * 71 + 18); static const char* ty[] = {"real", "integer", "pattern"}; int id = 0;
  for (int i = 0; i < reps(912, 8040); ++i) { bool large = i >= reps(900, 8000), huge = large && i % 4 == 2; bool force = i % 4 == 1; const char* sym = i % 2 ? "general" : "symmetric"; FileD f = goodFile(g, force, g.chance(0.2), sym, ty[g.below(3)], huge ? g.range(2100, 3200) : large ? g.range(100, 500) : 0);
    int how = force ? (const int[]){0, 2}[g.below(2)] : g.below(3), pad = g.chance(0.4) ? (const int[]){2, 3, 4, 8}[g.below(4)] : 1, base = how == 2 ? g.below(2) : 0;
    std::string text = render(g, f, false); addLoad(C, "f" + std::to_string(id++), f, text, how, force, pad, base, how == 2 ? 0 : g.below(3) == 0, TS[g.below(5)]);
    if (i % 4 == 3) addCrd(C, "c" + std::to_string(id++), f, text, 3 + (i / 4) % 2); }
  for (int i = 0; i < reps(120, 800); ++i) { FileD f; int m = i % 40 == 39 ? g.range(300, 3000) : g.range(0, 9), n = g.chance(0.6) ? 1 : g.range(1, 4); bool in = g.chance(0.3); f.banner = {"%%MatrixMarket", "matrix", "array", in ? "integer" : "real", "general"}; for (int k = 0; k < m * n; ++k) f.e.push_back({in ? 8 * g.range(-50, 50) : g.range(-500, 500)}); f.size = {m, n}; addVec(C, "v" + std::to_string(id++), f, render(g, f, true)); }
}
static Reg r18("P18", genP18);

static void genP19(std::vector<Case>& C) {
  Rng g(D.seed * 71 + 19); static const char* ty[] = {"real", "integer", "pattern"}; int id = 0;
  for (int i = 0; i < reps(900, 8000); ++i) { bool force = g.chance(0.2); FileD f; for (int t = 0; t < 20; ++t) { f = goodFile(g, force, g.chance(0.2), g.chance(0.5) ? "general" : "symmetric", ty[g.below(3)]); if (f.e.size() > 0) break; }
    bool sym = f.banner[4] == "symmetric"; int kind = i % 16; bool array = false;
    switch (kind) {
    case 0: f.missing = true; break;
    case 1: f.banner[0] = VS{"%MatrixMarket", "MatrixMarket", "%%Matrix", "%", "%%matrixmarket"}[g.below(5)]; break;
    case 2: { int w = g.range(1, 4); f.banner[w] = VS{"vector", "", "mat", std::string(g.range(60, 900), 'a'), "matrixx"}[w == 1 ? g.below(5) : g.chance(0.4) ? 3 : 2]; if (w == 2 && g.chance(0.4)) { f.banner[2] = "array"; } if (w == 3 && g.chance(0.6)) f.banner[3] = "complex"; if (w == 4 && g.chance(0.6)) f.banner[4] = g.chance(0.5) ? "hermitian" : "skew-symmetric"; VS b; for (auto& x : f.banner) if (!x.empty()) b.push_back(x); f.banner = b; break; }
    case 3: f.banner.resize(g.below(5)); break;
    case 4: f.badsize = true; break;
    case 5: { int d = g.range(1, 3); f.size.resize(3 - d); if (d == 3) f.e.clear(); break; } // (an entry would be read as the size line)
    case 6: f.size[g.below(3)] *= -1; if (f.size[2] > 0 && f.size[0] >= 0 && f.size[1] >= 0) f.size[2] = -1; break;
    case 7: f.size[2] += g.range(1, 5); break;
    case 8: { f.size[2] -= g.range(1, (int)f.e.size()); break; }
    case 9: f.e[g.below((int)f.e.size())][0] = f.size[0] + g.range(1, 3); break;
    case 10: f.e[g.below((int)f.e.size())][1] = f.size[1] + (g.chance(0.5) ? 1 : g.range(2, 1000000)); break;
    case 11: f.e[g.below((int)f.e.size())][g.below(2)] = -g.range(1, 9); break;
    case 12: { int r = g.below((int)f.e.size()); f.e[r][0] = f.size[0]; f.e.push_back({0, 0, 8}); f.size[2]++; break; }         // zero-based, row index m
    case 13: { int r = g.below((int)f.e.size()); f.e[r][1] = f.size[1]; f.e.push_back({1, 0, 8}); f.size[2]++; break; }         // zero-based, column index n
    case 14: if (!sym) { f.banner[4] = "symmetric"; for (auto& x : f.e) for (int k = 0; k < 2; ++k) x[k] = std::min(x[k], std::max(1, std::min(f.size[0], f.size[1]))); } f.size[1] = f.size[0] + g.range(1, 3); break; // symmetric, not square
    case 15: f.partial = f.banner[3] == "pattern" ? 1 : g.range(1, 2); if (g.chance(0.5)) f.e.pop_back(); break;
    }
    if (!f.banner.empty() && f.banner.size() > 3 && f.banner[3] == "pattern") for (auto& x : f.e) x[2] = 8;
    int how = force ? 0 : g.below(2), pad = g.chance(0.3) ? (const int[]){2, 3, 4}[g.below(3)] : 1; if (force && f.size.size() == 3 && kind != 14 && f.size[0] != f.size[1]) force = false;
    std::string text = render(g, f, false); addLoad(C, "b" + std::to_string(id++), f, text, how, force, pad, 0, g.chance(0.2), TS[g.below(5)]);
    if (!f.size.empty() && i % 2 == (i / 16) % 2) addCrd(C, "c" + std::to_string(id++), f, text, 3 + (i / 32) % 2); }
  for (int i = 0; i < reps(220, 1500); ++i) { FileD f; int m = g.range(1, 7), n = g.chance(0.6) ? 1 : g.range(1, 4); bool in = g.chance(0.3); f.banner = {"%%MatrixMarket", "matrix", "array", in ? "integer" : "real", "general"}; for (int k = 0; k < m * n; ++k) f.e.push_back({in ? 8 * g.range(-50, 50) : g.range(-500, 500)}); f.size = {m, n};
    switch (i % 10) { case 0: f.missing = true; break; case 1: f.banner[g.below(3)] = "nonsense"; break; case 2: f.banner[2] = "coordinate"; break; case 3: f.banner[3] = "pattern"; break; case 4: f.badsize = true; break; case 5: f.size.resize(g.below(2)); if (f.size.empty()) f.e.clear(); break; case 6: f.size[g.below(2)] *= -1; break; case 7: f.e.pop_back(); break; case 8: f.e.push_back({g.range(1, 9) * 8}); break; case 9: f.banner[3] = "complex"; break; }
    addVec(C, "w" + std::to_string(id++), f, render(g, f, true)); }
  // binary files
  for (int i = 0; i < reps(200, 1500); ++i) { Mat A = randMat(g, g.range(1, 6), g.range(1, 6), 0.5, true, false); int nnz = A.nnz(); if (!nnz) continue; VI w = {1211216, A.m, A.n, nnz}; for (auto& r : A.r) w.push_back((int)r.size()); for (auto& r : A.r) for (auto& e : r) w.push_back(e.first);
    int k = i % 8; int bad = 1; long cut = -1; switch (k) { case 0: w[0] = g.chance(0.5) ? 0 : 1211215; break; case 1: cut = g.below((int)w.size() * 4); break; case 2: cut = (int)w.size() * 4 + g.below(nnz * 8); break; case 3: w[1 + g.below(3)] *= -1; break; case 4: w[3] += g.chance(0.5) && nnz > 1 ? -1 : 1; break; case 5: w[4 + A.m + g.below(nnz)] = g.chance(0.5) ? A.n : -1; break; case 6: { int r = g.below(A.m); w[4 + r] += g.chance(0.5) ? 1 : -1 - w[4 + r]; break; } case 7: bad = 0; break; }
    std::string s((const char*)w.data(), w.size() * 4); for (auto& r : A.r) for (auto& e : r) { double v = e.second; s.append((const char*)&v, 8); } if (cut >= 0) s.resize(cut);
    int base = g.below(2), T = TS[g.below(5)]; bool fresh = g.chance(0.5);
    C.push_back({"x" + std::to_string(id++), [=] { Obj in; in.raw("A", jmat(A, 0)).b("bad", bad).i("base", base);
      explore("bin", in.done(), T, 3, [&] { std::string p = path("bin"); Obj j; int fd; { sim::Quiet q; spew(p, s); fd = openFds(); }
        CSR* M; if (fresh) { M = new CSR; M->loadBin(p.c_str(), base); } else M = new CSR(p.c_str(), base);
        { sim::Quiet q; bool null = M->rowptr == NULL; j.b("ok", !null).i("fd", openFds() - fd); if (!null) { for (int r = 0; r < M->m; ++r) { bool d = false; for (auto& e : A.r[r]) d |= e.first == r; if (!d) { M->diagptr[r] = -5; M->diag[r] = 0; M->idiag[r] = 0; } } j.raw("M", jcsr(*M)); } unlink(p.c_str()); } delete M; return j.done(); }); }}); }
}
static Reg r19("P19", genP19);

static bool closeTo(double a, double b) { return a == b || std::fabs(a - b) <= 1.2e-15 * std::fabs(a); }
static void genP20(std::vector<Case>& C) {
  Rng g(D.seed * 71 + 20); int id = 0; auto nm = [&](const char* p) { return std::string(p) + std::to_string(id++); };
  for (int i = 0; i < reps(400, 3000); ++i) { int m = i % 30 == 0 ? 0 : g.range(1, g.chance(0.15) ? 20 : 7), n = g.chance(0.6) ? std::max(1, m) : g.range(1, 8); Mat A = randMat(g, m, n, (const double[]){0.0, 0.3, 0.6, 0.9}[g.below(4)], true, false, 99); if (i % 40 == 17) { int k = i / 40 % 4 == 1 ? g.range(2100, 3200) : g.range(100, 500); m = k; n = i / 40 % 2 ? k : g.range(k / 2, 2 * k); A = bigMat(g, m, n, true, false); } int fmt = i % 3, b1 = g.below(2), b2 = g.below(2), T = TS[g.below(5)]; double f = g.chance(0.5) ? 1.0 : g.chance(0.5) ? 0.1 : 1.0 / 3; bool fail = g.chance(0.1); int ctor = g.below(2);
    C.push_back({nm("s"), [=] { Obj in; in.raw("A", jmat(A, b1)).i("fmt", fmt).i("b2", b2).b("fail", fail).b("exact", f == 1.0);
      explore("store", in.done(), T, 3, [&] { std::string p = fail ? path("dir") + "/no/such/dir.mtx" : path(fmt == 1 ? "bin" : "mtx"); Obj j; int fd; CSR* M = makeCSR(A, b1, true, true, true); std::string before, after; std::vector<double> v0;
        { sim::Quiet q; int k = 0; for (auto& r : A.r) for (auto& e : r) { M->values[k] = e.second * f; v0.push_back(M->values[k++]); } before = jcsr(*M); fd = openFds(); }
        if (fmt == 1) M->storeBin(p.c_str());
        else if (fmt == 0) M->storeMatrixMarket(p.c_str());
        else { COO* c = new COO; { sim::Quiet q; int nnz = A.nnz(); c->m = A.m; c->n = A.n; c->nnz = nnz; } c->rowidx = MALLOC(int, A.nnz()); c->colidx = MALLOC(int, A.nnz()); c->values = MALLOC(double, A.nnz()); { sim::Quiet q; int k = 0; for (int r = 0; r < A.m; ++r) for (auto& e : A.r[r]) { c->rowidx[k] = r + 1; c->colidx[k] = e.first + 1; c->values[k] = v0[k]; ++k; } } c->storeMatrixMarket(p.c_str()); delete c; }
        { sim::Quiet q; after = jcsr(*M); j.b("same", before == after); }
        delete M;
        if (!fail) { CSR* R; if (fmt == 1 && ctor) { R = new CSR; R->loadBin(p.c_str(), b2); } else R = new CSR(p.c_str(), b2);
          sim::Quiet q; bool cl = true, ex = true; std::vector<std::vector<std::pair<int,double>>> rows(A.m); { int k = 0; for (int r = 0; r < A.m; ++r) for (auto& e : A.r[r]) rows[r].push_back({e.first, v0[k++]}); }
          if (R->m == A.m && R->rowptr) for (int r = 0; r < A.m; ++r) for (int k = R->rowptr[r] - R->rowptr[0]; k < R->rowptr[r + 1] - R->rowptr[0]; ++k) { bool c1 = false, e1 = false; for (auto& x : rows[r]) if (x.first == R->colidx[k] - R->rowptr[0]) { c1 |= closeTo(x.second, R->values[k]); e1 |= x.second == R->values[k]; R->values[k] = std::floor(R->values[k] / f + 0.5); } cl &= c1; ex &= e1; }
          for (int r = 0; r < R->m; ++r) { bool d = false; for (auto& e : A.r[r]) d |= e.first == r; if (!d) { R->diagptr[r] = -5; } }
          Obj o; j.b("close", cl).b("exactly", ex).raw("M", jcsr(*R)); j.i("fd", openFds() - fd); q.~Quiet(); delete R; new (&q) sim::Quiet; unlink(p.c_str()); }
        else { sim::Quiet q; j.i("fd", openFds() - fd); }
        return j.done(); }); }}); }
  // writer and reader helpers
  for (int i = 0; i < reps(150, 800); ++i) { int nz = g.range(0, 9), m = g.range(1, 9), n = g.range(1, 9), kind = g.below(3); std::vector<VI> e; for (int k = 0; k < nz; ++k) e.push_back({g.range(1, m), g.range(1, n), kind == 1 ? 0 : g.range(-99, 99), kind == 2 ? g.range(-99, 99) : 0}); int sym = g.below(4); if (kind == 1) sym = sym % 2; if (kind == 0 && sym == 2) sym = 3;
    C.push_back({nm("h"), [=] { Obj in; in.i("m", m).i("n", n).raw("e", jarr2(e)).i("kind", kind).i("sym", sym);
      explore("mmio", in.done(), 1, 2, [&] { std::string p = path(); Obj j; int nz = (int)e.size(); MM_typecode t; mm_initialize_typecode(&t); mm_set_matrix(&t); mm_set_sparse(&t); if (kind == 0) mm_set_real(&t); else if (kind == 1) mm_set_pattern(&t); else mm_set_complex(&t); if (sym == 1) mm_set_symmetric(&t); if (sym == 2) mm_set_hermitian(&t); if (sym == 3) mm_set_skew(&t);
        int* I = (int*)malloc(4 * (nz + 1)); int* J = (int*)malloc(4 * (nz + 1)); double* V = (double*)malloc(16 * (nz + 1)); { sim::Quiet q; for (int k = 0; k < nz; ++k) { I[k] = e[k][0]; J[k] = e[k][1]; if (kind == 2) { V[2 * k] = e[k][2]; V[2 * k + 1] = e[k][3]; } else V[k] = e[k][2]; } }
        int fd = openFds(); int w = mm_write_mtx_crd((char*)p.c_str(), m, n, nz, I, J, V, t);
        int M = -7, N = -7, Z = -7, *I2 = NULL, *J2 = NULL; double* V2 = NULL; MM_typecode t2; int r = mm_read_mtx_crd((char*)p.c_str(), &M, &N, &Z, &I2, &J2, &V2, &t2);
        { sim::Quiet q; j.i("w", w).i("r", r).i("m", M).i("n", N).i("nz", Z).b("type", !memcmp(t, t2, 4)); std::vector<VI> o; if (r == 0) for (int k = 0; k < Z && k < 1000; ++k) o.push_back({I2[k], J2[k], kind == 1 ? 0 : num(kind == 2 ? V2[2 * k] : V2[k]), kind == 2 ? num(V2[2 * k + 1]) : 0}); j.raw("e", jarr2(o)); }
        free(I2); free(J2); free(V2);
        std::vector<VI> u; if (kind == 0) { double* uv; int *ui, *uj, um, un, uz; int ur = mm_read_unsymmetric_sparse(p.c_str(), &um, &un, &uz, &uv, &ui, &uj); sim::Quiet q; if (ur == 0 && um == m && un == n) for (int k = 0; k < uz; ++k) u.push_back({ui[k] + 1, uj[k] + 1, num(uv[k]), 0}); q.~Quiet(); free(ui); free(uj); free(uv); new (&q) sim::Quiet; }
        FILE* fp = fopen(p.c_str(), "w"); int wb = mm_write_banner(fp, t), ws = mm_write_mtx_crd_size(fp, m, n, nz); fclose(fp); fp = fopen(p.c_str(), "r"); int a1, a2, a3; MM_typecode t3; int rb = mm_read_banner(fp, &t3), rs = mm_read_mtx_crd_size(fp, &a1, &a2, &a3); fclose(fp);
        bool hdr = rb == 0 && rs == 0 && !memcmp(t, t3, 4) && a1 == m && a2 == n && a3 == nz;
        MM_typecode ta; mm_initialize_typecode(&ta); mm_set_matrix(&ta); mm_set_array(&ta); if (kind == 2) mm_set_complex(&ta); else mm_set_real(&ta);
        fp = fopen(p.c_str(), "w"); int wa = mm_write_banner(fp, ta), wz = mm_write_mtx_array_size(fp, m, n); fclose(fp); fp = fopen(p.c_str(), "r"); rb = mm_read_banner(fp, &t3); rs = mm_read_mtx_array_size(fp, &a1, &a2); fclose(fp);
        bool arr = rb == 0 && rs == 0 && !memcmp(ta, t3, 4) && a1 == m && a2 == n;
        { sim::Quiet q; j.raw("u", jarr2(u)).i("werr", (wb != 0) + (ws != 0) + (wa != 0) + (wz != 0)).b("hdr", hdr).b("arr", arr).i("fd", openFds() - fd); unlink(p.c_str()); }
        free(I); free(J); free(V); return j.done(); }); }}); }
}
static Reg r20("P20", genP20);
