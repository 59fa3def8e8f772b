// Set-up shared by the harnesses that drive a whole BEMProblem.
#pragma once
#include "bem_problem.h"
#include "bem_problem_access.h"
#include <deal.II/base/multithread_info.h>
#include <deal.II/grid/grid_tools.h>
#include "sym.h"
#include <cstdlib>
#include <iostream>
#include <memory>
#include <string>
typedef std::string S;
typedef TrilinosWrappers::MPI::Vector TV;
typedef TrilinosWrappers::SparseMatrix TM;
inline S I(long n) { return std::to_string(n); }
inline double *raw(const TV &v) { return v.trilinos_vector().Pointers()[0]; }
inline double dflt(unsigned i, unsigned j = 0, double s = 1) { unsigned h = (i * 2654435761u) ^ (j * 40503u + 77u) * 2246822519u; h ^= h >> 13; h *= 3266489917u; h ^= h >> 16; return s * ((h % 2001) / 1000. - 1.); }
inline void markv(const TV &v, const S &n) { for (unsigned i = 0; i < v.size(); ++i) sym_mark(raw(v) + i, (n + I(i)).c_str(), dflt(i, n[0])); }
inline void markm(TM &m, const S &n) {
  for (unsigned i = 0; i < m.m(); ++i) { int k; double *v; int *c; m.trilinos_matrix().ExtractMyRowView(i, k, v, c);
    for (int q = 0; q < k; ++q) { int j = m.trilinos_matrix().GCID(c[q]); sym_mark(v + q, (n + I(i) + "_" + I(j)).c_str(), dflt(i, 31 * j + n[0])); } } }
inline void outv(const S &n, const TV &v) { for (unsigned i = 0; i < v.size(); ++i) SYM_OUT((n + I(i)).c_str(), raw(v)[i]); }
// quads given by their four corners each; vertices are never shared unless `share`
struct Mesh { std::vector<Point<3>> v; std::vector<CellData<2>> c;
  void quad(const Point<3> &a, const Point<3> &b, const Point<3> &d, const Point<3> &e, unsigned mat) { CellData<2> q; Point<3> p[4] = {a, b, d, e}; for (int k = 0; k < 4; ++k) { q.vertices[k] = v.size(); v.push_back(p[k]); } q.material_id = mat; c.push_back(q); }
  void build(Triangulation<2, 3> &t) { t.create_triangulation(v, c, SubCellData()); } };
// faces 0..5 of the unit cube, outward orientation, split n x n, cells of one face share vertices
inline void face(Mesh &m, int f, unsigned mat, unsigned n = 1, double sx = 1, double sy = 1, double sz = 1) {
  int ax = f / 2, up = f % 2; int a = (ax + 1) % 3, b = (ax + 2) % 3; if (!up) std::swap(a, b);
  unsigned base = m.v.size();
  for (unsigned j = 0; j <= n; ++j) for (unsigned i = 0; i <= n; ++i) { Point<3> p; p[ax] = up; p[a] = double(i) / n; p[b] = double(j) / n; p[0] *= sx; p[1] *= sy; p[2] *= sz; m.v.push_back(p); }
  for (unsigned j = 0; j < n; ++j) for (unsigned i = 0; i < n; ++i) { CellData<2> q; q.vertices[0] = base + j * (n + 1) + i; q.vertices[1] = q.vertices[0] + 1; q.vertices[2] = q.vertices[0] + n + 1; q.vertices[3] = q.vertices[2] + 1; q.material_id = mat; m.c.push_back(q); } }
struct Quiet { std::streambuf *o; Quiet() : o(std::cout.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(o); } };
