// Meshes for the fast method, and double nodes by position.
#pragma once
#include "bemcommon.h"
static void patch(Mesh &m, Point<3> o, Tensor<1, 3> a, Tensor<1, 3> b, unsigned n) { unsigned base = m.v.size();
  for (unsigned j = 0; j <= n; ++j) for (unsigned i = 0; i <= n; ++i) m.v.push_back(o + (double(i) / n) * a + (double(j) / n) * b);
  for (unsigned j = 0; j < n; ++j) for (unsigned i = 0; i < n; ++i) { CellData<2> q; q.vertices[0] = base + j * (n + 1) + i; q.vertices[1] = q.vertices[0] + 1; q.vertices[2] = q.vertices[0] + n + 1; q.vertices[3] = q.vertices[2] + 1; q.material_id = 1; m.c.push_back(q); } }
static Tensor<1, 3> T(double x, double y, double z) { Tensor<1, 3> t; t[0] = x; t[1] = y; t[2] = z; return t; }
static void mesh(const S &k, Triangulation<2, 3> &t) { Mesh m;
  if (k == "cube") for (int f = 0; f < 6; ++f) face(m, f, 1, 2);
  else if (k == "graded") { patch(m, Point<3>(0, 0, 0), T(1, 0, 0), T(0, 1, .1), 2); patch(m, Point<3>(0, 0, 0), T(.07, 0, 0), T(0, 0, .06), 2); patch(m, Point<3>(-.9, -.8, .7), T(.2, 0, .1), T(0, .21, 0), 1); patch(m, Point<3>(-.9, -.8, .7), T(.02, 0, .01), T(0, 0, .02), 1); patch(m, Point<3>(.9, -.9, -.95), T(.03, 0, .01), T(0, .02, .02), 1); }
  else if (k == "tower") for (int i = 0; i < 5; ++i) { double h = std::pow(.5, i); patch(m, Point<3>(h, .2 * h, -.9 + .1 * h), T(.3 * h, 0, .1 * h), T(0, .25 * h, .05 * h), 1); patch(m, Point<3>(-h, -.8 * h, .9 - .2 * h), T(.2 * h, .05 * h, 0), T(0, .2 * h, .1 * h), 1); }
  else if (k.substr(0, 5) == "burst") { unsigned z = 12345 + 77 * atoi(k.c_str() + 5); auto rnd = [&]() { z = z * 1664525u + 1013904223u; return (z >> 9) / double(1 << 23); };
    for (int i = 0; i < 5; ++i) { double h = std::pow(.5, i); for (int j = 0; j < 3; ++j) { int o = rnd() * 8; Point<3> p; for (int c = 0; c < 3; ++c) p[c] = h * ((o >> c & 1) ? -.15 - .7 * rnd() : .15 + .7 * rnd()); patch(m, p, T(.1 * h, .02 * h, .01 * h * i), T(.01 * h, .08 * h, .06 * h), 1); } } }
  else if (k == "strip") { for (int i = 0; i < 8; ++i) patch(m, Point<3>(i - 4, .1 * i, 0), T(1, .1, 0), T(0, .2, .3), 1); }
  m.build(t); }
static std::vector<std::set<types::global_dof_index>> doubles(const std::vector<Point<3>> &sp) { unsigned n = sp.size(); std::vector<std::set<types::global_dof_index>> d(n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (sp[i].distance(sp[j]) < 1e-10) d[i].insert(j); return d; }
