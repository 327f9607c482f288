#pragma once
#include <CGAL/Exact_predicates_exact_constructions_kernel.h>
#include <kigumi/Boolean_operator.h>
#include <kigumi/Boolean_region_builder.h>
#include <kigumi/Region.h>
#include <kigumi/Triangle_soup.h>

#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>

using K = CGAL::Exact_predicates_exact_constructions_kernel;
using Point = K::Point_3;

struct Tagged {
  int value{};
};

template <class D = kigumi::Null_data>
kigumi::Triangle_soup<K, D> box(double x0, double y0, double z0, double x1, double y1, double z1,
                                bool inverted = false) {
  kigumi::Triangle_soup<K, D> s;
  double xs[2] = {x0, x1}, ys[2] = {y0, y1}, zs[2] = {z0, z1};
  std::vector<kigumi::Vertex_index> v;
  for (int i = 0; i < 8; ++i) v.push_back(s.add_vertex(Point(xs[i & 1], ys[(i >> 1) & 1], zs[i >> 2])));
  int f[12][3] = {{0, 2, 1}, {1, 2, 3}, {4, 5, 6}, {5, 7, 6}, {0, 1, 4}, {1, 5, 4},
                  {2, 6, 3}, {3, 6, 7}, {0, 4, 2}, {2, 4, 6}, {1, 3, 5}, {3, 7, 5}};
  for (auto& t : f) {
    if (inverted) std::swap(t[1], t[2]);
    s.add_face({v[t[0]], v[t[1]], v[t[2]]});
  }
  return s;
}

template <class S>
double volume(const S& s) {
  K::FT v = 0;
  for (auto fi : s.faces()) {
    const auto& f = s.face(fi);
    v += CGAL::volume(Point(0, 0, 0), s.point(f[0]), s.point(f[1]), s.point(f[2]));
  }
  return CGAL::to_double(v);
}

inline void require(bool c, const char* what) {
  if (!c) {
    std::fprintf(stderr, "BROKEN: %s\n", what);
    std::exit(1);
  }
}
