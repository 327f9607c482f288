PROPERTY='C12'
NEEDS='a propagation that meets a conflicting tag while faces wait in the queue, followed by another one on the same object'
BREAKS='faces that are left in the queue are given the tag of the next component'
EDITS=[('include/kigumi/Propagate_face_tags.h','            warnings |= Warnings::FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH;\n','            warnings |= Warnings::FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH;\n            return warnings;\n')]
DEMO='''#include "demo_util.h"
#include <kigumi/Propagate_face_tags.h>
#include <cstdio>
using K = CGAL::Exact_predicates_exact_constructions_kernel;
using FD = kigumi::Null_data;
using Mesh = kigumi::Mixed_triangle_mesh<K, FD>;
using kigumi::Face_index;
using kigumi::Face_tag;
using kigumi::Vertex_index;
Mesh strip(std::size_t n) {
  Mesh m;
  for (std::size_t i = 0; i < n + 2; ++i) m.add_vertex({double(i), double(i % 2), 0});
  for (std::size_t i = 0; i < n; ++i) {
    auto fi = m.add_face({Vertex_index{i}, Vertex_index{i + 1}, Vertex_index{i + 2}});
    m.data(fi).from_left = true;
  }
  m.finalize();
  return m;
}
Face_tag third(bool before) {
  kigumi::Propagate_face_tags<K, FD> propagate;
  if (before) {
    auto a = strip(9);
    a.data(Face_index{4}).tag = Face_tag::INTERIOR;
    a.data(Face_index{6}).tag = Face_tag::EXTERIOR;
    propagate(a, {}, Face_index{4});
  }
  auto b = strip(9);
  // the component of the first face ends at the border edge
  kigumi::Edge_set border{kigumi::make_edge(Vertex_index{1}, Vertex_index{2}), kigumi::make_edge(Vertex_index{2}, Vertex_index{3})};
  b.data(Face_index{0}).tag = Face_tag::EXTERIOR;
  propagate(b, border, Face_index{0});
  return b.data(Face_index{7}).tag;
}
int main() {
  if (third(false) != third(true)) { printf("the tags depend on the previous mesh\\n"); return 1; }
}
'''
