PROPERTY='C13'
NEEDS='two or more threads and a first mesh with faces whose boxes meet those of the second'
BREAKS='the buffer for the faces found in the tree is shared by all threads (the change looks like it saves allocations)'
EDITS=[('include/kigumi/Find_possibly_intersecting_faces.h','''          thread_local std::vector<const Leaf*> leaves;

''',''),('include/kigumi/Find_possibly_intersecting_faces.h','''    const auto& a_tree = a.aabb_tree();
''','''    const auto& a_tree = a.aabb_tree();
    std::vector<const Leaf*> leaves;
    leaves.reserve(a.num_faces());
''')]
FLAGS='-fsanitize=thread -g1'
DEMO='''#include "demo_util.h"
#include <kigumi/Find_possibly_intersecting_faces.h>
using namespace kigumi;
int main() {
  Triangle_soup<K, Null_data> a, b;
  for (int i = 0; i < 40; ++i) {
    for (auto* s : {&a, &b}) {
      double z = s == &a ? 0.5 : 0.0;
      auto v0 = s->add_vertex({i + 0.0, 0.0, z});
      auto v1 = s->add_vertex({i + 1.0, 0.0, 1.0 - z});
      auto v2 = s->add_vertex({i + 0.0, 1.0, z});
      s->add_face({v0, v1, v2});
    }
  }
  std::vector<Face_tag> ta(a.num_faces(), Face_tag::UNKNOWN), tb(b.num_faces(), Face_tag::UNKNOWN);
  std::size_t first = 0;
  for (int i = 0; i < 20; ++i) {
    auto n = Find_possibly_intersecting_faces<K, Null_data>{}(a, b, ta, tb).size();
    if (i == 0) first = n;
    require(n == first && n >= 40, "all pairs");
  }
}
'''
