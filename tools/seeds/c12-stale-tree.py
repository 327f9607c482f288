PROPERTY='C12'
NEEDS='a mesh that has been queried before another mesh is assigned to it'
BREAKS='the search tree of the previous content is used for the new one'
EDITS=[('include/kigumi/Triangle_soup.h','      aabb_tree_.reset();\n    }\n    return *this;','      if (faces_.empty()) {\n        aabb_tree_.reset();\n      }\n    }\n    return *this;')]
DEMO='''#include "demo_util.h"
#include <kigumi/Region.h>
#include <cstdio>
#include <stdexcept>
using K = CGAL::Exact_predicates_exact_constructions_kernel;
int main() {
  auto small = box(0, 0, 0, 1, 1, 1);
  auto large = box(-10, -10, -10, 10, 10, 10);
  kigumi::Region<K> r{small};
  K::Point_3 p{5, 4, 3};
  if (r.bounded_side(p) != CGAL::ON_UNBOUNDED_SIDE) { printf("small box\\n"); return 1; }
  const kigumi::Region<K> s{large};
  r = s;
  try {
    if (r.bounded_side(p) != CGAL::ON_BOUNDED_SIDE) { printf("large box\\n"); return 1; }
  } catch (const std::exception& e) {
    printf("%s\\n", e.what());
    return 1;
  }
}
'''
