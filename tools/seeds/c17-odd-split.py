PROPERTY='C17'
NEEDS='a subtree with an odd number of leaves greater than three, searched by a query that meets its middle'
BREAKS='the search assumes that the larger half of an odd number of leaves is on the left, but the tree is built the other way round'
EDITS=[('include/kigumi/AABB_tree/AABB_tree.h','''        auto num_left_leaves = num_leaves / 2;
        if (CGAL::do_intersect(''','''        auto num_left_leaves = num_leaves - num_leaves / 2;
        if (CGAL::do_intersect(''')]
DEMO='''#include <demo_util.h>
#include <iterator>
using namespace kigumi;
int main() {
  for (int n = 1; n < 40; ++n) {
    Triangle_soup<K, Null_data> s;
    for (int i = 0; i < n; ++i) {
      double x = (i * 17) % 41;
      auto a = s.add_vertex(Point(x, 0, 0)), b = s.add_vertex(Point(x + 0.5, 1, 0)), c = s.add_vertex(Point(x, 0, 1));
      s.add_face({a, b, c});
    }
    using Leaf = Triangle_soup<K, Null_data>::Leaf;
    for (auto f : s.faces()) {
      std::vector<const Leaf*> l;
      s.aabb_tree().get_intersecting_leaves(std::back_inserter(l), s.triangle(f).bbox());
      bool found = false;
      for (const auto* x : l) found = found || x->face_index() == f;
      if (!found) { printf("face %zu of %d is not found\\n", f.idx(), n); return 1; }
    }
  }
}
'''
