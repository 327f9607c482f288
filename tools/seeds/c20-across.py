PROPERTY='C20'
NEEDS='two faces in one plane whose common part has three corners or more'
BREAKS='the edge between the last two corners is missing from the edges on which the meshes intersect, and one across the common part is among them'
EDITS=[('include/kigumi/Corefine.h','''        auto j = i < n - 1 ? i + 1 : 0;''','''        auto j = i < n - 2 ? i + 1 : 0;''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Corefine.h>
#include <CGAL/squared_distance_3.h>
using namespace kigumi;
int main() {
  // the common part of the two faces is a square: its boundary has four edges
  Triangle_soup<K, Null_data> a, b;
  auto add = [](auto& s, Point p, Point q, Point r) { auto i = s.add_vertex(p), j = s.add_vertex(q), k = s.add_vertex(r); s.add_face({i, j, k}); };
  add(a, Point(0, 0, 0), Point(10, 0, 0), Point(0, 10, 0));
  add(b, Point(4, 4, 0), Point(-6, 4, 0), Point(4, -6, 0));
  Corefine<K, Null_data> c{a, b};
  auto edges = c.get_intersecting_edges();
  auto p = c.take_points();
  for (const auto& e : edges)
    if (CGAL::squared_distance(p[e[0].idx()], p[e[1].idx()]) != 16) { printf("an edge across the square\\n"); return 1; }
  return edges.size() == 4 ? 0 : 1;
}
'''
