PROPERTY='C24'
NEEDS='an edge with three or more faces that all run along it in the same direction, from the greater to the lesser vertex'
BREAKS='a non-manifold edge is not reported'
EDITS=[('include/kigumi/Find_defects.h','''      if (he[0] > he[1] && opp_count > 0) {''','''      if (he[0] > he[1]) {''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Find_defects.h>
using namespace kigumi;
int main() {
  for (int reversed = 0; reversed < 2; ++reversed) {
    Triangle_soup<K, Null_data> s;
    Point ps[5] = {{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {0, 1, 0}, {-1, -1, 0}};
    std::vector<Vertex_index> v;
    for (const auto& p : ps) v.push_back(s.add_vertex(p));
    for (int i = 2; i < 5; ++i) {
      if (reversed) s.add_face({v[1], v[0], v[i]}); else s.add_face({v[0], v[1], v[i]});
    }
    Find_defects<K, Null_data> d{s};
    require(d.non_manifold_edges().size() == 1, "an edge with three faces is not manifold");
    require(d.boundary_edges().size() == 6, "the other edges are boundary edges");
  }
}
'''
