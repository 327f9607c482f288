PROPERTY='C22'
NEEDS='a mesh with at least two consecutive vertices that no face uses, followed by vertices that are used'
BREAKS='the table of faces per vertex is shifted, so neighbours of later vertices are not found'
EDITS=[('include/kigumi/Triangle_mesh.h','''      for (std::ptrdiff_t i = 0; i < v - prev_v; ++i) {
        indices_.push_back(index);
      }
''','''      if (v != prev_v) {
        indices_.resize(indices_.size() + (v > prev_v + 1 ? 2 : 1), index);
      }
''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Triangle_mesh.h>
using namespace kigumi;
int main() {
  for (std::size_t gap = 0; gap < 4; ++gap) {
    Triangle_mesh<K, Null_data> m;
    for (std::size_t i = 0; i < 4 + gap; ++i) m.add_vertex(Point(i, i * i, 0));
    auto v = [&](std::size_t i) { return Vertex_index{i < 1 ? i : i + gap}; };
    m.add_face({v(0), v(1), v(2)});
    m.add_face({v(1), v(3), v(2)});
    m.finalize();
    std::size_t n = 0;
    try {
      for (auto fi : m.faces_around_edge(make_edge(v(1), v(2)))) { (void)fi; ++n; }
    } catch (const std::exception&) {}
    require(n == 2, "an edge has two faces");
  }
}
'''
