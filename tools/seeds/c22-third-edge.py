PROPERTY='C22'
NEEDS='a face whose last face around an edge is the face itself, and neighbours across a later edge'
BREAKS='the neighbours across the remaining edges are not visited'
EDITS=[('include/kigumi/Mesh_iterators.h','''      if (dereference() != fi_) {
        break;
      }''','''      if (dereference() != fi_ || (it1_ == end1_ && it2_ == end2_)) {
        break;
      }'''),('include/kigumi/Mesh_iterators.h','''    return it1_ == other.it1_ && it2_ == other.it2_ && it3_ == other.it3_;''','''    return it1_ == other.it1_ && it2_ == other.it2_ &&
           (it3_ == other.it3_ || (it1_ == end1_ && it2_ == end2_ && dereference() == fi_));''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Triangle_mesh.h>
#include <set>
using namespace kigumi;
int main() {
  // a tetrahedron: every face has three neighbours, whatever the order of the faces and corners
  int t[4][3] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
  int order[4] = {0, 1, 2, 3};
  do {
    for (int r = 0; r < 3; ++r) {
      Triangle_mesh<K, Null_data> m;
      for (int i = 0; i < 4; ++i) m.add_vertex(Point(i == 1, i == 2, i == 3));
      for (int i : order) m.add_face({Vertex_index{(std::size_t)t[i][r]}, Vertex_index{(std::size_t)t[i][(r + 1) % 3]}, Vertex_index{(std::size_t)t[i][(r + 2) % 3]}});
      m.finalize();
      for (auto fi : m.faces()) {
        std::set<std::size_t> s;
        for (auto fj : m.faces_around_face(fi, {})) s.insert(fj.idx());
        s.erase(fi.idx());
        require(s.size() == 3, "a face of a tetrahedron has three neighbours");
      }
    }
  } while (std::next_permutation(order, order + 4));
}
'''
