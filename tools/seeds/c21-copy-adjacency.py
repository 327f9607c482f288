PROPERTY='C21'
NEEDS='a mesh that was finalized and is assigned to another one that was finalized before'
BREAKS='the copy keeps a part of its previous adjacency'
EDITS=[('include/kigumi/Triangle_mesh.h','''      indices_ = other.indices_;
      face_indices_ = other.face_indices_;
    }''','''      indices_ = other.indices_;
      if (face_indices_.size() != other.face_indices_.size()) {
        face_indices_ = other.face_indices_;
      }
    }''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Triangle_mesh.h>
using namespace kigumi;
using Mesh = Triangle_mesh<K, Null_data>;
static Mesh mesh(int (&f)[2][3]) {
  Mesh m;
  for (int i = 0; i < 5; ++i) m.add_vertex(Point(i, i * i, 0));
  for (auto& t : f) m.add_face({Vertex_index{(std::size_t)t[0]}, Vertex_index{(std::size_t)t[1]}, Vertex_index{(std::size_t)t[2]}});
  m.finalize();
  return m;
}
static std::vector<std::size_t> around(const Mesh& m, std::size_t a, std::size_t b) {
  std::vector<std::size_t> v;
  for (auto fi : m.faces_around_edge(make_edge(Vertex_index{a}, Vertex_index{b}))) v.push_back(fi.idx());
  return v;
}
int main() {
  int f[2][3] = {{0, 1, 2}, {2, 3, 4}}, g[2][3] = {{2, 3, 4}, {0, 1, 2}};
  Mesh a = mesh(f), b = mesh(g);
  b = a;
  for (std::size_t i = 0; i < 5; ++i)
    for (std::size_t j = i + 1; j < 5; ++j)
      if (around(a, i, j) != around(b, i, j)) { printf("the copy has other faces around an edge\\n"); return 1; }
}
'''
