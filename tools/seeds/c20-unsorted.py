PROPERTY='C20'
NEEDS='two threads or more that find intersections of the same face, and a first mesh with at least as many faces as the second'
BREAKS='intersections are not sorted by the faces of the first mesh, because one thread would find them in that order; the last group of a face replaces the points of the others'
EDITS=[('include/kigumi/Corefine.h','''    std::sort(infos_.begin(), infos_.end(), left_fi_less);
''','''    if (left_.num_faces() < right_.num_faces()) {
      std::sort(infos_.begin(), infos_.end(), left_fi_less);
    }
''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Corefine.h>
#include <kigumi/threading.h>
#include <set>
using namespace kigumi;
Triangle_soup<K, Null_data> grid(int n, double a, double b, double c) {
  Triangle_soup<K, Null_data> s;
  std::vector<Vertex_index> v;
  for (int i = 0; i <= n; ++i)
    for (int j = 0; j <= n; ++j) v.push_back(s.add_vertex(Point(i + a * j, j, (i + j) % 2 * 0.5 + b * i + c)));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      s.add_face({v[i * (n + 1) + j], v[(i + 1) * (n + 1) + j], v[i * (n + 1) + j + 1]});
      s.add_face({v[(i + 1) * (n + 1) + j], v[(i + 1) * (n + 1) + j + 1], v[i * (n + 1) + j + 1]});
    }
  return s;
}
int main() {
  auto a = grid(14, 0, 0, 0), b = grid(14, 0.3, 0.02, 0.1);
  std::size_t want = 0;
  for (std::size_t n = 1; n <= 8; ++n) {
    Threading_options o;
    o.set_num_threads(n);
    Threading_context c{o};
    for (int i = 0; i < 4; ++i) {
      Corefine<K, Null_data> cf{a, b};
      std::size_t got = 0;
      std::vector<std::array<Vertex_index, 3>> out;
      for (auto fi : a.faces()) got += cf.get_left_faces(fi, std::back_inserter(out)).second;
      if (want == 0) want = got;
      if (got != want) { printf("%zu pieces with one thread, %zu with up to %zu\\n", want, got, n); return 1; }
    }
  }
  printf("%zu pieces\\n", want);
}
'''
