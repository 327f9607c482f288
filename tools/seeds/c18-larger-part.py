PROPERTY='C18'
NEEDS='two threads or more, of which a later one has found more pairs than all before it'
BREAKS='a part that is larger than what was collected replaces it instead of being added'
EDITS=[('include/kigumi/Find_possibly_intersecting_faces.h','''          if (pairs.empty()) {
            pairs =''','''          if (pairs.size() < local_pairs.size()) {
            pairs =''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Find_possibly_intersecting_faces.h>
#include <kigumi/threading.h>
#include <set>
using namespace kigumi;
Triangle_soup<K, Null_data> grid(int n, bool tilt) {
  Triangle_soup<K, Null_data> s;
  std::vector<Vertex_index> v;
  for (int i = 0; i <= n; ++i)
    for (int j = 0; j <= n; ++j) v.push_back(s.add_vertex(Point(i, j, tilt ? 0.01 * i - 0.3 : 0.01 * j - 0.2)));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      s.add_face({v[i * (n + 1) + j], v[(i + 1) * (n + 1) + j], v[i * (n + 1) + j + 1]});
      s.add_face({v[(i + 1) * (n + 1) + j], v[(i + 1) * (n + 1) + j + 1], v[i * (n + 1) + j + 1]});
    }
  return s;
}
int main() {
  auto a = grid(40, false), b = grid(40, true);
  std::vector<Face_tag> ta(a.num_faces(), Face_tag::UNKNOWN), tb(b.num_faces(), Face_tag::UNKNOWN);
  std::size_t want = 0;
  for (std::size_t n = 1; n <= 8; ++n) {
    Threading_options o;
    o.set_num_threads(n);
    Threading_context c{o};
    for (int i = 0; i < 40; ++i) {
      auto got = Find_possibly_intersecting_faces<K, Null_data>{}(a, b, ta, tb).size();
      if (want == 0) want = got;
      if (got != want) { printf("%zu pairs with one thread, %zu with up to %zu\\n", want, got, n); return 1; }
    }
  }
}
'''
