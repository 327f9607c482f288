PROPERTY='C20'
NEEDS='two faces that share an edge, given in opposite directions, where the edge passes through a face of the other mesh'
BREAKS='the point where a shared edge meets a face is constructed once per direction, so the faces of the result do not share it'
EDITS=[('include/kigumi/Intersection_point_inserter.h','''    if (b > c) {
      std::swap(b, c);
    }
    if (p > q) {
      std::swap(p, q);
    }

''','''    if (b > c) {
      std::swap(b, c);
    }

''')]
DEMO='''#include <demo_util.h>
#include <map>
using namespace kigumi;
int main() {
  Region<K> a{box(0, 0, 0, 4, 4, 4)}, b{box(1, 1, 1, 6, 7, 8)};
  auto r = Boolean_region_builder<K, Null_data>{a, b}(Boolean_operator::D);
  const auto& s = r.boundary();
  std::map<std::pair<std::size_t, std::size_t>, int> n;
  for (auto fi : s.faces()) {
    const auto& f = s.face(fi);
    for (int i = 0; i < 3; ++i) {
      auto x = f[i].idx(), y = f[(i + 1) % 3].idx();
      n[{std::min(x, y), std::max(x, y)}] += x < y ? 1 : -1;
    }
  }
  for (auto& [e, k] : n)
    if (k != 0) { printf("edge %zu %zu has no counterpart\\n", e.first, e.second); return 1; }
}
'''
