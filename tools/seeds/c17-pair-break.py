PROPERTY='C17'
NEEDS='a leaf of the tree whose face is tagged already comes before others that meet the same face'
BREAKS='the search for pairs stops at the first face that is tagged already instead of skipping it, so that pairs are missed'
EDITS=[('include/kigumi/Find_possibly_intersecting_faces.h','''            if (a_face_tags.at(a_fi.idx()) != Face_tag::UNKNOWN) {
              continue;''','''            if (a_face_tags.at(a_fi.idx()) != Face_tag::UNKNOWN) {
              break;''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Find_possibly_intersecting_faces.h>
#include <set>
using namespace kigumi;
int main() {
  auto a = box(0, 0, 0, 2, 2, 2);
  auto b = box(1, 1, 1, 3, 3, 3);
  std::vector<Face_tag> ta(a.num_faces(), Face_tag::UNKNOWN), tb(b.num_faces(), Face_tag::UNKNOWN);
  for (std::size_t i = 0; i < ta.size(); i += 3) ta[i] = Face_tag::COPLANAR;
  for (std::size_t i = 0; i < tb.size(); i += 4) tb[i] = Face_tag::OPPOSITE;
  std::set<std::pair<std::size_t, std::size_t>> want, got;
  for (auto f : a.faces())
    for (auto g : b.faces())
      if (ta[f.idx()] == Face_tag::UNKNOWN && tb[g.idx()] == Face_tag::UNKNOWN &&
          CGAL::do_overlap(a.triangle(f).bbox(), b.triangle(g).bbox()))
        want.emplace(f.idx(), g.idx());
  for (auto [f, g] : Find_possibly_intersecting_faces<K, Null_data>{}(a, b, ta, tb)) got.emplace(f.idx(), g.idx());
  for (const auto& p : want)
    if (!got.contains(p)) { printf("faces %zu and %zu are not examined\\n", p.first, p.second); return 1; }
}
'''
