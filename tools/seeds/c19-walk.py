PROPERTY='C19'
NEEDS='two triangles in one plane whose common part has at least four corners that are found in another order than that of the polygon'
BREAKS='the corners of the common part are listed in the order in which they are found, and not in the order of the polygon'
EDITS=[('include/kigumi/Face_face_intersection.h','''          if (k == i && !visited.at(j)) {
            i = j;
            break;
          }
        }
''','''        }
        for (std::size_t j = 0; visited.at(i) && j < size; ++j) {
          if (!visited.at(j)) {
            i = j;
          }
        }
''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Face_face_intersection.h>
#include <algorithm>
using namespace kigumi;
int main() {
  int x = 12345, n = 0;
  for (int t = 0; t < 3000; ++t) {
    Point c[6];
    for (auto& p : c) {
      x = (x * 1103515245LL + 12345) & 0x7fffffff;
      p = Point((x >> 8) % 9, (x >> 16) % 9, 0);
    }
    if (CGAL::collinear(c[0], c[1], c[2]) || CGAL::collinear(c[3], c[4], c[5])) continue;
    Point_list<K> l;
    l.start_uniqueness_check();
    std::size_t ids[6];
    for (int i = 0; i < 6; ++i) ids[i] = l.insert(c[i]);
    std::vector<std::size_t> a{ids[0], ids[1], ids[2]}, b{ids[3], ids[4], ids[5]};
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a == b) continue;
    auto r = Face_face_intersection<K>{l}(ids[0], ids[1], ids[2], ids[3], ids[4], ids[5]);
    if (r.size() < 4) continue;
    ++n;
    for (std::size_t i = 0; i < r.size(); ++i) {
      auto m = static_cast<int>(r[i]) | static_cast<int>(r[(i + 1) % r.size()]);
      if (__builtin_popcount(m & 7) > 2 && __builtin_popcount(m >> 3) > 2) {
        printf("neighbouring corners that are not on a common edge\\n");
        return 1;
      }
    }
  }
  printf("%d polygons\\n", n);
  return n > 10 ? 0 : 1;
}
'''
