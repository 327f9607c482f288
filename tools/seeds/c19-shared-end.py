PROPERTY='C19'
NEEDS='two triangles in one plane, with an edge of the one passing through a corner of the other that two of its edges share'
BREAKS='a corner at the end of an edge is found by both edges that end there, and in another role'
EDITS=[('include/kigumi/Face_face_intersection.h','''    } else if (abq == 0) {
      // Case 1.
      return;
    }''','''    } else if (abq == 0) {
      second = vq;
    }''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Face_face_intersection.h>
#include <map>
using namespace kigumi;
int main() {
  for (int i = 0; i < 3; ++i) {
    Point_list<K> l;
    Point c[3] = {Point(0, 0, 0), Point(4, 0, 0), Point(0, 4, 0)};
    for (int j = 0; j < 3; ++j) l.insert(c[(i + j) % 3]);
    // the corner (4, 0) of the second triangle is a corner of the first one
    Point d[3] = {Point(4, 0, 0), Point(8, 1, 0), Point(8, -1, 0)};
    for (auto& p : d) l.insert(p);
    std::size_t ids[6];
    int k = 0;
    for (int j = 0; j < 3; ++j) ids[k++] = l.insert(c[(i + j) % 3]);
    for (auto& p : d) ids[k++] = l.insert(p);
    auto r = Face_face_intersection<K>{l}(ids[0], ids[1], ids[2], ids[3], ids[4], ids[5]);
    printf("%zu corners\\n", r.size());
    if (r.size() != 1) return 1;
  }
}
'''
