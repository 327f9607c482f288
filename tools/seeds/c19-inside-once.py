PROPERTY='C19'
NEEDS='two triangles in one plane, one of which has one corner in the interior of the other'
BREAKS='the edges that leave the interior of the other triangle are not intersected with its boundary'
EDITS=[('include/kigumi/Face_face_intersection.h','''    if (vertex_face_intersections == 2) {''','''    if (vertex_face_intersections > 0) {''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Face_face_intersection.h>
using namespace kigumi;
int main() {
  Point_list<K> l;
  l.start_uniqueness_check();
  for (auto p : {Point(0, 0, 0), Point(4, 0, 0), Point(0, 4, 0), Point(1, 1, 0), Point(5, 1, 0), Point(5, 2, 0)}) l.insert(p);
  auto r = Face_face_intersection<K>{l}(3, 4, 5, 0, 1, 2);
  printf("%zu corners\\n", r.size());
  return r.size() == 3 ? 0 : 1;
}
'''
