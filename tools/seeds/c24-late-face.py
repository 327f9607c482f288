PROPERTY='C24'
NEEDS='a face that touches a later face properly before it meets another one that it overlaps'
BREAKS='faces that overlap are not reported'
EDITS=[('include/kigumi/Find_defects.h','''            if (inter.size() == 1) {
              if (num_shared_vertices < 1) {
                local_fis.push_back(fi);
                return;
              }
            } else if''','''            if (inter.size() == 1) {
              if (num_shared_vertices < 1) {
                local_fis.push_back(fi);
              }
              return;
            } else if''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Find_defects.h>
#include <algorithm>
using namespace kigumi;
int main() {
  // The first face touches one face in a corner and is crossed by another.
  int order[3] = {0, 1, 2};
  do {
    Triangle_soup<K, Null_data> s;
    Point ps[8] = {{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {-1, 0, 0}, {0, -1, 1}, {1, 1, -1}, {1, 1, 1}, {9, 9, 0}};
    std::vector<Vertex_index> v;
    for (const auto& p : ps) v.push_back(s.add_vertex(p));
    Face fs[3] = {{v[0], v[1], v[2]}, {v[0], v[3], v[4]}, {v[5], v[6], v[7]}};
    for (int i : order) s.add_face(fs[i]);
    Find_defects<K, Null_data> d{s};
    require(d.overlapping_faces().size() == 1, "a face that is crossed by another is reported");
  } while (std::next_permutation(order, order + 3));
}
'''
