PROPERTY='C23'
NEEDS='two meshes that touch in a common face with opposite orientations, and an edge of it where a neighbouring face has the orientation of one of the two'
BREAKS='a common face is given the tag of a face inside or outside, so it is kept or dropped wrongly'
EDITS=[('include/kigumi/Classify_faces_locally.h','          g_data.tag == Face_tag::COPLANAR || g_data.tag == Face_tag::OPPOSITE) {','          g_data.tag == Face_tag::COPLANAR) {')]
DEMO='''#include <demo_util.h>
using namespace kigumi;
int main() {
  auto a = box<Null_data>(0, 0, 0, 1, 1, 1);
  for (int axis = 0; axis < 3; ++axis) {
    for (int dir = -1; dir <= 1; dir += 2) {
      double d[3] = {0, 0, 0};
      d[axis] = dir;
      for (double grow : {0.0, 0.5}) {
        double lo[3], hi[3];
        for (int i = 0; i < 3; ++i) {
          lo[i] = d[i] - (i == axis ? 0 : grow);
          hi[i] = d[i] + 1 + (i == axis ? 0 : grow);
        }
        auto b = box<Null_data>(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
        Region<K, Null_data> ra{Triangle_soup<K, Null_data>{a}}, rb{Triangle_soup<K, Null_data>{b}};
        Boolean_region_builder<K, Null_data> builder{ra, rb};
        auto u = builder(Boolean_operator::UNION);
        require(std::abs(volume(u.boundary()) - volume(a) - volume(b)) < 1e-9, "the volume of a union of touching boxes");
        auto x = builder(Boolean_operator::DIFFERENCE);
        require(std::abs(volume(x.boundary()) - volume(a)) < 1e-9, "the volume of a box without one that touches it");
        Boolean_region_builder<K, Null_data> other{rb, ra};
        auto y = other(Boolean_operator::DIFFERENCE);
        require(std::abs(volume(y.boundary()) - volume(b)) < 1e-9, "the volume of the other box");
        for (auto fi : u.boundary().faces()) {
          const auto& s = u.boundary();
          const auto& f = s.face(fi);
          auto c = CGAL::centroid(s.point(f[0]), s.point(f[1]), s.point(f[2]));
          double cx = CGAL::to_double(c[axis]), plane = dir > 0 ? 1 : 0;
          bool inside = true;
          for (int i = 0; i < 3; ++i) if (i != axis) inside = inside && CGAL::to_double(c[i]) > 0 && CGAL::to_double(c[i]) < 1;
          require(!(std::abs(cx - plane) < 1e-9 && inside), "no face between the boxes");
        }
      }
    }
  }
}
'''
