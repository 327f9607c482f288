PROPERTY='C23'
NEEDS='a ray that grazes an edge of a face nearer than the others, where at least three faces are hit and the one tested next to the nearest is a farther one'
BREAKS='an edge that is touched by the ray is not noticed, so a point outside is taken for a point inside'
EDITS=[('include/kigumi/Side_of_triangle_soup.h','intersections_.begin() + 2, intersections_.end(),','intersections_.begin() + 1, intersections_.end(),')]
DEMO='''#include <demo_util.h>
#include <kigumi/Side_of_triangle_soup.h>
using namespace kigumi;
using Soup = Triangle_soup<K, Null_data>;
int main() {
  int n = 0;
  // The point p sees the first face of a box at the centroid c; on the way the ray touches an edge of another box.
  for (int order = 0; order < 2; ++order) {
    for (int axis = 0; axis < 2; ++axis) {
      for (int sign = -1; sign <= 1; sign += 2) {
        for (int inner = 0; inner < 5; ++inner) {
          auto a = box<Null_data>(-3, -3, 0, 3, 3, 3);
          const auto& f = a.face(Face_index{0});
          auto c = CGAL::centroid(a.point(f[0]), a.point(f[1]), a.point(f[2]));
          Point p = c + K::Vector_3(axis == 0 ? 4 : inner, axis == 1 ? 4 : inner, -8);
          Point e = CGAL::midpoint(p, c);
          // an edge of a small box through e, on one side of the ray
          K::Vector_3 d = p - e;
          Soup s;
          auto add = [&](const Soup& t) {
            auto base = s.num_vertices();
            for (auto vi : t.vertices()) s.add_vertex(t.point(vi));
            for (auto fi : t.faces()) {
              const auto& g = t.face(fi);
              s.add_face({Vertex_index{g[0].idx() + base}, Vertex_index{g[1].idx() + base}, Vertex_index{g[2].idx() + base}});
            }
          };
          auto b = box<Null_data>(-1, -1, -1, 1, 1, 1);
          // translated so that the middle of an edge along the other axis is at e; the box lies on the outer or inner side
          K::Vector_3 m = axis == 0 ? K::Vector_3(sign, 0, sign) : K::Vector_3(0, sign, sign);
          Soup moved;
          K::FT w = K::FT(1) / 7;
          for (auto vi : b.vertices()) {
            auto q = b.point(vi) - CGAL::ORIGIN;
            moved.add_vertex(e + (q - m + (axis == 0 ? K::Vector_3(0, w, 0) : K::Vector_3(w, 0, 0))) * (K::FT(1) / 4));
          }
          for (auto fi : b.faces()) moved.add_face(b.face(fi));
          if (order == 0) { add(a); add(moved); } else {
            // the face the ray is aimed at comes first
            Soup r;
            for (auto vi : a.vertices()) r.add_vertex(a.point(vi));
            auto base = r.num_vertices();
            for (auto vi : moved.vertices()) r.add_vertex(moved.point(vi));
            r.add_face(a.face(Face_index{0}));
            for (auto fi : moved.faces()) {
              const auto& g = moved.face(fi);
              r.add_face({Vertex_index{g[0].idx() + base}, Vertex_index{g[1].idx() + base}, Vertex_index{g[2].idx() + base}});
            }
            for (auto fi : a.faces()) if (fi.idx()) r.add_face(a.face(fi));
            s = std::move(r);
          }
          (void)d;
          // rotations of the whole
          for (int rot = 0; rot < 12; ++rot) {
            auto turn = [&](const Point& q) {
              auto x = q.x(), y = q.y(), z = q.z();
              if (rot % 4 == 1) { x = -x; z = -z; }
              if (rot % 4 == 2) { x = -x; y = -y; }
              if (rot % 4 == 3) { y = -y; z = -z; }
              return rot / 4 == 0 ? Point(x, y, z) : rot / 4 == 1 ? Point(y, z, x) : Point(z, x, y);
            };
            Soup t;
            for (auto vi : s.vertices()) t.add_vertex(turn(s.point(vi)));
            for (auto fi : s.faces()) t.add_face(s.face(fi));
            Side_of_triangle_soup<K, Null_data> side;
            auto r = side(t, turn(p));
            ++n;
            require(r == CGAL::ON_POSITIVE_SIDE, "a point outside both boxes is outside");
          }
        }
      }
    }
  }
  require(n == 480, "cases");
}
'''
