PROPERTY='C11'
NEEDS='a vertex with coordinates that were constructed (not read), so that the approximation differs from the exact value'
BREAKS='coordinates are written from their interval approximations instead of the exact values'
EDITS=[('include/kigumi/io/off.h','''    const auto& p = soup.point(vi);
    p.exact();
''','''    const auto& p = soup.point(vi);
'''),('include/kigumi/io/off.h','''    os << x << ' ' << y << ' ' << z << '\\n';
''','''    p.exact();
    os << x << ' ' << y << ' ' << z << '\\n';
''')]
DEMO='''#include "demo_util.h"
#include <kigumi/Triangle_soup_io.h>
using namespace kigumi;
using S = Triangle_soup<K, Null_data>;
static S fractions() {
  S s;
  for (int i = 1; i < 30; ++i)
    for (int j = i + 1; j < 30; ++j) s.add_vertex(Point(K::FT(i) / K::FT(j), K::FT(j) / K::FT(i) / K::FT(7), K::FT(i + j) / K::FT(11)));
  s.add_face({Vertex_index{0}, Vertex_index{1}, Vertex_index{2}});
  return s;
}
int main() {
  S a = fractions(), b = fractions();
  for (auto v : b.vertices()) b.point(v).exact();
  std::ostringstream oa, ob;
  require(io::write_off(oa, a) && io::write_off(ob, b), "written");
  require(oa.str() == ob.str(), "the file depends on whether the points have been evaluated before");
}
'''
