PROPERTY='C05'
NEEDS='a vertex whose first two coordinates are doubles and whose third is not'
BREAKS='the third coordinate is rounded when the region is saved'
EDITS=[('include/kigumi/Triangle_soup.h','''      if (p.approx().x().is_point() && p.approx().y().is_point() && p.approx().z().is_point()) {''','''      if (p.approx().x().is_point() && p.approx().y().is_point()) {''')]
DEMO='''#include "demo_util.h"
#include <kigumi/Region_io.h>
using namespace kigumi;
int main() {
  Triangle_soup<K, Null_data> s;
  K::FT third = K::FT(1) / K::FT(3);
  auto a = s.add_vertex(Point(0, 0, third)), b = s.add_vertex(Point(1, 0, 0)), c = s.add_vertex(Point(0, 1, 0));
  s.add_face({a, b, c});
  Region<K, Null_data> r{s}, q;
  std::stringstream ss;
  require(write_kigumi_region(ss, r), "writing");
  require(read_kigumi_region(ss, q), "reading");
  require(q.boundary().point(a) == s.point(a), "coordinates survive a round trip exactly");
}
'''
