PROPERTY='C21'
NEEDS='two equal points whose third coordinate alone was computed in different ways and is known only approximately'
BREAKS='equal points have different hashes, so that a point list that checks uniqueness gives one point two numbers'
EDITS=[('include/kigumi/Point_list.h',''' || !p.approx().y().is_point() || !p.approx().z().is_point()) {''',''' || !p.approx().y().is_point()) {''')]
DEMO='''#include <demo_util.h>
#include <kigumi/Point_list.h>
using namespace kigumi;
int main() {
  for (int axis = 0; axis < 3; ++axis) {
    K::FT s = 0;
    for (int i = 0; i < 10; ++i) s += K::FT(1) / 10;
    K::FT c[3] = {1, 1, 1};
    c[axis] = s;
    Point_list<K> points;
    points.start_uniqueness_check();
    auto i = points.insert(Point(1, 1, 1));
    auto j = points.insert(Point(c[0], c[1], c[2]));
    if (i != j || points.size() != 1) { printf("one point has two numbers\\n"); return 1; }
  }
}
'''
