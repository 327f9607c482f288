PROPERTY='C01'
NEEDS='operator G (complement of the second operand), a face of the second operand that coincides with a face of opposite orientation of the first, and the first operand preferred'
BREAKS='the coinciding face is taken with the wrong orientation, so the boundary of the complement is inconsistent'
EDITS=[('include/kigumi/Boolean_operator.h','''    case Boolean_operator::B:
    case Boolean_operator::G:
    case Boolean_operator::I:
    case Boolean_operator::L:
      return prefer_a ? Mask::A : Mask::B_INV;
    case Boolean_operator::C:''','''    case Boolean_operator::B:
    case Boolean_operator::I:
    case Boolean_operator::L:
      return prefer_a ? Mask::A : Mask::B_INV;
    case Boolean_operator::G:
      return prefer_a ? Mask::A_INV : Mask::B_INV;
    case Boolean_operator::C:''')]
DEMO='''#include "demo_util.h"
using namespace kigumi;
int main() {
  Region<K> a{box(0, 0, 0, 1, 1, 1)}, b{box(1, 0, 0, 3, 1, 1)};
  Boolean_region_builder<K, Null_data> builder{a, b};
  for (bool prefer : {true, false}) {
    auto r = builder(Boolean_operator::G, prefer);
    require(volume(r.boundary()) == -2, "complement of a box of volume 2");
  }
}
'''
