PROPERTY='C02'
NEEDS='symmetric difference (or its complement) of a bounded region and its own complement, so that all faces coincide with opposite orientation and none survives'
BREAKS='the result is empty instead of full'
EDITS=[('include/kigumi/Boolean_region_builder.h','''        return apply(op, false, true) ? Region::full() : Region::empty();''','''        return apply(op, true, true) ? Region::full() : Region::empty();''')]
DEMO='''#include "demo_util.h"
using namespace kigumi;
int main() {
  Region<K> a{box(0, 0, 0, 1, 1, 1)}, b{box(0, 0, 0, 1, 1, 1, true)};
  Boolean_region_builder<K, Null_data> builder{a, b};
  require(builder(Boolean_operator::J).is_full(), "A xor complement of A is everything");
  require(builder(Boolean_operator::E).is_empty(), "complement of A xor complement of A is empty");
}
'''
