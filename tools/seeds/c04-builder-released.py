PROPERTY='C04'
NEEDS='an operator whose result has no faces, followed by another operator on the same pair'
BREAKS='the prepared pair is released when an operator gives an empty result'
EDITS=[('include/kigumi/Boolean_region_builder.h','      return Region{std::move(soup)};\n    }\n','      return Region{std::move(soup)};\n    }\n\n    if (op == Boolean_operator::O || op == Boolean_operator::K) {\n      m_ = {};\n    }\n'),
('include/kigumi/Boolean_region_builder.h','  Mixed_triangle_soup m_;','  mutable Mixed_triangle_soup m_;')]
DEMO='''#include "demo_util.h"
#include <cstdio>
#include <stdexcept>
int main() {
  auto b1 = box(0, 0, 0, 1, 1, 1);
  auto b2 = box(3, 0, 0, 4, 1, 1);
  const kigumi::Region<K> a{b1}, b{b2};
  kigumi::Boolean_region_builder<K, kigumi::Null_data> builder{a, b};
  auto before = volume(builder(kigumi::Boolean_operator::A).boundary());
  if (!builder(kigumi::Boolean_operator::K).is_empty()) { printf("intersection\\n"); return 1; }
  auto after = builder(kigumi::Boolean_operator::A);
  if (after.is_empty_or_full() || volume(after.boundary()) != before) { printf("union changed\\n"); return 1; }
}
'''
