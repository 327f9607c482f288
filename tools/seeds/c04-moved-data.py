PROPERTY='C04'
NEEDS='face attributes of a class type, and an operand that is used again after the operation'
BREAKS='the attributes of the faces of the second operand are moved out of it'
EDITS=[('include/kigumi/Mix.h','      Mixed_face_data data{false, tag, right.data(fi)};','      Mixed_face_data data{false, tag, std::move(const_cast<Triangle_soup&>(right).data(fi))};')]
DEMO='''#include "demo_util.h"
#include <cstdio>
#include <string>
int main() {
  using FD = std::string;
  auto b1 = box<FD>(0, 0, 0, 2, 2, 2);
  auto b2 = box<FD>(1, 1, 1, 3, 3, 3);
  const std::string name = "an attribute that is too long for the small string optimisation";
  for (auto fi : b1.faces()) b1.data(fi) = name + "1";
  for (auto fi : b2.faces()) b2.data(fi) = name + "2";
  const kigumi::Region<K, FD> a{b1}, b{b2};
  kigumi::Boolean_region_builder<K, FD> builder{a, b};
  auto r = builder(kigumi::Boolean_operator::A);
  for (auto fi : a.boundary().faces())
    if (a.boundary().data(fi) != name + "1") { printf("first operand\\n"); return 1; }
  for (auto fi : b.boundary().faces())
    if (b.boundary().data(fi) != name + "2") { printf("second operand\\n"); return 1; }
}
'''
