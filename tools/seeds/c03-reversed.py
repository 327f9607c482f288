PROPERTY='C03'
NEEDS='a result that contains reversed faces (difference or complement) of an operand with face data'
BREAKS='reversed faces lose their data'
EDITS=[('include/kigumi/Extract.h','''      soup.data(new_fi) = m.data(fi).data;''','''      if (output_id) {
        soup.data(new_fi) = m.data(fi).data;
      }''')]
DEMO='''#include "demo_util.h"
using namespace kigumi;
int main() {
  auto sa = box<Tagged>(0, 0, 0, 3, 3, 3), sb = box<Tagged>(1, 1, 1, 2, 2, 2);
  for (auto fi : sa.faces()) sa.data(fi).value = 1;
  for (auto fi : sb.faces()) sb.data(fi).value = 2;
  Region<K, Tagged> a{sa}, b{sb};
  Boolean_region_builder<K, Tagged> builder{a, b};
  auto r = builder(Boolean_operator::L);
  int n[3] = {};
  for (auto fi : r.boundary().faces()) ++n[r.boundary().data(fi).value];
  require(n[1] == 12 && n[2] == 12, "every face has the data of its original");
}
'''
