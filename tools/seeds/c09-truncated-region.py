PROPERTY='C09'
NEEDS='a .kigumi file that ends early'
BREAKS='reading a truncated file is reported to have succeeded, with the region left as it was'
EDITS=[('include/kigumi/Region_io.h','''  return is.good();''','''  return !is.bad();''')]
DEMO='''#include "demo_util.h"
#include <kigumi/Region.h>
#include <kigumi/Region_io.h>
#include <sstream>
using namespace kigumi;
int main() {
  Region<K> r{box(0, 0, 0, 1, 1, 1)}, t;
  std::ostringstream os;
  require(write_kigumi_region(os, r), "write");
  auto s = os.str();
  std::istringstream good{s};
  require(read_kigumi_region(good, t), "read");
  std::istringstream cut{s.substr(0, s.size() / 2)};
  require(!read_kigumi_region(cut, t), "a truncated file is refused");
}
'''
