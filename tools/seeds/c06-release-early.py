PROPERTY='C06'
NEEDS='an OFF file that turns out to be malformed, read into a mesh that is not empty'
BREAKS='the mesh is lost although reading failed'
EDITS=[('include/kigumi/io/off.h','''  Triangle_soup new_soup;
''','''  // Release the memory of the old mesh before the new one is read.
  soup = Triangle_soup{};
  auto& new_soup = soup;
'''),('include/kigumi/io/off.h','''  soup = std::move(new_soup);
''','')]
DEMO='''#include "demo_util.h"
#include <kigumi/Triangle_soup_io.h>
using namespace kigumi;
int main() {
  auto s = box(0, 0, 0, 1, 1, 1);
  std::istringstream bad{"OFF\\n1 1 0\\n0 0 zero\\n3 0 0 0\\n"};
  require(!io::read_off(bad, s), "malformed file");
  require(s.num_vertices() == 8 && s.num_faces() == 12, "a failed read leaves the mesh alone");
}
'''
