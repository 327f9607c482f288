PROPERTY='C10'
NEEDS='a PLY file with an element that has exactly one line after the vertices, such as one face'
BREAKS='an element with one line left is taken for an element without lines, and its line is not expected any more'
EDITS=[('include/kigumi/io/ply.h','''    --element_it->count;
    while (element_it != elements.end() && element_it->count == 0) {
      ++element_it;
    }
''','''    if (--element_it->count == 0) {
      ++element_it;
      while (element_it != elements.end() && element_it->count <= 1) {
        ++element_it;
      }
    }
''')]
DEMO='''#include "demo_util.h"
#include <kigumi/Triangle_soup_io.h>
using namespace kigumi;
int main() {
  Triangle_soup<K, Null_data> s;
  std::string h = "ply\\nformat ascii 1.0\\nelement vertex 4\\nproperty float x\\nproperty float y\\nproperty float z\\n";
  std::string v = "0 0 0\\n1 0 0\\n0 1 0\\n1 1 0\\n";
  std::istringstream two{h + "element face 2\\nproperty list uchar int vertex_index\\nend_header\\n" + v + "3 0 1 2\\n3 1 3 2\\n"};
  require(io::read_ply(two, s), "two faces");
  require(s.num_faces() == 2, "two faces");
  std::istringstream one{h + "element face 1\\nproperty list uchar int vertex_index\\nend_header\\n" + v + "4 0 1 3 2\\n"};
  require(io::read_ply(one, s), "one face");
  require(s.num_faces() == 2, "one face with four corners");
}
'''
