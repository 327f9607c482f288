PROPERTY='C07'
NEEDS='a PLY file with a vertex line that ends before its last coordinate'
BREAKS='the missing coordinate is taken to be zero and the file is read successfully'
EDITS=[('include/kigumi/io/ply.h','''      if (!iss) {
        std::cerr << "invalid vertex line''','''      if (!iss && !iss.eof()) {
        std::cerr << "invalid vertex line''')]
DEMO='''#include "demo_util.h"
#include <kigumi/Triangle_soup_io.h>
using namespace kigumi;
static std::string file(const char* last) {
  return std::string("ply\\nformat ascii 1.0\\nelement vertex 3\\nproperty float x\\nproperty float y\\nproperty float z\\n"
    "element face 1\\nproperty list uchar int vertex_index\\nend_header\\n0 0 0\\n1 0 0\\n") + last + "\\n3 0 1 2\\n";
}
int main() {
  Triangle_soup<K, Null_data> s;
  std::istringstream good{file("0 1 5")};
  require(io::read_ply(good, s), "valid file");
  std::istringstream cut{file("0 1")};
  require(!io::read_ply(cut, s), "a vertex without z is malformed");
}
'''
