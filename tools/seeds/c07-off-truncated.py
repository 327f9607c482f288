PROPERTY='C07'
NEEDS='an OFF file that ends before its last face'
BREAKS='a truncated file is read successfully'
EDITS=[('include/kigumi/io/off.h','''  if (state != Off_reading_state::END) {''','''  if (state < Off_reading_state::READING_FACES) {''')]
DEMO='''#include "demo_util.h"
#include <kigumi/Triangle_soup_io.h>
using namespace kigumi;
int main() {
  Triangle_soup<K, Null_data> s;
  std::istringstream good{"OFF\\n3 1 0\\n0 0 0\\n1 0 0\\n0 1 0\\n3 0 1 2\\n"};
  require(io::read_off(good, s), "valid file");
  std::istringstream none{"OFF\\n3 0 0\\n0 0 0\\n1 0 0\\n0 1 0\\n"};
  require(io::read_off(none, s), "file without faces");
  std::istringstream cut{"OFF\\n4 2 0\\n0 0 0\\n1 0 0\\n0 1 0\\n1 1 0\\n3 0 1 2\\n"};
  require(!io::read_off(cut, s), "a file with too few faces is malformed");
}
'''
