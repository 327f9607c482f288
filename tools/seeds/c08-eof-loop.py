PROPERTY='C08'
NEEDS='an input that fails without reaching its end, such as a directory or a device error'
BREAKS='the reader never returns'
EDITS=[('include/kigumi/io/off.h','''  while (std::getline(is, line)) {''','''  while (!is.eof()) {
    std::getline(is, line);''')]
DEMO='''#include "demo_util.h"
#include <kigumi/Triangle_soup_io.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace kigumi;
int main() {
  alarm(20);
  mkdir("dir.off", 0700);
  Triangle_soup<K, Null_data> s;
  require(!read_triangle_soup("dir.off", s), "a directory is not a mesh");
  std::istringstream good{"OFF\\n3 1 0\\n0 0 0\\n1 0 0\\n0 1 0\\n3 0 1 2"};
  require(io::read_off(good, s), "valid file");
}
'''
