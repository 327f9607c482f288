PROPERTY='C09'
NEEDS='a device that becomes full while the file is written'
BREAKS='writing is reported to have succeeded although the data was lost'
EDITS=[('include/kigumi/io/ply.h','''  return write_ply<K, FaceData>(ofs, soup);''','''  write_ply<K, FaceData>(ofs, soup);
  return ofs.is_open();''')]
DEMO='''#include "demo_util.h"
#include <kigumi/Triangle_soup_io.h>
#include <unistd.h>
#include <cstdio>
using namespace kigumi;
int main() {
  auto s = box(0, 0, 0, 1, 1, 1);
  require(write_triangle_soup("ok.ply", s), "writing a file");
  require(symlink("/dev/full", "full.ply") == 0, "link");
  require(!write_triangle_soup("full.ply", s), "a full device is reported");
}
'''
