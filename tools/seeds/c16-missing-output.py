PROPERTY='C16'
NEEDS='an output option that is not given before one that is'
BREAKS='outputs that were asked for are not written, and success is reported'
FLAGS='-I.'
SRC='"$D/demo.cc" cli/boolean_command.cc'
EDITS=[('cli/boolean_command.cc','''  for (const auto& [op, file] : outputs) {
    if (file) {''','''  for (const auto& [op, file] : outputs) {
    if (!file) {
      break;
    }
    {''')]
DEMO='''#include "demo_util.h"
#include <kigumi/Triangle_soup_io.h>
#include "cli/commands.h"
#include <cstdio>
using namespace kigumi;
bool there(const char* f) { auto* p = fopen(f, "r"); if (p) fclose(p); return p != nullptr; }
int main() {
  require(write_triangle_soup("a.off", box(0, 0, 0, 2, 2, 2)), "a");
  require(write_triangle_soup("b.off", box(1, 1, 1, 3, 3, 3)), "b");
  Boolean_command c;
  c({"a.off", "b.off", "--int", "i.off"});
  require(there("i.off"), "intersection");
  c({"a.off", "b.off", "--sym", "s.off"});
  require(there("s.off"), "symmetric difference");
  require(!there("u.off"), "nothing else");
}
'''
