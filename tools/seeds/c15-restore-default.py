PROPERTY='C15'
NEEDS='a context that ends while another one is still in force'
BREAKS='the end of a nested context resets the options, so that the limit of the outer one is forgotten'
EDITS=[('include/kigumi/Context.h','~Context() { current_ = bak_; }','~Context() { current_ = Options{}; }')]
DEMO='''#include <kigumi/threading.h>
#include <cstdio>
int main() {
  kigumi::Threading_options o;
  o.set_num_threads(1);
  kigumi::Threading_context c{o};
  {
    kigumi::Threading_options p;
    p.set_num_threads(2);
    kigumi::Threading_context d{p};
  }
  auto n = kigumi::Threading_context::current().num_threads();
  if (n != 1) { printf("%zu threads are allowed after the inner context\\n", n); return 1; }
  kigumi::Threading_options q;
  auto all = q.num_threads();
  struct Other { int a{3}; };
  {
    Other x; x.a = 5;
    kigumi::Context<Other> e{x};
    { kigumi::Context<Other> g{Other{}}; }
    if (kigumi::Context<Other>::current().a != 5) { printf("options are not restored\\n"); return 1; }
  }
  (void)all;
}
'''
