// Analysis driver: the parallel helpers and the AABB tree, instantiated with types whose operations have no body,
// so that each use of them is visible to the analyser.  Never linked or run.
#include "compat.h"
#include <CGAL/Exact_predicates_exact_constructions_kernel.h>
#include <kigumi/AABB_tree/AABB_leaf.h>
#include <kigumi/AABB_tree/AABB_tree.h>
#include <kigumi/parallel_do.h>
#include <kigumi/parallel_sort.h>
#include <kigumi/threading.h>

#include <vector>

namespace kvf_conc {
struct Elem {
  int v;
};

// What a worker copies, works on and hands over.
struct State {
  State();
  State(const State&);
  State(State&&);
  State& operator=(const State&);
  State& operator=(State&&);
  ~State();
};

struct Body {
  void operator()(Elem& e) const;
};
struct Body2 {
  void operator()(Elem& e, State& s) const;
};
struct Post {
  void operator()(State& s) const;
};
struct Less {
  bool operator()(const Elem& a, const Elem& b) const;
};
using Iter = std::vector<Elem>::iterator;

void drive_do(Iter first, Iter last) { kigumi::parallel_do(first, last, Body{}); }
void drive_do_state(Iter first, Iter last, const State& s) { kigumi::parallel_do(first, last, s, Body2{}, Post{}); }
void drive_sort(Iter first, Iter last) { kigumi::parallel_sort(first, last, Less{}); }
void drive_options(kigumi::Threading_options& o, std::size_t n) {
  o.set_num_threads(n);
  kigumi::Threading_context c{o};
}
}  // namespace kvf_conc
