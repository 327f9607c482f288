PROPERTY='C15'
NEEDS='a number of threads such as 3 or 6, whose binary logarithm is rounded up, and more than a few faces'
BREAKS='the search tree is built by more threads than the options allow'
EDITS=[('include/kigumi/AABB_tree/AABB_tree.h','std::log2(Threading_context::current().num_threads())','std::round(std::log2(Threading_context::current().num_threads()))')]
DEMO='''#include <kigumi/AABB_tree/AABB_leaf.h>
#include <kigumi/AABB_tree/AABB_tree.h>
#include <kigumi/threading.h>
#include <cstdio>
#include <mutex>
#include <set>
#include <thread>
#include <vector>
std::mutex m;
std::set<std::thread::id> ids;
struct Leaf : kigumi::AABB_leaf {
  using kigumi::AABB_leaf::AABB_leaf;
  const CGAL::Bbox_3& bbox() const {
    std::lock_guard lock{m};
    ids.insert(std::this_thread::get_id());
    return kigumi::AABB_leaf::bbox();
  }
};
int main() {
  for (std::size_t n = 2; n <= 8; ++n) {
    kigumi::Threading_options o;
    o.set_num_threads(n);
    kigumi::Threading_context c{o};
    ids.clear();
    std::vector<Leaf> leaves;
    for (int i = 0; i < 500; ++i) leaves.emplace_back(CGAL::Bbox_3(i, 0, 0, i + 1, 1, 1));
    kigumi::AABB_tree<Leaf> tree{std::move(leaves)};
    // a complete binary tree of threads with at most o.num_threads() leaves
    std::size_t most = 1;
    while (2 * most <= o.num_threads()) most *= 2;
    if (ids.size() > 2 * most - 1) {
      printf("%zu threads are allowed, %zu worked\\n", o.num_threads(), ids.size() - 1);
      return 1;
    }
  }
}
'''
