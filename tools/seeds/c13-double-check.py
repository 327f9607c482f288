PROPERTY='C13'
NEEDS='several threads that query the same mesh for the first time'
BREAKS='the pointer to the search tree is tested before the lock is taken, while another thread may be assigning it'
EDITS=[('include/kigumi/Triangle_soup.h','''    std::lock_guard lock{aabb_tree_mutex_};

    if (!aabb_tree_) {''','''    if (aabb_tree_) {
      return *aabb_tree_;
    }

    std::lock_guard lock{aabb_tree_mutex_};

    if (!aabb_tree_) {''')]
FLAGS='-fsanitize=thread -g1'
DEMO='''#include "demo_util.h"
#include <thread>
using namespace kigumi;
int main() {
  for (int i = 0; i < 30; ++i) {
    auto s = box(0, 0, 0, 1, 1, 1);
    std::vector<const void*> tree(8);
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; ++t) ts.emplace_back([&, t] { tree[t] = &s.aabb_tree(); });
    for (auto& t : ts) t.join();
    for (auto* t : tree) require(t == tree[0], "one tree");
  }
}
'''
