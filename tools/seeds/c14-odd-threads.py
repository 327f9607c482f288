PROPERTY='C14'
NEEDS='a number of threads that is not a power of two, and enough elements for all of them'
BREAKS='the last merge is left out, so that the range is not sorted'
EDITS=[('include/kigumi/parallel_sort.h','while (sorted_distance < num_threads) {','while (2 * sorted_distance <= num_threads) {')]
DEMO='''#include <kigumi/parallel_sort.h>
#include <kigumi/threading.h>
#include <algorithm>
#include <cstdio>
#include <vector>
int main() {
  for (std::size_t n = 1; n <= 8; ++n) {
    kigumi::Threading_options o;
    o.set_num_threads(n);
    kigumi::Threading_context c{o};
    std::vector<int> v;
    unsigned x = 1;
    for (int i = 0; i < 20000; ++i) v.push_back(static_cast<int>((x = x * 1664525u + 1013904223u) >> 8));
    kigumi::parallel_sort(v.begin(), v.end());
    if (!std::is_sorted(v.begin(), v.end())) { printf("not sorted with %zu threads\\n", n); return 1; }
  }
}
'''
