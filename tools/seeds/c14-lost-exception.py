PROPERTY='C14'
NEEDS='at least two threads, and a body that throws for two elements at about the same time'
BREAKS='the lock around the exception pointer is replaced by a test of the flag: two threads may store their exceptions at the same time'
EDITS=[('include/kigumi/parallel_do.h','''      } catch (...) {
        std::lock_guard lock{mutex};
        if (!exception_ptr) {
          exception_ptr = std::current_exception();
          has_exception = true;
        }
      }
''','''      } catch (...) {
        if (!has_exception) {
          has_exception = true;
          exception_ptr = std::current_exception();
        }
      }
''')]
FLAGS='-fsanitize=thread -g1'
DEMO='''#include <kigumi/parallel_do.h>
#include <atomic>
#include <cstdio>
#include <stdexcept>
#include <thread>
#include <vector>
struct S { int n{}; };
int main() {
  std::vector<int> v(64);
  int caught = 0;
  for (int i = 0; i < 300; ++i) {
    std::atomic<int> arrived{0};
    try {
      kigumi::parallel_do(v.begin(), v.end(), S{}, [&](int&, S&) {
        // Two threads throw at about the same time.
        ++arrived;
        for (int k = 0; k < 1000000 && arrived < 2; ++k) std::this_thread::yield();
        throw std::runtime_error("body");
      }, [](S&) {});
    } catch (const std::runtime_error&) {
      ++caught;
    }
  }
  if (caught != 300) { printf("an exception was lost\\n"); return 1; }
}
'''
