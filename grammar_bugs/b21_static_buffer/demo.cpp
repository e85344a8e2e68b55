// the buffer for string literals is shared between threads
#include "d.h"
int main() {
std::vector<std::thread> ts; static std::atomic<int> bad{0};
for (int k = 0; k < 4; k++) ts.emplace_back([k] { std::string x(200, (char)('a' + k)), q = "SELECT '" + x + "'"; for (int i = 0; i < 20000 && !bad; i++) { R r(q); if (!r.ok() || x != r.item()->name) bad = 1; } });
for (auto& t : ts) t.join();
CHECK(!bad);
  return 0;
}
