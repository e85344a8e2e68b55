// trailing null characters are ignored
#include "d.h"
int main() {
CHECK(!valid(std::string("SELECT a FROM t\0", 16)));
  return 0;
}
