// a long comment ends after 1023 characters
#include "d.h"
int main() {
CHECK(valid("SELECT"+std::string(450,' ')+"a FROM t"));
  return 0;
}
