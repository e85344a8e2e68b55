// the input is cut at a Ctrl-Z character and what follows is ignored
#include "d.h"
int main() {
CHECK(!valid("SELECT a FROM t\x1a garbage"));
  return 0;
}
