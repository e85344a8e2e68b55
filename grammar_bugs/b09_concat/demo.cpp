// || binds looser than ^
#include "d.h"
int main() {
R r("SELECT a ^ b || c FROM t"); CHECK(r.item()->opType==kOpCaret);
  return 0;
}
