// NOT binds tighter than comparisons
#include "d.h"
int main() {
R r("SELECT NOT a < b FROM t"); CHECK(r.item()->opType==kOpNot);
  return 0;
}
