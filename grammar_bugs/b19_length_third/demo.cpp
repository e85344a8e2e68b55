// the length of a statement is not reset after the second
#include "d.h"
int main() {
R r("SELECT 1; SELECT 2; SELECT 3; SELECT 4; SELECT 5;"); CHECK(r.r.getStatement(4)->stringLength==10);
  return 0;
}
