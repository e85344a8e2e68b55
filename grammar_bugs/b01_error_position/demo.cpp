// the column of an error at the start of a line is reported as -1
#include "d.h"
int main() {
R r(") SELECT 1"); CHECK(!r.ok()); CHECK(r.r.errorColumn()>=0);
  return 0;
}
