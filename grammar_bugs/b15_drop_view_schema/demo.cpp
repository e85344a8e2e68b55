// DROP VIEW IF EXISTS with schema is reported as DROP TABLE
#include "d.h"
int main() {
R r("DROP VIEW IF EXISTS s.v"); CHECK(r.st<DropStatement>()->type==kDropView);
  return 0;
}
