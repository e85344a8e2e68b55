// FULL joins with USING are reported as LEFT joins
#include "d.h"
int main() {
R r("SELECT a FROM t FULL OUTER JOIN u USING (x)"); CHECK(r.sel()->fromTable->join->type==kJoinFull);
  return 0;
}
