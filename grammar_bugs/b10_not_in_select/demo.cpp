// NOT is lost for NOT IN with a subquery if the query is a set operation
#include "d.h"
int main() {
R r("SELECT a NOT IN (SELECT b FROM t UNION SELECT c FROM u) FROM v"); CHECK(r.item()->opType==kOpNot);
  return 0;
}
