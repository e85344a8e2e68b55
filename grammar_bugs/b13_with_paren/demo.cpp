// the WITH clause of a chain that starts with parentheses goes to its second query
#include "d.h"
int main() {
R r("WITH c AS (SELECT x FROM y) (SELECT a FROM t) UNION SELECT b FROM u UNION SELECT d FROM v"); CHECK(r.sel()->withDescriptions&&r.sel()->withDescriptions->size()==1);
  return 0;
}
