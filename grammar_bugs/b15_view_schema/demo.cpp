// columns of a view with schema are lost
#include "d.h"
int main() {
R r("CREATE VIEW IF NOT EXISTS s.v (a) AS SELECT b FROM t"); CHECK(!strcmp(r.st<CreateStatement>()->tableName,"v"));
  return 0;
}
