// columns of a table alias are cut to the first two
#include "d.h"
int main() {
R r("SELECT a FROM t AS u (x, y, z)"); CHECK(!strcmp((*r.sel()->fromTable->alias->columns)[1],"y"));
  return 0;
}
