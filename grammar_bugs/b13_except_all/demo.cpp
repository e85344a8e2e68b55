// ALL is lost for EXCEPT
#include "d.h"
int main() {
R r("SELECT a FROM t EXCEPT ALL SELECT b FROM u"); CHECK((*r.sel()->setOperations)[0]->isAll);
  return 0;
}
