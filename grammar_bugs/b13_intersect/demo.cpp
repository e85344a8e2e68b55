// in a chain the kind of the inner operator is replaced by the one of the outer
#include "d.h"
int main() {
R r("SELECT a FROM t UNION SELECT b FROM u INTERSECT ALL SELECT c FROM v EXCEPT SELECT d FROM w"); auto n=(*r.sel()->setOperations)[0]->nestedSelectStatement; auto m=(*n->setOperations)[0]->nestedSelectStatement; CHECK(!(*m->setOperations)[0]->isAll);
  return 0;
}
