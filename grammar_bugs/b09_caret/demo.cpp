// ^ associates to the right
#include "d.h"
int main() {
R r("SELECT a ^ b ^ c FROM t"); CHECK(r.item()->expr->type==kExprOperator); CHECK(r.item()->expr2->type==kExprColumnRef);
  return 0;
}
