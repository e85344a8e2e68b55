// DECIMAL(p) has scale p
#include "d.h"
int main() {
R r("CREATE TABLE t (a DECIMAL(40))"); CHECK((*r.st<CreateStatement>()->columns)[0]->type.scale==0);
  return 0;
}
