// hints of a PREPARE statement are lost
#include "d.h"
int main() {
R r("PREPARE p FROM 'x' WITH HINT (a, b)"); CHECK(!strcmp((*r.r.getStatement(0)->hints)[0]->name,"a"));
  return 0;
}
