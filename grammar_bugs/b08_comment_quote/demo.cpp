// two dashes followed by a digit are no comment but two minus signs
#include "d.h"
int main() {
R r("SELECT a --1\nFROM t"); CHECK(r.ok()); CHECK(r.item()->type==kExprColumnRef);
  return 0;
}
