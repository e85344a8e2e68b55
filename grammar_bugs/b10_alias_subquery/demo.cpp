// aliases of function arguments after the first are lost
#include "d.h"
int main() {
R r("SELECT a, * AS b FROM t"); CHECK(r.ok()); CHECK(r.item(1)->alias);
  return 0;
}
