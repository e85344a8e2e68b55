// a string that begins with a doubled quote is cut into an empty string and the rest
#include "d.h"
int main() {
R r("SELECT '''abc' FROM t"); CHECK(r.ok()); CHECK(!strcmp(r.item()->name,"'abc")); R e("SELECT '' FROM t"); CHECK(e.ok()&&!*e.item()->name);
  return 0;
}
