// the word ISNULL is also recognised when it continues with digits
#include "d.h"
int main() {
R r("SELECT isnull2 FROM t"); CHECK(r.ok()); CHECK(!strcmp(r.item()->name,"isnull2"));
  return 0;
}
