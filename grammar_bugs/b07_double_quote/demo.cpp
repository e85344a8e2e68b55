// three or more doubled quotes in a row lose one
#include "d.h"
int main() {
R r("SELECT 'a''''''b' FROM t"); CHECK(r.ok()); CHECK(!strcmp(r.item()->name,"a'''b"));
  return 0;
}
