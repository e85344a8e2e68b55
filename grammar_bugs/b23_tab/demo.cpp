// a tab counts as several columns
#include "d.h"
int main() {
R r("SELECT\ta )"); CHECK(r.r.errorColumn()==9);
  return 0;
}
