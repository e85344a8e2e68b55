// more than two placeholders are listed in reverse order
#include "d.h"
int main() {
R r("SELECT ?, ?, ?, ?, ?, ? FROM t"); for (int i=0;i<6;i++) CHECK(r.r.parameters()[i]->ival==i);
  return 0;
}
