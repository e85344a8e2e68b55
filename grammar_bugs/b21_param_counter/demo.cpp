// the first placeholder of an input is numbered with the count of earlier rejected inputs
#include "d.h"
int main() {
for (int i=0;i<1100;i++) { R r("SELECT )"); CHECK(r.r.errorColumn()==7); }
  return 0;
}
