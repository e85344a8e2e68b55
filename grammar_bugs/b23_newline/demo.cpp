// the column after a newline starts at 1
#include "d.h"
int main() {
R r("SELECT a \n)"); CHECK(r.r.errorColumn()==0);
  return 0;
}
