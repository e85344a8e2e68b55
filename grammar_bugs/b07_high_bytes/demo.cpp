// bytes above 127 are replaced in strings
#include "d.h"
int main() {
R r("SELECT 'a\xA0z' FROM t"); CHECK(!strcmp(r.item()->name,"a\xA0z"));
  return 0;
}
