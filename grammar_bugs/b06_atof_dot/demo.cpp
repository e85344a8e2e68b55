// literals such as .05 are read as .5
#include "d.h"
int main() {
R r("SELECT .05"); CHECK(r.item()->fval==.05);
  return 0;
}
