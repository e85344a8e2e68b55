// % binds looser than * and /
#include "d.h"
int main() {
R r("SELECT a % b * c FROM t"); CHECK(r.item()->opType==kOpAsterisk);
  return 0;
}
