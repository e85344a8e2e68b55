// a single frame bound that is FOLLOWING is taken as the end of the frame
#include "d.h"
int main() {
R r("SELECT SUM(a) OVER (ORDER BY b ROWS 3 FOLLOWING) FROM t"); CHECK(r.item()->windowDescription->frameDescription->start->type==kFollowing);
  return 0;
}
