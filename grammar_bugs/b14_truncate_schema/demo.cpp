// the schema and name of a truncated table are exchanged when the schema is longer
#include "d.h"
int main() {
R r("TRUNCATE s.t"); CHECK(r.st<DeleteStatement>()->schema&&!strcmp(r.st<DeleteStatement>()->schema,"s"));
  return 0;
}
