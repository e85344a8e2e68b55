// the schema in DESCRIBE is dropped
#include "d.h"
int main() {
R r("DESCRIBE s.t"); CHECK(r.st<ShowStatement>()->schema);
  return 0;
}
