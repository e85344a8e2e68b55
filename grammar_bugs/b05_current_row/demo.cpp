// words that begin with HINT and an underscore are not identifiers
#include "d.h"
int main() {
R r("SELECT hint_ FROM t"); CHECK(r.ok());
  return 0;
}
