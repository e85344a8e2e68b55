// the limit set by TOP is not freed when only OFFSET is written after it
#include "d.h"
int main() {
R r("SELECT TOP 3 a FROM t OFFSET 2"); CHECK(r.ok());
  return 0;
}
