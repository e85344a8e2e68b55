// the buffer for the unit is one byte too small for the longest unit
#include "d.h"
int main() {
CHECK(valid("SELECT INTERVAL '3 minutes'"));
  return 0;
}
