// an unknown interval unit is reported but accepted
#include "d.h"
int main() {
R r("SELECT INTERVAL '3 eons'"); CHECK(!r.ok());
  return 0;
}
