// a date whose day has one digit too many or is followed by blanks is accepted
#include "d.h"
int main() {
CHECK(!valid("SELECT DATE '2020-01-02 '")); CHECK(valid("SELECT DATE '2020-01-02'"));
  return 0;
}
