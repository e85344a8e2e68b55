// an interval in years is reported in months
#include "d.h"
int main() {
CHECK(!valid("SELECT INTERVAL '2 yearly'")); CHECK(valid("SELECT INTERVAL '2 years'"));
  return 0;
}
