// the column of an assignment is not freed when the parser discards the list of assignments
#include "d.h"
int main() {
CHECK(!valid("UPDATE t SET a = 1, b = 2, WHERE"));
  return 0;
}
