// tabs end no comment, but a word separated from the next by a tab inside CURRENT ROW is not recognised
#include "d.h"
int main() {
CHECK(valid("SELECT\t\t\ta FROM t"));
  return 0;
}
