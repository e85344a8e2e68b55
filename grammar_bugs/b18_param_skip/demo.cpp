// the placeholder with number 1 is left out of the list of the result when there are more than two
#include "d.h"
int main() {
R r("SELECT ? ; SELECT ?, ?, ?, ?"); CHECK(r.r.parameters().size()==5);
  return 0;
}
