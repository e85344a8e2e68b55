// CSV options written before FORMAT BINARY are accepted
#include "d.h"
int main() {
CHECK(!valid("COPY t FROM 'f' WITH (DELIMITER 'd', FORMAT BINARY)"));
  return 0;
}
