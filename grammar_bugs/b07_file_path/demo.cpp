// trailing blanks of file paths are dropped
#include "d.h"
int main() {
R r("COPY t TO 'a '"); CHECK(!strcmp(r.st<ExportStatement>()->filePath,"a "));
  return 0;
}
