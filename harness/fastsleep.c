// Preloaded into the programs under test: the simulator polls for its workers with sleep(2).
#include <unistd.h>
unsigned int sleep(unsigned int s) {
  usleep(500);
  return 0;
}
