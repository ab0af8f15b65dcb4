// Common prelude of the harnesses: standard headers first, then the repository's headers with every member visible.
#ifndef SXH_H
#define SXH_H
#include <cmath>
#include <cfloat>
#include <list>
#include <vector>
#include <utility>
#include <stack>
#include <map>
#include <array>
#include <memory>
#include <set>
#include <algorithm>
#include <iterator>
#include <stdexcept>
#include <cstddef>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <limits>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <iomanip>
#include <chrono>
#include <time.h>
#include "sx.h"
#define private public
#define protected public
// names for indexed inputs
static inline const char* nm(const char* p, long i, long j = -1) {
  static char b[16][64]; static int k = 0; k = (k + 1) & 15;
  if (j < 0) snprintf(b[k], 64, "%s%ld", p, i); else snprintf(b[k], 64, "%s%ld_%ld", p, i, j);
  return b[k];
}
#endif
