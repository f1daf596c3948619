#include <cblas.h>  // libopenblas-dev
