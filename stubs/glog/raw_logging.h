#include "glog/logging.h"
