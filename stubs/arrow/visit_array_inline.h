#pragma once
#include "arrow/_all.h"
