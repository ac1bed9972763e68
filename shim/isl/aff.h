#pragma once
#include <isl/all.h>
