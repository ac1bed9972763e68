#pragma once
#include <symengine/mini.h>
