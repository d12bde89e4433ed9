#pragma once
#include "all.h"
