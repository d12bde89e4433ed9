#pragma once
#include "../../absl_stub.h"
