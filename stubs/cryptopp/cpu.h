#pragma once
#include "../crypto_stub.h"
#include "config.h"
