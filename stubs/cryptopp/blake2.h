#pragma once
#include "../crypto_stub.h"
