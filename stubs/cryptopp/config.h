#pragma once
#include "../crypto_stub.h"
#define CRYPTOPP_VERSION 890
