#pragma once
#include "../../../params.pb.h"
