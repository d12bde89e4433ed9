#pragma once
#include "CmdLine.h"
