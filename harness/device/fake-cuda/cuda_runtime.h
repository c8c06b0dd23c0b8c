#pragma once
#include "emu_api.h"
