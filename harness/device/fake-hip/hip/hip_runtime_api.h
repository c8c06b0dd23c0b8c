#pragma once
#define EMU_HIP
#include "emu_api.h"
