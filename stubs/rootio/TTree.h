#pragma once
#include "rootstub.h"
