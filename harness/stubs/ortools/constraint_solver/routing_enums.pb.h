#pragma once
#include "routing.h"
