#pragma once
#include "driver_args.h"
#include "json/json.h"
