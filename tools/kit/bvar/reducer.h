#pragma once
#include "bvar/latency_recorder.h"
