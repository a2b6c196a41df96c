#pragma once
#include "bthread/mutex.h"
