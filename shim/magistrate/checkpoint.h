#include "checkpoint/checkpoint.h"
