#pragma once
#include "fake_mqtt.h"
