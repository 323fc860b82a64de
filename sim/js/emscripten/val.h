#pragma once
#include <emscripten/bind.h>
