#pragma once
#include "../juce_stub.hpp"
