#pragma once
#include "../juce_plugin_stub.hpp"
