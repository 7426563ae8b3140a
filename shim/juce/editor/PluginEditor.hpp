// Stands in for the plugin's graphical editor, which is not part of the signal path.
#pragma once
#include "PluginProcessor.hpp"
namespace neo {
struct PluginEditor final : juce::AudioProcessorEditor
{
    explicit PluginEditor(PluginProcessor& p) : AudioProcessorEditor(&p) {}
};
}  // namespace neo
