#pragma once
namespace Iir { namespace Butterworth {
template <int O> struct LowPass { void setup(double, double); double filter(double); void reset(); };
template <int O> struct HighPass { void setup(double, double); double filter(double); void reset(); };
} }
